import sys
from harness.core import worker_main
worker_main(sys.argv[1])
