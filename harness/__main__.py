from harness.core import main
main()
