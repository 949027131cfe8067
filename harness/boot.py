"""Makes /repo's current working tree importable.

The extension module is compiled here, from the sources as they are now, into
/verif/.cache (ignored by git, keyed by the contents of the sources), so that
nothing stale that lies in /repo is ever loaded and nothing is written there.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
EXT = 'pyuoi.lbfgs._lowlevel'
SO_VAR = 'VERIF_LOWLEVEL_SO'

BASE_ENV = {
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'PIP_NO_INDEX': '1',
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_btl': 'self', 'OMPI_MCA_pml': 'ob1',
}


def base_env():
    env = dict(os.environ)
    env.update(BASE_ENV)
    env.pop('PYTHONPATH', None)
    env['PYTHONPATH'] = VERIF
    return env


def _ext_inputs():
    files = [os.path.join(REPO, f)
             for f in ('setup.py', 'pyproject.toml', 'MANIFEST.in')]
    for top in ('liblbfgs', 'compat', 'src'):
        for d, dirs, names in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for name in sorted(names):
                if name == '_lowlevel.c':
                    continue
                if name.endswith(('.pyx', '.pxd', '.pxi', '.h', '.c')):
                    files.append(os.path.join(d, name))
    return [f for f in files if os.path.exists(f)]


def _digest(variant):
    h = hashlib.sha256((variant + repr(FLAGS[variant])).encode())
    with open(os.path.join(VERIF, 'harness', 'fault.h'), 'rb') as fh:
        h.update(fh.read())
    for f in _ext_inputs():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


FLAGS = {
    'plain': ('', ''),
    'asan': ('-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined '
             '-fno-sanitize-recover=undefined '
             '-fno-sanitize=alignment,float-divide-by-zero '
             '-include %s' % os.path.join(VERIF, 'harness', 'fault.h'),
             '-fsanitize=address,undefined'),
}


def asan_env(env):
    """The environment of a worker that loads the asan variant."""
    def lib(name):
        return subprocess.check_output(
            ['gcc', '-print-file-name=' + name]).decode().strip()
    env = dict(env)
    env['LD_PRELOAD'] = lib('libasan.so') + ' ' + lib('libubsan.so')
    env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:'
                           'allocator_may_return_null=1:'
                           'max_allocation_size_mb=600:'
                           'detect_stack_use_after_return=1:'
                           'quarantine_size_mb=64')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
    env['PYTHONMALLOC'] = 'malloc'
    return env


def build_ext(variant='plain'):
    """Compile the extension and return the path of the shared object."""
    os.makedirs(CACHE, exist_ok=True)
    key = variant + '-' + _digest(variant)
    out = os.path.join(CACHE, key)
    so = os.path.join(out, '_lowlevel.so')
    if os.path.exists(so):
        return so
    with open(os.path.join(CACHE, 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        tmp = tempfile.mkdtemp(prefix='build-', dir=CACHE)
        try:
            for f in ('setup.py', 'pyproject.toml', 'README.md',
                      'requirements.txt', 'requirements-dev.txt'):
                p = os.path.join(REPO, f)
                if os.path.exists(p):
                    shutil.copy(p, tmp)
            ign = shutil.ignore_patterns('*.so', '_lowlevel.c', '*.h5',
                                         '__pycache__', '*.egg-info')
            for d in ('src', 'liblbfgs', 'compat'):
                p = os.path.join(REPO, d)
                if os.path.exists(p):
                    shutil.copytree(p, os.path.join(tmp, d), ignore=ign)
            env = base_env()
            env.pop('PYTHONPATH')
            cflags, ldflags = FLAGS[variant]
            if cflags:
                env['CFLAGS'] = cflags
                env['LDFLAGS'] = ldflags
            r = subprocess.run(
                [PY, 'setup.py', 'build_ext', '--build-lib', 'out',
                 '--force'], cwd=tmp, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT)
            found = []
            for d, _, names in os.walk(os.path.join(tmp, 'out')):
                found += [os.path.join(d, n) for n in names
                          if n.startswith('_lowlevel') and n.endswith('.so')]
            if r.returncode or not found:
                sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
                raise RuntimeError('the extension does not build')
            os.makedirs(out, exist_ok=True)
            part = so + '.part'
            shutil.copy(found[0], part)
            os.rename(part, so)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return so


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != EXT:
            return None
        so = os.environ[SO_VAR]
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install():
    """In a worker: put the working tree and the fresh extension in place."""
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.meta_path.insert(0, _Finder())
    import pyuoi
    want = os.path.join(os.path.realpath(REPO), 'src') + os.sep
    if not os.path.realpath(pyuoi.__file__).startswith(want):
        raise RuntimeError('wrong pyuoi: %s' % pyuoi.__file__)
    return pyuoi


if __name__ == '__main__':
    for v in (sys.argv[1:] or ['plain']):
        print(build_ext(v))
