import json
import os
import subprocess
import tempfile

import numpy as np

PROPERTY = 'C11'
RULE = ('Each case calls the helpers on every rank of a simulated or real '
        'communicator with arrays of random shape, layout, element type and '
        'root, delayed at random, and compares what every rank gets with '
        'what was sent. Non-trivial: an array crossed between ranks.')
ASSUMPTIONS = ['The simulated communicator checks the MPI rules the helpers '
               'rely on (datatypes, counts, contiguity, matching calls); '
               'some cases use the real MPI.']
REQUIRED = {'bcasts': 500, 'gathers': 500, 'loads': 30, 'rejections': 30,
            'arrival_orders': 100}
TYPES = ('f8', 'f4', 'l', 'i')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 15
    out = []
    for i in range(40 * k):
        rng = np.random.RandomState([seed, i, 11])
        out.append(dict(kind='sim', size=int(rng.randint(1, 9)),
                        seed=int(rng.randint(1 << 30)), rounds=30,
                        delay=float(rng.choice([0, 0, 1e-4, 1e-3])),
                        name='c11sim%d' % i))
    for i in range(12 * k):
        out.append(dict(kind='load', size=1 + i % 6, seed=seed * 1000 + i,
                        name='c11load%d' % i))
    for i in range(8 * k):
        out.append(dict(kind='reject', size=1 + i % 3, seed=seed * 1000 + i,
                        name='c11reject%d' % i))
    for i in range(2 * (1 if tier == 'quick' else 6)):
        out.append(dict(kind='real', size=(4, 7, 2, 11, 3, 5)[i % 6],
                        seed=seed * 1000 + i, name='c11real%d' % i))
    return out


def array(rng, shape, dt):
    """An array of special values in a random memory layout."""
    dt = np.dtype(dt)
    if dt.kind == 'f':
        a = rng.randn(*shape) * 10. ** rng.randint(-30, 30)
        a = np.asarray(a, dtype=dt)
        if a.size:
            f = a.reshape(-1)
            f[rng.randint(a.size)] = rng.choice(
                [np.nan, np.inf, -np.inf, -0., np.finfo(dt).tiny / 4,
                 np.finfo(dt).max])
            a = f.reshape(shape)
    else:
        info = np.iinfo(dt)
        a = rng.randint(info.min // 2, info.max // 2, size=shape).astype(dt)
        if a.size:
            a.reshape(-1)[rng.randint(a.size)] = rng.choice(
                [info.min, info.max, -1])
    how = rng.randint(5)
    if how == 1 and a.ndim > 1:
        a = np.asfortranarray(a)
    elif how == 2 and a.ndim:
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=dt)
        big[::2] = a
        a = big[::2]
    elif how == 3 and a.ndim:
        a = a[::-1].copy()[::-1]
    elif how == 4:
        a = a.copy()
        a.flags.writeable = False
    return a


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and \
        a.shape == b.shape and a.tobytes() == b.tobytes()


def plan(rng, size, rounds):
    """A list of collective steps with the arrays of each rank."""
    steps = []
    for _ in range(rounds):
        dt = TYPES[rng.randint(4)]
        root = int(rng.randint(size))
        if rng.rand() < .5:
            nd = rng.randint(0, 4)
            shape = tuple(int(s) for s in rng.randint(0, 6, nd))
            if rng.rand() < .08:
                shape = (int(rng.randint(2, 40)), int(rng.randint(100, 800)))
            arrs = []
            for r in range(size):
                how = rng.randint(3)
                if r == root:
                    arrs.append(array(rng, shape, dt))
                elif how == 0:
                    arrs.append(None)
                elif how == 1:
                    arrs.append(array(rng, shape, TYPES[rng.randint(4)]))
                else:
                    arrs.append(array(rng, (int(rng.randint(4)),), dt))
            steps.append(('bcast', root, arrs))
        else:
            tail = tuple(int(s) for s in rng.randint(
                0 if rng.rand() < .2 else 1, 5, rng.randint(0, 3)))
            if rng.rand() < .08:
                # long rows
                tail = (int(rng.randint(100, 800)),)
            arrs = [array(rng, (int(rng.randint(0, 7)),) + tail, dt)
                    for _ in range(size)]
            steps.append(('gather', root, arrs))
    return steps


def play(comm, steps, mu, rec_fail):
    counts = dict(bcasts=0, gathers=0)
    for kind, root, arrs in steps:
        mine = arrs[comm.rank]
        before = None if mine is None else mine.tobytes()
        if kind == 'bcast':
            got = mu.Bcast_from_root(mine, comm, root=root)
            counts['bcasts'] += 1
            want = np.ascontiguousarray(arrs[root]) \
                if arrs[root].ndim else arrs[root]
            if got is not None and want.ndim == 0:
                # ascontiguousarray makes 0-d arrays 1-d
                want = want.reshape(np.shape(got)) \
                    if np.shape(got) in ((), (1,)) else want
            if not same(got, want):
                rec_fail('bcast', 'rank %d of %d, root %d: got %s %s, want '
                         '%s %s' % (comm.rank, comm.size, root,
                                    getattr(got, 'dtype', None),
                                    np.shape(got), want.dtype, want.shape))
        else:
            got = mu.Gatherv_rows(mine, comm, root=root)
            counts['gathers'] += 1
            if comm.rank == root:
                want = np.concatenate(arrs, axis=0)
                if not same(got, want):
                    rec_fail('gather', 'rank %d of %d: got %s %s, want %s %s'
                             % (comm.rank, comm.size,
                                getattr(got, 'dtype', None), np.shape(got),
                                want.dtype, want.shape))
            elif got is not None:
                rec_fail('gather-elsewhere', 'rank %d is not root %d but got '
                         '%s' % (comm.rank, root, np.shape(got)))
        if before is not None and mine.tobytes() != before:
            rec_fail('argument-changed', '%s changed its argument' % kind)
    return counts


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_sim(case, rec):
    from harness.mpisim import World, SimError
    from pyuoi import mpi_utils as mu
    rng = np.random.RandomState(case['seed'])
    size = case['size']
    steps = plan(rng, size, case['rounds'])
    w = World(size, case['seed'], case['delay'],
              slow=[int(rng.randint(size))])
    try:
        outs = w.run(lambda comm: play(comm, steps, mu, rec.fail))
    except SimError as e:
        rec.fail(e.mech, str(e), size=size)
        return
    rec.count('oracle_evaluations', size * len(steps))
    for c in outs:
        for k, v in c.items():
            rec.count(k, v)
    rec.count('arrival_orders', len(w.orders))
    if size > 1:
        for o in w.orders:
            rec.seen(size, o)


def run_load(case, rec):
    import h5py
    from harness.mpisim import World, SimError
    from pyuoi import mpi_utils as mu
    rng = np.random.RandomState(case['seed'])
    size = case['size']
    import threading
    opened = []
    orig = h5py.File
    tl = threading.local()

    class File(orig):
        def __init__(self, *a, **k):
            opened.append(getattr(tl, 'rank', None))
            super().__init__(*a, **k)

    with tempfile.TemporaryDirectory() as d:
        for t in range(4):
            n, p = int(rng.randint(0, 9)), int(rng.randint(1, 6))
            X = array(rng, ((n, p), (n, p), (n, p, 2), (n,))[
                rng.randint(4)], TYPES[rng.randint(4)])
            y = array(rng, (n,) + ((2,) if rng.rand() < .3 else ()),
                      TYPES[rng.randint(4)])
            kx, ky = [('X', 'y'), ('feat', 'g/target')][rng.randint(2)]
            name = os.path.join(d, 'f%d.h5' % t)
            with orig(name, 'w') as f:
                f.create_dataset(kx, data=X)
                f.create_dataset(ky, data=y)
            with open(name, 'rb') as f:
                before = f.read()
            root = int(rng.randint(size))
            del opened[:]

            def body(comm):
                tl.rank = comm.rank
                kw = {} if kx == 'X' else dict(X_key=kx, y_key=ky)
                return mu.load_data_MPI(name, comm=comm, root=root, **kw)
            h5py.File = mu.h5py.File = File
            try:
                outs = World(size, case['seed'], 1e-4).run(body)
            except SimError as e:
                rec.fail(e.mech, str(e), size=size)
                return
            finally:
                h5py.File = mu.h5py.File = orig
            for r, (gx, gy) in enumerate(outs):
                rec.count('loads')
                rec.check(same(gx, np.ascontiguousarray(X)) and
                          same(gy, np.ascontiguousarray(y)), 'load',
                          'rank %d of %d, root %d: %s %s instead of %s %s' % (
                              r, size, root, gx.dtype, gx.shape, X.dtype,
                              X.shape))
            rec.check(set(opened) <= {root}, 'load-opens',
                      'file opened by ranks %s, root %d' % (opened, root))
            with open(name, 'rb') as f:
                rec.check(f.read() == before, 'load-writes', 'file changed')
            if size > 1:
                rec.seen('load', size, root, str(X.dtype), X.shape)


def run_reject(case, rec):
    from harness.mpisim import World
    from pyuoi import mpi_utils as mu
    for bad in ([1., 2.], (1, 2), 3., 'x', {1: 2}, range(3)):
        for f in (mu.Bcast_from_root, mu.Gatherv_rows):
            res = []

            def body(comm):
                try:
                    f(bad, comm, root=0)
                except ValueError:
                    res.append(True)
                else:
                    res.append(False)
            try:
                World(case['size'], 0, timeout=20.).run(body)
            except Exception as e:
                rec.fail('reject', '%r: %s' % (bad, e))
                continue
            rec.count('rejections')
            rec.check(all(res) and len(res) == case['size'], 'reject',
                      '%r is not rejected by %s' % (bad, f.__name__))
        try:
            mu.check_valid_ndarray(bad)
            rec.fail('reject', '%r is accepted' % (bad,))
        except ValueError:
            rec.count('oracle_evaluations')
    rec.check(mu.check_valid_ndarray(None) is None, 'none', '')
    rec.seen('reject', case['size'])


PROBE = '''
from mpi4py import MPI
import sys
assert len(MPI.COMM_WORLD.allgather(1)) == 3
open('%s/%d' % (sys.argv[2], MPI.COMM_WORLD.rank), 'w').write('1')
'''
_probe = []


def real_mpi(rec):
    """Whether real MPI processes can be started here at all."""
    if not _probe:
        rc, outs, err = mpiexec(3, PROBE, '', 60)
        _probe.append(rc == 0 and len(outs) == 3)
    if not _probe[0]:
        rec.count('real_mpi_unavailable')
    return _probe[0]


def mpiexec(size, script, arg, timeout=150):
    from harness import boot
    env = dict(os.environ, OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1')
    with tempfile.TemporaryDirectory() as d:
        # killed as a group by timeout, so that no rank survives
        r = subprocess.run(
            ['timeout', '-k', '5', str(timeout), 'mpiexec', '--oversubscribe',
             '--bind-to', 'none', '-n', str(size), boot.PY, '-m', 'mpi4py',
             '-c', script, arg, d], cwd=boot.VERIF, env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE)
        outs = []
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as fh:
                outs.append(json.load(fh))
    return r.returncode, outs, r.stderr.decode(errors='replace')[-2500:]


REAL = '''
import json, sys
sys.path.insert(0, '.')
from harness import boot
boot.install()
from mpi4py import MPI
import numpy as np
from checks import c11
from pyuoi import mpi_utils as mu
a = json.loads(sys.argv[1])
comm = MPI.COMM_WORLD
fails = []
rng = np.random.RandomState(a['seed'])
steps = c11.plan(rng, comm.size, 25)
counts = c11.play(comm, steps, mu, lambda m, s: fails.append([m, s]))
with open('%s/%d' % (sys.argv[2], comm.rank), 'w') as f:
    json.dump(dict(rank=comm.rank, size=comm.size, fails=fails[:3],
                   counts=counts), f)
'''


def run_real(case, rec):
    if not real_mpi(rec):
        return
    rc, outs, err = mpiexec(case['size'], REAL, json.dumps(case))
    if rc in (124, 137):
        # the simulated ranks decide about deadlocks
        rec.count('real_mpi_timeouts')
        return
    if rc or len(outs) != case['size']:
        rec.fail('real-mpi', 'rc %s, %d of %d ranks: %s' % (
            rc, len(outs), case['size'], err))
        return
    for o in outs:
        rec.count('real_mpi_ranks')
        rec.count('oracle_evaluations', sum(o['counts'].values()))
        for m, s in o['fails']:
            rec.fail(m, s)
    rec.seen('real', case['size'])
