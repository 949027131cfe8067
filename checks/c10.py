import json

import numpy as np

from harness import gen

PROPERTY = 'C10'
RULE = ('Each case fits one model serially and on 1 to 40 simulated ranks '
        '(threads with monitored collectives and random delays), or real MPI '
        'processes, and compares everything a fitted model reports on every '
        'rank. Non-trivial: more than one rank and a nonzero coefficient.')
ASSUMPTIONS = ['With more processes than bootstraps a warm-started path is '
               'started cold in each process; such fits are compared within '
               'solver tolerance.',
               'Simulated ranks are threads; cases with real processes use '
               'the installed Open MPI.']
REQUIRED = {'ranks': 300, 'exact': 50, 'more_ranks_than_boots': 25,
            'more_ranks_than_tasks': 8,
            'collectives': 5000, 'arrival_orders': 500}
CASE_TIMEOUT = 300


def one(rng, kind, i):
    c = gen.model_case(rng, kind)
    P, D = c['model']['params'], c['data']
    B = P['n_boots_sel']
    nreg = P.get('n_lambdas', P.get('n_C')) * len(P.get('alphas', [1]))
    form = i % 6
    size = [2, int(rng.randint(2, B + 1)) if B > 1 else 2, B + 1,
            int(rng.randint(B + 1, B * nreg + 1)),
            B * nreg + 1 if B * nreg < 40 else 40,
            int(rng.randint(1, 12))][form]
    c['size'] = min(size, 40)
    if rng.rand() < .5:
        P['warm_start'] = False
    if kind == 'lasso' and P['fit_intercept'] and rng.rand() < .3:
        P['solver'] = 'pyc'
        P['standardize'] = True
    if i % 5 == 4:
        # long paths: several strengths of one bootstrap per process
        key = 'n_C' if kind == 'logit' else 'n_lambdas'
        P[key] = int(rng.randint(9, 20))
        P.update(n_boots_sel=int(rng.randint(1, 3)), stability_selection=1.)
        c['size'] = int(rng.randint(P['n_boots_sel'] + 1, 8))
    if i % 9 == 8:
        c['constant'] = True
        c.pop('stratify', None)
    c['seedform'] = gen.pick(rng, 'int', 'np', 'gen', 'gen')
    c['refit'] = bool(rng.rand() < .3)
    c['delay'] = float(gen.pick(rng, 0., 1e-4, 2e-3))
    c['ydim'] = int(kind in ('lasso', 'en') and rng.rand() < .15)
    return c


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for kind in ('lasso', 'en', 'logit', 'pois'):
        for i in range((36 if kind == 'logit' else 24) * k):
            rng = np.random.RandomState([seed, i, 10, sum(map(ord, kind))])
            c = one(rng, kind, i)
            c['name'] = 'c10%s%d' % (kind, i)
            out.append(c)
        for i in range(6 * k):
            # long, many, wide or with nothing but defaults
            rng = np.random.RandomState([seed, i, 102, sum(map(ord, kind))])
            c = one(rng, kind, 0)
            m = gen.large_case(rng, i, kind)
            c.update(data=m['data'], model=m['model'])
            c.pop('stratify', None)
            c.pop('constant', None)
            c['ydim'] = 0
            c['delay'] = 0.
            c['size'] = int(gen.pick(rng, 2, 3, 7, 13, 30))
            c['name'] = 'c10%slarge%d' % (kind, i)
            out.append(c)
        for i in range(6 * k):
            # what a path was started from shows
            rng = np.random.RandomState([seed, i, 101, sum(map(ord, kind))])
            c = one(rng, kind, 0)
            B = int(rng.randint(4, 8))
            P = c['model']['params']
            P.update(n_boots_sel=B, warm_start=True,
                     tol=float(gen.pick(rng, .03, .1, .3)),
                     stability_selection=gen.pick(rng, [1, B // 2, B],
                                                  B - 1))
            P.pop('solver', None)
            c.pop('constant', None)
            c['size'] = int(rng.randint(2, B))
            if i % 3 == 2:
                # many processes, each of which begins within a bootstrap
                B = int(rng.randint(14, 22))
                P.update(n_boots_sel=B, stability_selection=[1, B // 2, B])
                c['size'] = int(rng.randint(9, B - 2))
                for q in ('n_C', 'n_lambdas'):
                    if q in P:
                        P[q] = int(rng.randint(3, 6))
            c['name'] = 'c10warm-%s%d' % (kind, i)
            out.append(c)
        for i in range(k if tier == 'quick' else 4):
            rng = np.random.RandomState([seed, i, 100, sum(map(ord, kind))])
            c = one(rng, kind, 5)
            c['size'] = int(gen.pick(rng, 3, 4, 7))
            c['model']['params'].pop('solver', None)
            c['model']['params']['warm_start'] = False
            c['real'] = True
            c['name'] = 'c10real-%s%d' % (kind, i)
            out.append(c)
    return out


def build(case, comm=None):
    """The model and its data, as one rank makes them."""
    from harness import uoi, traced
    X, y = uoi.dataset(case['data'])
    kind = case['model']['kind']
    P = dict(case['model']['params'])
    kw = traced.fit_args(case, y)
    if case.get('constant'):
        kw = {}
        y = np.full(len(y), 3 if kind != 'logit' else 1, dtype=y.dtype)
    if case.get('ydim'):
        y = y[:, None]
    s = P['random_state']
    rank = 0 if comm is None else comm.rank
    if case['seedform'] == 'np':
        P['random_state'] = np.int64(s)
    elif case['seedform'] == 'gen':
        # only the first rank's generator may matter
        P['random_state'] = np.random.RandomState(s + 17 * rank)
    m = uoi.make(kind, comm=comm, **P)
    return m, X, y, kw


def skip_constant(case):
    return case.get('constant') and case['model']['kind'] == 'logit'


def fit(case, comm=None):
    from harness import uoi
    m, X, y, kw = build(case, comm)
    m.fit(X, y, **kw)
    if case['refit']:
        # same object, other data
        if 'stratify' in kw:
            kw = dict(stratify=kw['stratify'][::-1])
        m.fit(X[::-1] * 1.5, y[::-1], **kw)
    return uoi.attrs(m)


def run(case, rec):
    from harness import uoi
    from harness.mpisim import World, SimError
    if skip_constant(case):
        # one class is no classification problem
        rec.count('skipped')
        return
    P = gen.full(case['model'])
    with uoi.quiet():
        want = fit(case)
    B = P['n_boots_sel']
    size = case['size']
    if case.get('real'):
        outs = real(case, rec)
        if outs is None:
            return
    else:
        w = World(size, case['data']['seed'], case['delay'],
                  slow=[case['data']['seed'] % size])
        try:
            with uoi.quiet():
                outs = w.run(lambda comm: fit(case, comm))
        except SimError as e:
            rec.fail(e.mech, str(e), size=size)
            return
        rec.count('collectives', sum(len(l) for l in w.log))
        rec.count('arrival_orders', len(w.orders))
    rec.count('ranks', size)
    warm = P.get('warm_start', True) or P.get('solver') == 'pyc'
    exact = not (warm and size > B)
    nreg = len(want.get('reg_params_', ()))
    rec.count('exact', exact)
    rec.count('more_ranks_than_boots', size > B)
    rec.count('more_ranks_than_tasks', size > B * nreg > 0)
    # all ranks hold the same
    for r in range(1, size):
        bad = uoi.same_attrs(outs[0], outs[r])
        rec.check(not bad, 'ranks-differ', 'rank %d of %d: %s' % (
            r, size, bad))
    got = outs[0]
    for k in want:
        rec.check(k in got and (got[k].shape == want[k].shape or not exact)
                  and got[k].ndim == want[k].ndim and
                  got[k].dtype.kind == want[k].dtype.kind, 'shape',
                  '%s: %s %s instead of %s %s' % (
                      k, got[k].shape if k in got else None,
                      got[k].dtype if k in got else None, want[k].shape,
                      want[k].dtype))
    if exact:
        bad = uoi.same_attrs(want, got, rtol=1e-10, atol=1e-12)
        rec.check(not bad, 'serial', '%d ranks: %s' % (size, bad),
                  want=want['coef_'], got=got.get('coef_'))
    else:
        compare_loose(case, rec, want, got)
    if size > 1 and np.any(want['coef_']) and 'supports_' in want:
        rec.seen(case['model']['kind'], size, B, nreg, exact,
                 case['seedform'], case['refit'], bool(case.get('real')))
    rec.sample = dict(size=size, coef=want['coef_'],
                      supports=want.get('supports_'))


def compare_loose(case, rec, want, got):
    """Cold instead of warm starts: the same up to solver tolerance."""
    if 'supports_' not in want:
        bad = uoi_same(want, got)
        rec.check(not bad, 'serial', 'constant response: %s' % bad)
        return
    a, b = want['supports_'], got['supports_']
    if a.shape != b.shape or not np.array_equal(a, b):
        rec.count('borderline')
        s1, s2 = {tuple(s) for s in a}, {tuple(s) for s in b}
        only = s1 ^ s2
        far = max([min(sum(x != z for x, z in zip(u, v))
                       for v in (s2 if u in s1 else s1)) for u in only] or
                  [0])
        rec.check(far <= max(2, a.shape[1] // 3), 'serial-supports',
                  'supports are far from the serial ones', want=a, got=b)
        return
    e = np.abs(want['estimates_'] - got['estimates_']).max()
    rec.check(e <= 1e-6 * (1 + np.abs(want['estimates_']).max()),
              'serial-estimates', 'estimates differ by %g' % e)
    bad = uoi_same(want, got)
    rec.check(not bad, 'serial', 'more ranks than bootstraps: %s' % bad)


def uoi_same(a, b):
    from harness import uoi
    return uoi.same_attrs(a, b, rtol=1e-6, atol=1e-8)


REAL = '''
import json, sys, time
sys.path.insert(0, '.')
from harness import boot
boot.install()
import warnings
warnings.simplefilter('ignore')
from mpi4py import MPI
import numpy as np
from checks import c10
case = json.loads(sys.argv[1])
comm = MPI.COMM_WORLD
time.sleep(np.random.RandomState(comm.rank).rand() * .3)
out = c10.fit(case, comm)
with open('%s/%d' % (sys.argv[2], comm.rank), 'w') as f:
    json.dump(dict(rank=comm.rank, out={
        k: [str(v.dtype), list(v.shape), v.tobytes().hex()]
        for k, v in out.items()}), f)
'''


def real(case, rec):
    from checks import c11
    if not c11.real_mpi(rec):
        return None
    rc, outs, err = c11.mpiexec(case['size'], REAL, json.dumps(case))
    if rc in (124, 137):
        # the simulated ranks decide about deadlocks
        rec.count('real_mpi_timeouts')
        return None
    if rc or len(outs) != case['size']:
        rec.fail('real-mpi', 'rc %s, %d of %d ranks: %s' % (
            rc, len(outs), case['size'], err))
        return None
    outs.sort(key=lambda o: o['rank'])
    rec.count('real_mpi_ranks', len(outs))
    return [{k: np.frombuffer(bytes.fromhex(h), dtype=np.dtype(d)).reshape(s)
             for k, (d, s, h) in o['out'].items()} for o in outs]
