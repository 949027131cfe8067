import hashlib
import json
import os
import random
import subprocess

import numpy as np

from harness.ops import MODELS, OPS, make_case, perform

PROPERTY = 'C12'
RULE = ('Each case performs one seeded operation (a fit of any model, a '
        'column selection, a data set) repeatedly: with the seed as Python '
        'and as NumPy integer, with equally seeded generators, after other '
        'objects were fitted, under different global random states and in '
        'another process; and compares the results bitwise. The global '
        'states of numpy.random and random are compared before and after. '
        'Non-trivial: the operation drew random numbers that mattered (a '
        'different seed gives different draws).')
ASSUMPTIONS = ['Different seeds are expected to differ in at least one of '
               'several resamples of at least 45 rows.']
REQUIRED = {'bitwise_pairs': 150, 'global_state_checks': 350,
            'other_process': 40, 'seeds_differ': 50, 'draws_differ': 45}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for op in OPS:
        for i in range((12 if op in MODELS else 8) * k):
            rng = np.random.RandomState([seed, i, 12, sum(map(ord, op))])
            c = make_case(rng, op)
            c['name'] = 'c12%s%d' % (op, i)
            out.append(c)
    for op in OPS:
        for i in range(k):
            out.append(dict(op='many', of=op, seeds=[seed, i, 14],
                            name='c12many%s%d' % (op, i)))
    for i in range(6 * k):
        rng = np.random.RandomState([seed, i, 13])
        sub = [make_case(rng, op) for op in OPS]
        out.append(dict(op='xproc', sub=sub, hashseed=int(rng.randint(1000)),
                        order=[int(v) for v in rng.permutation(len(sub))],
                        name='c12xproc%d' % i))
    return out


def global_state():
    s = np.random.get_state()
    return (hashlib.sha1(s[1].tobytes()).hexdigest(),) + s[2:] + (
        hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),)


def digest(out):
    h = hashlib.sha1()
    for k in sorted(out):
        a = np.asarray(out[k])
        if a.dtype.kind == 'O':
            h.update(repr(a).encode())
        else:
            h.update(k.encode() + str(a.dtype).encode() +
                     repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()


def guarded(c, seed, salt, rec):
    """Perform under a given global state, which must survive."""
    np.random.seed(salt % (1 << 32))
    np.random.rand(salt % 7)
    if salt % 2:
        np.random.randn()       # leaves a cached normal
    random.seed(salt)
    before = global_state()
    out = perform(c, seed)
    rec.count('global_state_checks')
    rec.check(global_state() == before, 'global-state',
              '%s changed the global random state' % c['op'])
    return out


def run(case, rec):
    if case['op'] == 'xproc':
        return run_xproc(case, rec)
    if case['op'] == 'many':
        return run_many(case, rec)
    s = case['seed']
    salt = case['salt']
    first = guarded(case, s, salt, rec)

    def same(other, what):
        rec.count('bitwise_pairs')
        bad = [k for k in first if k not in other or
               first[k].shape != other[k].shape or
               first[k].dtype != other[k].dtype or
               first[k].tobytes() != other[k].tobytes()]
        rec.check(not bad, 'repeat', '%s, %s: %s differ' % (
            case['op'], what, bad))
    same(guarded(case, s, salt + 1, rec), 'other global state')
    # something else is done in between
    rng = np.random.RandomState(salt)
    other = make_case(rng, case['op'])
    try:
        perform(other, other['seed'])
    except Exception:
        rec.count('other_failed')
    ints = [np.int64, np.int32, np.uint32]
    if s < 128:
        ints += [np.int8, np.uint8]
    t = ints[rng.randint(len(ints))]
    same(guarded(case, t(s), salt + 3, rec), t.__name__)
    # equally seeded generators
    first = guarded(case, np.random.RandomState(s), salt + 4, rec)
    same(guarded(case, np.random.RandomState(s), salt + 7, rec),
         'equally seeded generators')
    # different seeds
    diff = guarded(case, s + 1, salt + 9, rec)
    rec.count('seeds_differ')
    base = guarded(case, s, salt + 9, rec)
    differ = base['_draws'].tobytes() != diff['_draws'].tobytes()
    rec.count('draws_differ', differ)
    if case['op'] in MODELS or case['op'].startswith('nmf') or \
            case['op'].startswith('d'):
        rec.check(differ, 'seeds-ignored', '%s: seeds %d and %d give the '
                  'same draws' % (case['op'], s, s + 1))
    if differ:
        rec.seen(case['op'], s, case['dseed'])
    rec.sample = dict(op=case['op'], digest=digest(first))


def tiny(op, s):
    """A small seeded operation and what it drew, as bytes."""
    from harness import uoi
    rng = np.random.RandomState(3)
    X = rng.randn(40, 3)
    k = dict(n_boots_sel=1, n_boots_est=1, selection_frac=.5,
             estimation_frac=.5, random_state=s)
    if op in MODELS:
        y = X.sum(axis=1) + rng.randn(40)
        if op == 'logit':
            y = (y > 0).astype(int)
            m = uoi.make(op, n_C=1, tol=1., estimation_score='log', **k)
        elif op == 'pois':
            y = np.round(np.exp(y / 2))
            m = uoi.make(op, n_lambdas=1, max_iter=3, **k)
        else:
            if op == 'pyc':
                k.update(solver='pyc', fit_intercept=True, standardize=True)
            m = uoi.make('lasso' if op == 'pyc' else op, n_lambdas=1, **k)
        with uoi.Trace() as tr:
            m.fit(X, y)
        return b''.join(e.X.sum(axis=0).tobytes() for e in tr.events
                        if e.role == 'sel')
    if op in ('nmf', 'nmfbase'):
        from pyuoi import decomposition as dec
        X = np.abs(X) + .1
        if op == 'nmf':
            m = dec.UoI_NMF(n_boots=1, ranks=[2], nmf_max_iter=2,
                            use_dissimilarity=False, db_min_samples=1,
                            random_state=s, logger=uoi.silent_logger())
        else:
            m = dec.UoI_NMF_Base(n_boots=1, ranks=[2],
                                 use_dissimilarity=False, random_state=s,
                                 logger=uoi.silent_logger())
        m.fit(X)
        return m.bootstraps_.tobytes()
    if op in ('cur', 'ucur', 'colsel'):
        from pyuoi.decomposition.utils import column_select
        V = np.linalg.qr(rng.randn(120, 2))[0]
        return np.asarray(column_select(V, 60., random_state=s)).tobytes()
    from pyuoi import datasets as ds
    f = dict(dlin=ds.make_linear_regression, dcls=ds.make_classification,
             dpois=ds.make_poisson_regression)[op]
    return np.asarray(f(n_samples=20, n_features=4, n_informative=2,
                        random_state=s)[0]).tobytes()


def run_many(case, rec):
    """Many different seeds all draw differently."""
    rng = np.random.RandomState(case['seeds'])
    seeds = [0, 1, 2] + [2 ** j for j in range(2, 31)]
    seeds += [int(v) for v in rng.randint(0, 2 ** 31, 330)]
    seeds += [int(seeds[-1]) ^ 2 ** j for j in range(30)]
    seeds = list(dict.fromkeys(seeds))
    got = {}
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for s in seeds:
            d = tiny(case['of'], s)
            rec.count('many_seeds')
            if d in got:
                rec.fail('seeds-collide', '%s: seeds %d and %d give the same '
                         'draws' % (case['of'], got[d], s))
                return
            got[d] = s
    rec.seen('many', case['of'], case['seeds'])


CHILD = '''
import json, sys, random
sys.path.insert(0, '.')
from harness import boot
boot.install()
import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
from checks import c12
case = json.load(sys.stdin)
np.random.seed(case['hashseed'])
out = {}
for i in case['order']:
    out[i] = c12.digest(c12.perform(case['sub'][i], case['sub'][i]['seed']))
json.dump(out, open(sys.argv[1], 'w'))
'''


def run_xproc(case, rec):
    import tempfile
    from harness import boot
    mine = [digest(perform(c, c['seed'])) for c in case['sub']]
    env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'out')
        r = subprocess.run([boot.PY, '-c', CHILD, f], cwd=boot.VERIF, env=env,
                           input=json.dumps(case).encode(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode:
            rec.fail('other-process', r.stderr.decode(errors='replace')[
                -1500:])
            return
        with open(f) as fh:
            out = json.load(fh)
    for i, c in enumerate(case['sub']):
        rec.count('other_process')
        rec.check(out[str(i)] == mine[i], 'other-process',
                  '%s differs in another process' % c['op'], case=c)
    rec.seen('xproc', case['hashseed'])
