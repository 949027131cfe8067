import numpy as np

from harness import gen

PROPERTY = 'C27'
RULE = ('Each case fits one model, records its attributes and its answers '
        'to a set of query rows (training rows, new rows, extreme rows, '
        'repeats), then overwrites everything fit was given, copies and '
        'pickles the model, asks again in other orders, subsets, single '
        'rows, memory layouts and types, writes into every array it got '
        'back, and refits the model and its copies on other data. Answers '
        'must agree row by row, attributes and earlier results must keep '
        'their bytes, and the copies must refit like the original. '
        'Non-trivial: answers that differ between the rows.')
ASSUMPTIONS = ['Answers computed in one call or in several may differ by '
               'rounding.',
               'Models holding objects that cannot be pickled (NMF, the '
               'pycasso wrapper) are only deep-copied.']
REQUIRED = {'rows': 50000, 'single_rows': 2500, 'overwritten': 250,
            'copies': 250, 'pickles': 200, 'refits': 480,
            'layouts': 1200, 'held_arrays': 1500, 'scribbles': 550}
KINDS = ('lasso', 'pyc', 'en', 'logit', 'pois', 'nmf', 'nmfbase', 'cur',
         'ucur', 'mlr', 'poisson', 'pycl')
NOPICKLE = ('pyc', 'pycl', 'nmf', 'nmfbase')


def cases(tier, seed):
    t = 1 if tier == 'quick' else 14
    out = []
    for kind in KINDS:
        for i in range((40 if kind in ('logit', 'pois', 'mlr', 'poisson')
                        else 24) * t):
            rng = np.random.RandomState([seed, i, 27, sum(map(ord, kind))])
            c = dict(kind=kind, seed=int(rng.randint(1 << 30)),
                     dseed=int(rng.randint(1 << 30)),
                     weak=bool(rng.rand() < .1),
                     warm=bool(rng.rand() < .3),
                     name='c27%s%d' % (kind, i))
            if kind in KINDS[:5]:
                m = gen.model_case(rng, 'lasso' if kind == 'pyc' else kind)
                if i % 8 == 5:
                    m = gen.large_case(rng, int(rng.randint(6)),
                                       'lasso' if kind == 'pyc' else kind)
                    m['model']['params'] = gen.full(m['model'])
                P = m['model']['params']
                P.pop('random_state')
                if kind == 'pyc':
                    P.update(solver='pyc', fit_intercept=True,
                             standardize=True)
                c['params'] = P
            out.append(c)
    return out


def make(c):
    from checks import c13
    if c['kind'] == 'pycl':
        from pyuoi.linear_model.lasso import PycLasso
        return PycLasso(alphas=np.array([.3, .1, .05]))
    m = c13.make(c['kind'], int(c['seed'] % 100000), c)
    if c['kind'] in ('mlr', 'poisson') and c['warm']:
        m.set_params(warm_start=True)
    return m


def fit_args(c, seed, like=None):
    """Arguments of fit; like: the data of an earlier fit, which a warm
    start continues from."""
    from checks import c13
    kind = c['kind']
    rng = np.random.RandomState(seed)
    args, kw = c13.data('lasso' if kind == 'pycl' else kind, seed,
                        c.get('params'), weak=c['weak'])
    if like is not None and c['warm'] and kind in ('mlr', 'poisson'):
        X, y = like
        n = len(y)
        i = np.concatenate([np.arange(n), rng.randint(n, size=n // 4)])
        args, kw = (X[i] + .1 * rng.randn(len(i), X.shape[1]), y[i]), {}
    n = args[0].shape[0]
    if kind in ('mlr', 'poisson') and rng.rand() < .5:
        kw['sample_weight'] = rng.uniform(.5, 2, n)
    if kind == 'mlr' and rng.rand() < .5:
        y = args[1]
        k = len(np.unique(y))
        mask = rng.rand(k if k > 2 else 1, args[0].shape[1]) < .7
        mask[0, 0] = True
        kw['coef_mask'] = mask if k > 2 else mask[0]
    if kind == 'ucur' and rng.rand() < .5:
        kw['stratify'] = rng.randint(1, 3, n)
    return args, kw


def queries(c, X, rng):
    from harness import uoi
    X = np.asarray(uoi.dense(X), dtype=float)
    n, p = X.shape
    new = X[rng.randint(n, size=8)] + X.std(axis=0) * rng.randn(8, p) * .5
    far = X[rng.randint(n, size=4)] * np.array([[20.], [-30.], [5.], [0.]])
    if c['kind'] in ('nmf', 'nmfbase'):
        new, far = np.abs(new), np.abs(far) * 1e3
        far = np.concatenate([far, 1e-9 * new])
    elif c['kind'] not in ('cur', 'ucur'):
        far = np.concatenate([far, new[:1] * 1e4, new[:1] * -1e4])
    Q = np.concatenate([X[rng.permutation(n)[:8]], new, far])
    return np.concatenate([Q, Q[rng.randint(len(Q), size=4)]])


def asks(m, kind):
    """name -> (function of the rows, how answers are compared)."""
    if kind in ('lasso', 'pyc', 'en', 'pycl'):
        return dict(predict=(m.predict, 'linear'))
    if kind in ('logit', 'mlr'):
        return dict(predict=(m.predict, 'label'),
                    predict_proba=(m.predict_proba, 'proba'),
                    decision_function=(m.decision_function, 'linear'),
                    predict_log_proba=(m.predict_log_proba, 'log'))
    if kind in ('pois', 'poisson'):
        return dict(predict_mean=(m.predict_mean, 'mean'),
                    predict=(m.predict, 'count'))
    if kind in ('cur', 'ucur'):
        return dict(transform=(m.transform, 'exact'))
    return dict(transform=(m.transform, 'bases'),
                quiet=(lambda Q: m.transform(Q, reconstruction_err=False),
                       'bases'),
                inverse=(lambda Q: m.inverse_transform(
                    Q[:, :len(m.components_)] if Q.shape[1] >= len(
                        m.components_) else np.tile(
                            Q, (1, 9))[:, :len(m.components_)]), 'linear'))


class Judge:
    def __init__(self, m, kind, Q):
        """Sizes rounding is measured against, from the model now."""
        self.kind = kind
        if kind in ('cur', 'ucur'):
            self.S = np.ones(len(Q))
        elif kind in ('nmf', 'nmfbase'):
            self.S = np.abs(Q).sum(axis=1)
            self.C = np.array(m.components_)
        else:
            w = np.abs(np.asarray(m.coef_, dtype=float))
            w = w.reshape(-1, Q.shape[1]).max(axis=0)
            self.S = np.abs(Q).dot(w) + np.max(np.abs(m.intercept_))
        self.P = self.mu = None
        if kind in ('logit', 'mlr'):
            self.P = np.array(m.predict_proba(Q))
        if kind in ('pois', 'poisson'):
            with np.errstate(all='ignore'):
                self.mu = np.array(m.predict_mean(Q))

    def agree(self, how, a, b, rows):
        """Do answers a and b for these rows agree?"""
        if np.shape(a) != np.shape(b):
            return False
        S = self.S[rows]
        col = (slice(None),) + (None,) * (np.ndim(a) - 1)
        if how in ('exact',):
            return np.array_equal(a, b)
        if how == 'label':
            T = np.sort(self.P[rows], axis=1)
            clear = T[:, -1] - T[:, -2] > 1e-6
            return np.array_equal(np.asarray(a)[clear],
                                  np.asarray(b)[clear])
        if how == 'count':
            mu = self.mu[rows]
            clear = np.abs(mu - np.round(mu)) > 1e-6 * (1 + mu)
            return np.array_equal(a[clear], b[clear])
        with np.errstate(all='ignore'):
            if how == 'bases':
                return np.all(np.abs((a - b).dot(self.C)) <=
                              1e-7 * S[col])
            d = np.abs(a - b)
            d[a == b] = 0.
            tol = 1e-10 * (1 + S[col])
            if how == 'mean':
                tol = tol * np.abs(a)
            if how == 'log':
                d[self.P[rows] < 1e-290] = 0.
                tol = tol + 1e-9 * np.abs(a)
            return bool(np.all(d <= tol))


def arrays(args, kw):
    import scipy.sparse as sps
    out = []
    for a in list(args) + list(kw.values()):
        if sps.issparse(a):
            out.append(a.data)
        elif isinstance(a, np.ndarray):
            out.append(a)
    return out


def overwrite(a):
    if a.dtype.kind == 'f':
        a[...] = np.nan
    elif a.dtype.kind == 'b':
        a[...] = ~a
    elif a.dtype.kind in 'US':
        a[...] = a[::-1].copy()
    else:
        a[...] = 77


def same(a, b):
    """Attribute dictionaries with equal bytes."""
    from harness import uoi
    return sorted(k for k in set(a) | set(b)
                  if k not in a or k not in b or
                  uoi.fingerprint(a[k]) != uoi.fingerprint(b[k]))


def held(m):
    """Attributes by reference, and their fingerprints."""
    from harness import uoi
    refs = {k: v for k, v in vars(m).items()
            if isinstance(v, (np.ndarray, list)) and k.endswith('_')}
    return refs, {k: uoi.fingerprint(v) for k, v in refs.items()}


def run(case, rec):
    import copy
    import pickle
    import scipy.sparse as sps
    from harness import uoi
    kind = case['kind']
    args, kw = fit_args(case, case['dseed'])
    keep = copy.deepcopy((args, kw))
    rng = np.random.RandomState(case['seed'])
    m = make(case)
    with uoi.quiet():
        m.fit(*args, **kw)
    Q = queries(case, args[0], rng)
    n = len(Q)
    before = copy.deepcopy(uoi.attrs(m))
    ask = asks(m, kind)
    with np.errstate(all='ignore'):
        whole = {q: np.array(f(Q)) for q, (f, _) in ask.items()}
    judge = Judge(m, kind, Q)
    skip = {'reconstruction_err_'}

    def clean(d):
        return {k: v for k, v in d.items() if k not in skip}
    before = clean(before)

    def compare(mod, mech, rows=None, Z=None):
        """The answers of mod for rows of Q, handed over as Z."""
        rows = np.arange(n) if rows is None else rows
        Z = Q[rows] if Z is None else Z
        for q, (f, how) in asks(mod, kind).items():
            if sps.issparse(Z) and q == 'inverse':
                continue
            with np.errstate(all='ignore'):
                got = f(Z)
            rec.count('rows', len(rows))
            got = np.asarray(got)
            rec.check(judge.agree(how, whole[q][rows], got, rows), mech,
                      '%s of %d rows differs' % (q, len(rows)),
                      got=got, want=whole[q][rows])

    rec.check(not same(before, clean(uoi.attrs(m))), 'asking',
              'asking changed %s' % same(before, clean(uoi.attrs(m))))
    # copies, made before the data are overwritten
    copies = [copy.deepcopy(m)]
    rec.count('copies')
    if kind not in NOPICKLE:
        for proto in (2, pickle.HIGHEST_PROTOCOL):
            copies.append(pickle.loads(pickle.dumps(m, proto)))
        rec.count('pickles', 2)
    for a in arrays(args, kw):
        overwrite(a)
    rec.count('overwritten')
    bad = same(before, clean(uoi.attrs(m)))
    rec.check(not bad, 'training-data', 'overwriting what fit was given '
              'changed %s' % bad)
    compare(m, 'training-data')
    for mod in copies:
        bad = same(before, clean(uoi.attrs(mod)))
        rec.check(not bad, 'copy', 'a copy has other %s' % bad)
        compare(mod, 'copy')
    # row by row
    compare(m, 'order', rng.permutation(n))
    compare(m, 'order', np.arange(n)[::-1])
    compare(m, 'subset', rng.permutation(n)[:rng.randint(2, n)])
    # many rows, which may be worked on in parts
    compare(m, 'many', rng.randint(n, size=int(rng.randint(250, 1400))))
    for k in (Q.shape[1], Q.shape[1] + 1):
        # as many rows as features
        i = rng.randint(n, size=k)
        compare(m, 'subset', i)
        compare(m, 'layout', i, np.asfortranarray(Q[i]))
        compare(m, 'layout', i, Q[i].tolist() if kind not in (
            'nmf', 'nmfbase') else Q[i])
    # one array, asked about before and after it changed
    Z = Q[:n // 2].copy()
    for rows in (np.arange(n // 2), np.arange(n - n // 2, n)):
        Z[:] = Q[rows]
        compare(m, 'reused', rows, Z)
    for i in range(n):
        compare(m, 'single', np.array([i]))
        rec.count('single_rows')
    # layouts and types
    big = np.full((2 * n, Q.shape[1] + 2), 5.)
    big[::2, 1:-1] = Q
    ro = Q.copy()
    ro.flags.writeable = False
    forms = dict(F=np.asfortranarray(Q), strided=big[::2, 1:-1], ro=ro,
                 back=Q[::-1, ::-1].copy()[::-1, ::-1])
    if kind in ('lasso', 'pyc', 'en', 'logit', 'mlr'):
        forms['csr'] = sps.csr_matrix(Q)
        forms['list'] = Q.tolist()
    for name, Z in forms.items():
        guard = uoi.Guard(Z=Z)
        compare(m, 'layout', None, Z)
        rec.count('layouts')
        rec.check(not guard.changed(), 'argument', 'the %s argument was '
                  'changed' % name)
    if kind not in ('nmf', 'nmfbase'):
        R = np.round(Q)
        for q, (f, how) in asks(m, kind).items():
            with np.errstate(all='ignore'):
                a, b = np.asarray(f(R)), np.asarray(f(R.astype(int)))
            j2 = Judge(m, kind, R)
            rec.check(j2.agree(how, a, b, np.arange(n)), 'integers',
                      '%s of integer rows differs' % q, got=b, want=a)
    # what was handed out belongs to the caller
    for q, (f, _) in ask.items():
        Z = Q.copy()
        with np.errstate(all='ignore'):
            a = f(Z)
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            overwrite(a)
            rec.count('scribbles')
            rec.check(np.array_equal(Z, Q), 'result', 'writing into the '
                      'result of %s changed its argument' % q)
    bad = same(before, clean(uoi.attrs(m)))
    rec.check(not bad, 'result', 'writing into results changed %s' % bad)
    compare(m, 'result')
    score(case, rec, m, keep, kind)
    # refits
    refs, digests = held(m)
    a2, k2 = fit_args(case, case['dseed'] + 1, keep[0])
    after = []
    for mod in copies + [m]:
        with uoi.quiet():
            mod.fit(*copy.deepcopy(a2), **copy.deepcopy(k2))
        rec.count('refits')
        after.append(clean(uoi.attrs(mod)))
        if mod is copies[0]:
            bad = same(before, clean(uoi.attrs(m)))
            rec.check(not bad, 'copy', 'refitting a copy changed %s of the '
                      'original' % bad)
            compare(m, 'copy')
    for d in after[:-1]:
        bad = same(d, after[-1])
        rec.check(not bad, 'copy-refit', 'a copy refitted to other %s' % bad)
    for q, v in refs.items():
        rec.count('held_arrays')
        rec.check(uoi.fingerprint(v) == digests[q], 'held', '%s held from '
                  'the earlier fit was changed by a refit' % q)
    if kind in ('nmf', 'nmfbase', 'cur'):
        fit_transform(case, rec, keep)
    if any(np.ptp(v.astype(float)[np.isfinite(v.astype(float))]) > 0
           for v in whole.values() if v.size and v.dtype.kind in 'fiu'):
        rec.seen(kind, case['weak'], case['warm'], sorted(kw),
                 np.shape(whole[sorted(whole)[0]]))
    rec.sample = dict(kind=kind, answers={q: v[:2] for q, v in
                                          whole.items()})


def score(case, rec, m, keep, kind):
    """score is that of the predictions."""
    if kind not in ('lasso', 'pyc', 'en', 'logit', 'mlr'):
        return
    X, y = keep[0]
    w = None
    pr = m.predict(X)
    for w in (None, np.linspace(.5, 2, len(y))):
        s = m.score(X, y) if w is None else m.score(X, y, sample_weight=w)
        v = np.ones(len(y)) if w is None else w
        if kind in ('logit', 'mlr'):
            want = np.average(pr == y, weights=v)
        else:
            r = np.average((y - pr) ** 2, weights=v)
            want = 1 - r / np.average((y - np.average(y, weights=v)) ** 2,
                                      weights=v)
        rec.count('scores')
        rec.check(abs(s - want) <= 1e-9 * max(1, abs(want)), 'score',
                  'score %r, the predictions give %r' % (s, want))


def fit_transform(case, rec, keep):
    from harness import uoi
    (X,), kw = keep
    if case['kind'] != 'cur':
        kw = {}
    a, b = make(case), make(case)
    with uoi.quiet():
        T = a.fit_transform(X, **kw)
        b.fit(X, **kw)
    rec.count('fit_transforms')
    rec.check(not same(uoi.attrs(a), dict(uoi.attrs(b))) or
              case['kind'] != 'cur', 'fit-transform',
              'fit_transform leaves other attributes than fit')
    want = b.transform(X)
    rec.check(np.array_equal(a.components_, b.components_) and
              np.allclose(T, want, rtol=1e-7, atol=1e-10), 'fit-transform',
              'fit_transform is not fit and transform')
    if hasattr(b, 'reconstruction_err_'):
        ea, eb = a.reconstruction_err_, b.reconstruction_err_
        rec.check(ea is not None and abs(ea - eb) <= 1e-7 * np.linalg.norm(X),
                  'fit-transform', 'fit_transform reports the error %r, fit '
                  'and transform %r' % (ea, eb))
