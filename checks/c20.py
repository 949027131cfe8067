import numpy as np

from harness import gen

PROPERTY = 'C20'
RULE = ('Draw cases call the column selection thousands of times and compare '
        'how often each column, and each pair of columns, is drawn with '
        'min(1, c x leverage / k) computed here; fit cases repeat plain and '
        'bootstrapped fits over many seeds while a monitor records the rows '
        'given to every singular value decomposition, so that the '
        'probability of every column being kept (drawn in at least the '
        'threshold number of bootstraps at one rank) is known for the rows '
        'actually drawn. Exact cases use data whose leverages are zero or '
        'large, where the kept columns are determined by the rows alone. '
        'Order, components, transformed data, sizes of the resamples, '
        'defaults and rejected settings are checked directly. Non-trivial: '
        'probabilities strictly inside (0, 1), or an exact case in which '
        'bootstraps disagree.')
ASSUMPTIONS = ['Frequencies alarm only beyond a Bernstein bound of '
               'probability 1e-9 per comparison.',
               'The decomposition is computed by scikit-learn\'s '
               'TruncatedSVD; without such calls only full resamples are '
               'judged.']
REQUIRED = {'draws': 40000, 'fits': 6500, 'exact_fits': 30,
            'exact_disagreements': 25, 'frequencies': 230, 'pairs': 450,
            'rejections': 330, 'svd_rows': 300000, 'distinct_resamples': 4000, 'transforms': 6500}


def cases(tier, seed):
    t = 1 if tier == 'quick' else 10
    out = []

    def add(i, **k):
        out.append(dict(name='c20-%s%d' % (k['kind'], i),
                        seed=int(np.random.RandomState(
                            [seed, i, len(k['kind']), 20]).randint(1 << 30)),
                        **k))
    for i in range(24 * t):
        add(i, kind='draw')
    for i in range(24 * t):
        add(i, kind='cur')
    for i in range(40 * t):
        add(i, kind='ucur')
    for i in range(120 * t):
        add(i, kind='exact')
    for i in range(20 * t):
        add(i, kind='reject')
    for i in range(4 * t):
        add(i, kind='many')
        add(i, kind='wide')
    return out


def improbable(S, mu, var):
    """Bernstein: is a sum this far from its mean beyond 1e-9?"""
    d = abs(S - mu)
    return d > 1e-6 and 2 * np.exp(-d ** 2 / (2 * (var + d / 3.))) < 1e-9


def frequencies(rec, hits, P, what):
    """hits, P: (repetitions, columns) outcomes and probabilities."""
    hits = np.asarray(hits, dtype=float)
    P = np.asarray(P, dtype=float)
    for j in range(P.shape[1]):
        rec.count('frequencies')
        S, mu = hits[:, j].sum(), P[:, j].sum()
        var = (P[:, j] * (1 - P[:, j])).sum()
        rec.check(not improbable(S, mu, var), 'frequency',
                  '%s: column %d kept %d times in %d, expected %.2f' % (
                      what, j, S, len(P), mu))
    pairs = 0
    for j in range(P.shape[1]):
        for l in range(j):
            q = P[:, j] * P[:, l]
            var = (q * (1 - q)).sum()
            if var < 1:
                continue
            pairs += 1
            S = (hits[:, j] * hits[:, l]).sum()
            rec.check(not improbable(S, q.sum(), var), 'independence',
                      '%s: columns %d and %d kept together %d times in %d, '
                      'expected %.2f' % (what, j, l, S, len(P), q.sum()))
    rec.count('pairs', pairs)
    # all columns together: too many or too few overall
    S, mu, var = hits.sum(), P.sum(), (P * (1 - P)).sum()
    rec.check(not improbable(S, mu, var), 'total',
              '%s: %d columns kept in all, expected %.2f' % (what, S, mu))
    return np.sum((P > .02) & (P < .98))


def matrix(rng, n, p):
    """Singular values well apart, columns of unequal leverage."""
    U = np.linalg.qr(rng.randn(n, p))[0]
    V = np.linalg.qr(rng.randn(p, p) * np.exp(rng.randn(p))[:, None])[0]
    s = 3. ** -np.arange(p) * 10
    return (U * s).dot(V.T)


def leverage(X, k):
    V = np.linalg.svd(X, full_matrices=False)[2][:k]
    return (V ** 2).sum(axis=0) / k


def at_least(P, t):
    """Probability of at least t successes, P: (trials, columns)."""
    dist = np.zeros((len(P) + 1, P.shape[1]))
    dist[0] = 1
    for r in P:
        dist[1:] = dist[1:] * (1 - r) + dist[:-1] * r
        dist[0] *= 1 - r
    return dist[t:].sum(axis=0)


class Rows:
    """Records the matrices given to TruncatedSVD."""

    def __enter__(self):
        from sklearn.decomposition import TruncatedSVD
        self.seen = []
        self.cls = TruncatedSVD
        self.orig = TruncatedSVD.__dict__
        self.fit, self.ft = TruncatedSVD.fit, TruncatedSVD.fit_transform
        me = self
        depth = [0]

        def wrap(f):
            def g(s, X, *a, **k):
                if not depth[0]:
                    me.seen.append(np.array(X, dtype=float, copy=True))
                depth[0] += 1
                try:
                    return f(s, X, *a, **k)
                finally:
                    depth[0] -= 1
            return g
        TruncatedSVD.fit = wrap(self.fit)
        TruncatedSVD.fit_transform = wrap(self.ft)
        return self

    def __exit__(self, *a):
        self.cls.fit, self.cls.fit_transform = self.fit, self.ft


def draw(case, rec):
    from pyuoi.decomposition.utils import column_select
    rng = np.random.RandomState(case['seed'])
    p, k = int(rng.randint(2, 13)), int(rng.randint(1, 4))
    k = min(k, p)
    V = np.linalg.qr(rng.randn(p, p) * np.exp(
        rng.uniform(0, 2) * rng.randn(p))[:, None])[0][:, :k]
    if rng.rand() < .3:
        V[rng.randint(p)] = 0.
    c = float(rng.choice([.3, 1., 2., 5., p, 40.]))
    if rng.rand() < .3:
        c = int(np.ceil(c))
    pi = (V ** 2).sum(axis=1) / k
    P = np.minimum(1, c * pi)
    sort = bool(rng.rand() < .5)
    N = 3000
    shared = np.random.RandomState(case['seed'] + 1)
    byseed = rng.rand() < .4
    hits = np.zeros((N, p))
    V0 = V.copy()
    for r in range(N):
        rs = int(case['seed'] % 100000 + r) if byseed else shared
        i = np.asarray(column_select(V, c=c, leverage_sort=sort,
                                     random_state=rs))
        ok = (i.ndim == 1 and len(np.unique(i)) == len(i) and
              (len(i) == 0 or (i.min() >= 0 and i.max() < p)))
        if not rec.check(ok, 'indices', 'indices %s of %d' % (i, p)):
            return
        o = pi[i] if sort else i
        rec.check(np.all(np.diff(o) >= -1e-12), 'order', 'indices %s' % i,
                  leverage=pi)
        hits[r, i] = 1
    rec.count('draws', N)
    rec.check(np.array_equal(V, V0), 'input', 'the vectors were changed')
    rec.check(np.all(hits[:, P == 0] == 0) and np.all(hits[:, P >= 1] == 1),
              'certain', 'a certain or impossible column was missed or '
              'drawn', P=P)
    inner = frequencies(rec, hits, np.tile(P, (N, 1)), 'draws')
    if inner:
        rec.seen('draw', p, k, c, sort, byseed)
    rec.sample = dict(P=P, freq=hits.mean(axis=0))


def cur(case, rec):
    from pyuoi.decomposition import CUR
    rng = np.random.RandomState(case['seed'])
    p, n = int(rng.randint(3, 9)), int(rng.randint(12, 40))
    X = matrix(rng, n, p)
    k = int(rng.randint(1, p))
    c = float(rng.choice([1., 2., 4.])) if rng.rand() < .8 else None
    pi = leverage(X, k)
    P = np.minimum(1, (k + 20 if c is None else c) * pi)
    alg = gen.pick(rng, 'arpack', 'randomized')
    N = 800
    hits = np.zeros((N, p))
    Xn = rng.randn(5, p)
    for r in range(N):
        m = CUR(max_k=k, algorithm=alg, n_iter=20,
                random_state=int(rng.randint(1 << 30)))
        if r % 5:
            m.fit(X, c=c)
        else:
            T = m.fit_transform(X, c=c)
            rec.check(np.array_equal(T, X[:, m.column_indices_]),
                      'transform', 'fit_transform is not the columns')
        i = m.column_indices_
        hits[r, i] = 1
        basics(rec, m, X, Xn, p)
        rec.check(np.all(np.diff(pi[i]) >= -1e-6), 'order',
                  'columns %s are not by increasing leverage' % i,
                  leverage=pi)
    rec.count('fits', N)
    if frequencies(rec, hits, np.tile(P, (N, 1)), 'CUR'):
        rec.seen('cur', p, k, c, alg)
    rec.sample = dict(P=P, freq=hits.mean(axis=0))


def basics(rec, m, X, Xn, p):
    i = np.asarray(m.column_indices_)
    ok = (i.ndim == 1 and len(np.unique(i)) == len(i) and
          (len(i) == 0 or (i.min() >= 0 and i.max() < p)))
    rec.check(ok, 'indices', 'indices %s' % i)
    if len(i):
        rec.check(np.array_equal(m.components_, X[:, i]), 'components',
                  'components are not the columns')
    else:
        rec.check(np.size(m.components_) == 0, 'components',
                  'components without columns')
    T = m.transform(Xn)
    rec.count('transforms')
    rec.check(np.array_equal(T, Xn[:, i]), 'transform',
              'transformed data are not the columns')


def setting(rng, p, B):
    """ks, cs arguments and the ranks and counts they denote."""
    mk = int(rng.randint(1, p))
    f = rng.randint(4)
    if f == 0:
        ks, kk = None, list(range(1, mk + 1))
    elif f == 1:
        ks = int(rng.randint(1, mk + 1))
        kk = [ks]
    else:
        kk = [int(q) for q in rng.permutation(mk)[:rng.randint(1, 4)] + 1]
        ks = kk if f == 2 else np.array(kk)
    f = rng.randint(5)
    if f == 0:
        cs, cc = None, [k + 20 for k in kk]
    elif f == 1:
        cs = float(rng.uniform(.5, 5))
        cc = [cs] * len(kk)
    elif f == 2:
        cs = int(rng.randint(1, 6))
        cc = [cs] * len(kk)
    else:
        cc = [round(float(v), 2) for v in rng.uniform(.5, 6., len(kk))]
        cs = cc if f == 3 else np.array(cc)
    return mk, ks, kk, cs, cc


def thresh(rng, B):
    if rng.rand() < .5:
        t = int(rng.randint(1, B + 1))
        return t, t
    t = int(rng.randint(1, B + 1))
    if t == B:
        return 1., B
    return float((t + rng.uniform(.2, .6)) / B), t


def check_rows(rec, seen, X, B, frac, stratify, index):
    """Every resample: distinct rows of X, as many as asked for."""
    n = len(X)
    if not seen:
        return None
    if not rec.check(len(seen) == B, 'bootstraps', '%d decompositions for '
                     '%d bootstraps' % (len(seen), B)):
        return None
    for A in seen:
        rec.count('svd_rows', len(A))
        rows = [index.get(r.tobytes()) for r in A]
        if not rec.check(None not in rows and len(set(rows)) == len(rows),
                         'rows', 'a resample is not made of distinct rows'):
            return None
        if frac == 1:
            rec.check(len(rows) == n, 'fraction', '%d rows of %d' % (
                len(rows), n))
            continue
        rec.check(abs(len(rows) - frac * n) <= 1 + 1e-9, 'fraction',
                  '%d rows of %d at fraction %g' % (len(rows), n, frac))
        if stratify is not None:
            for g in np.unique(stratify):
                a = np.sum(stratify[rows] == g)
                e = np.sum(stratify == g) * len(rows) / float(n)
                rec.check(abs(a - e) <= 1 + 1e-9, 'stratify',
                          '%d rows of group %s, expected %.1f' % (a, g, e))
    if frac < 1 and B > 2 and n > 15:
        rec.check(len({A.tobytes() for A in seen}) > 1, 'resample',
                  'all bootstraps drew the same rows')
    return seen


def ucur(case, rec):
    from pyuoi.decomposition import UoI_CUR
    rng = np.random.RandomState(case['seed'])
    p, n = int(rng.randint(3, 8)), int(rng.randint(24, 50))
    X = matrix(rng, n, p) * np.exp(.3 * rng.randn(n, 1))
    index = {r.tobytes(): i for i, r in enumerate(X)}
    B = int(rng.randint(1, 7))
    mk, ks, kk, cs, cc = setting(rng, p, B)
    ss, t = thresh(rng, B)
    frac = gen.pick(rng, 1, 1., .5, .7, .9)
    strat = rng.randint(1, 3, n) if rng.rand() < .4 and frac != 1 else None
    alg = gen.pick(rng, 'arpack', 'randomized')
    if alg == 'arpack' and mk >= p:
        alg = 'randomized'
    N = 500
    hits, Ps = np.zeros((N, p)), np.zeros((N, p))
    Xn = rng.randn(5, p)
    done = []
    for r in range(N):
        m = UoI_CUR(n_boots=B, max_k=mk, boots_frac=frac,
                    stability_selection=ss, algorithm=alg, n_iter=20,
                    random_state=int(rng.randint(1 << 30)))
        with Rows() as rows:
            m.fit(X, ks=ks, cs=cs, stratify=strat)
        rec.count('fits')
        basics(rec, m, X, Xn, p)
        i = m.column_indices_
        rec.check(np.all(np.diff(i) > 0), 'order', 'columns %s' % i)
        seen = check_rows(rec, rows.seen, X, B, frac, strat, index)
        if seen is None:
            if frac != 1 or rows.seen:
                continue
            seen = [X] * B
        keep = np.ones(p)
        for k, c in zip(kk, cc):
            P = np.array([np.minimum(1, c * leverage(A, k)) for A in seen])
            keep *= 1 - at_least(P, t)
        hits[r, i] = 1
        Ps[r] = 1 - keep
        done.append(r)
    if done and frequencies(rec, hits[done], np.clip(Ps[done], 0, 1),
                            'UoI_CUR'):
        rec.seen('ucur', p, B, t, str(ks), str(cs), frac, strat is None)
    rec.sample = dict(P=Ps.mean(axis=0), freq=hits.mean(axis=0), ks=kk,
                      cs=cc, threshold=t, boots=B)


def exact(case, rec):
    """Columns with disjoint rows: the k of most energy have leverage 1."""
    from pyuoi.decomposition import UoI_CUR
    rng = np.random.RandomState(case['seed'])
    p = int(rng.randint(3, 8))
    many = rng.rand() < .3
    if many:
        p = int(rng.randint(12, 20))
    per = int(rng.randint(4, 9))
    n = p * per
    X = np.zeros((n, p))
    for j in range(p):
        X[j * per:(j + 1) * per, j] = np.exp(.7 * rng.randn(per))
    X = X[rng.permutation(n)]
    index = {r.tobytes(): i for i, r in enumerate(X)}
    B = int(rng.randint(2, 8))
    ss, t = thresh(rng, B)
    mk = int(rng.randint(1, p))
    kk = sorted(set(int(q) for q in rng.randint(1, mk + 1, 2)))
    if many:
        # ranks beyond ten, and more than a few of them
        mk = p - 1
        kk = [int(rng.randint(10, p))] if rng.rand() < .5 else \
            list(range(1, mk + 1))
    frac = gen.pick(rng, .4, .6, .8, .95, .98)
    m = UoI_CUR(n_boots=B, max_k=mk, boots_frac=frac,
                stability_selection=ss, algorithm='arpack',
                random_state=int(rng.randint(1 << 30)))
    with Rows() as rows:
        m.fit(X, ks=list(kk), cs=1e4)
    rec.count('fits')
    basics(rec, m, X, rng.randn(4, p), p)
    seen = check_rows(rec, rows.seen, X, B, frac, None, index)
    if seen is None:
        return
    must, may = set(), set()
    split = False
    for k in kk:
        lo, hi = np.zeros(p), np.zeros(p)
        for A in seen:
            e = (A ** 2).sum(axis=0)
            s = np.sort(e)[::-1]
            gap = s[k - 1] > 1.02 * s[k] if k < p else True
            top = e >= s[k - 1]
            if gap and s[k - 1] > 0:
                lo += top
                hi += top
            else:
                hi += 1
        must |= set(np.flatnonzero(lo >= t))
        may |= set(np.flatnonzero(hi >= t))
        split = split or np.any((lo > 0) & (lo < B))
    got = set(int(j) for j in m.column_indices_)
    rec.count('exact_fits')
    if split:
        rec.count('exact_disagreements')
        rec.seen('exact', p, B, t, tuple(kk), frac)
    rec.check(must <= got <= may, 'union', 'kept %s, at least %s and at most '
              '%s reach %d of %d' % (sorted(got), sorted(must), sorted(may),
                                     t, B))
    rec.sample = dict(kept=sorted(got), threshold=t, boots=B, ks=kk)


def many(case, rec):
    """A thousand bootstraps: none repeats the rows of another."""
    from pyuoi.decomposition import UoI_CUR
    rng = np.random.RandomState(case['seed'])
    n, p = int(rng.randint(50, 80)), int(rng.randint(3, 6))
    X = matrix(rng, n, p) * np.exp(.3 * rng.randn(n, 1))
    index = {r.tobytes(): i for i, r in enumerate(X)}
    B = 1000
    m = UoI_CUR(n_boots=B, max_k=1, boots_frac=.5, stability_selection=.5,
                algorithm='arpack',
                random_state=int(rng.randint(1 << 30)))
    with Rows() as rows:
        m.fit(X, cs=2.)
    rec.count('fits')
    basics(rec, m, X, rng.randn(4, p), p)
    seen = check_rows(rec, rows.seen, X, B, .5, None, index)
    if seen is None:
        return
    sets = {tuple(sorted(index[r.tobytes()] for r in A)) for A in seen}
    rec.count('distinct_resamples', len(sets))
    rec.check(len(sets) == B, 'repeats', '%d bootstraps drew only %d '
              'different sets of rows' % (B, len(sets)))
    # which columns are kept, for the rows drawn
    P = np.array([np.minimum(1, 2. * leverage(A, 1)) for A in seen])
    tail = at_least(P, B // 2)
    i = np.zeros(p, dtype=bool)
    i[m.column_indices_] = True
    rec.check(np.all(i[tail > 1 - 1e-10]) and not np.any(i[tail < 1e-10]),
              'union', 'kept %s, probabilities %s' % (np.flatnonzero(i),
                                                      tail))
    rec.seen('many', n, p)


def wide(case, rec):
    """Many columns, each of small leverage."""
    from pyuoi.decomposition import CUR
    from pyuoi.decomposition.utils import column_select
    rng = np.random.RandomState(case['seed'])
    p, n, k = int(rng.randint(100, 250)), int(rng.randint(60, 90)), 3
    U = np.linalg.qr(rng.randn(n, 6))[0]
    V = np.linalg.qr(rng.randn(p, 6) * np.exp(.4 * rng.randn(p, 1)))[0]
    X = (U * 4. ** -np.arange(6)).dot(V.T)
    pi = leverage(X, k)
    c = float(rng.choice([5., 20., 60.]))
    P = np.minimum(1, c * pi)
    N = 150
    hits = np.zeros((N, p))
    for r in range(N):
        m = CUR(max_k=k, algorithm='arpack',
                random_state=int(rng.randint(1 << 30)))
        m.fit(X, c=c)
        i = m.column_indices_
        hits[r, i] = 1
        basics(rec, m, X, X[:2], p)
        rec.check(np.all(np.diff(pi[i]) >= -1e-9), 'order',
                  'columns are not by increasing leverage', leverage=pi[i])
    rec.count('fits', N)
    frequencies(rec, hits, np.tile(P, (N, 1)), 'CUR')
    N = 600
    hits = np.zeros((N, p))
    pv = (V[:, :k] ** 2).sum(axis=1) / k
    P = np.minimum(1, c * pv)
    rs = np.random.RandomState(case['seed'] + 1)
    for r in range(N):
        i = np.asarray(column_select(V[:, :k], c=c, leverage_sort=True,
                                     random_state=rs))
        rec.check(np.all(np.diff(pv[i]) >= -1e-12), 'order',
                  'columns are not by increasing leverage', leverage=pv[i])
        hits[r, i] = 1
    rec.count('draws', N)
    frequencies(rec, hits, np.tile(P, (N, 1)), 'draws')
    rec.seen('wide', n, p, c)


def reject(case, rec):
    from pyuoi.decomposition import UoI_CUR
    rng = np.random.RandomState(case['seed'])
    X = rng.rand(20, 6)
    mk, B = int(rng.randint(2, 6)), int(rng.randint(2, 9))
    base = dict(n_boots=B, max_k=mk, boots_frac=.8, stability_selection=1.)
    bad_ks = [0, -1, mk + 1, [1, mk + 1], [0, 1], [1.5], 1.5, 'a', (1, 2),
              np.array([1., 2.]), np.array([-1, 1]), {1: 2}]
    bad_cs = [0, -2., [1., -1.], [1., 0.], [1.], [1., 2., 3.],
              [1., np.nan], 'a', (1, 2), np.array([1.]),
              np.array(['a', 'b']), {1: 2}]
    bad_ss = [0, -1, B + 1, 1.2, 0., -.5, [1], 'a', None, .5 / B]
    trials = [(dict(ks=k), {}) for k in bad_ks] + \
        [(dict(ks=[1, 2], cs=c), {}) for c in bad_cs] + \
        [({}, dict(stability_selection=s)) for s in bad_ss]
    for kw, over in trials:
        m = UoI_CUR(**dict(base, **over))
        try:
            m.fit(X, **kw)
            err = None
        except Exception as e:
            err = e
        rec.count('rejections')
        rec.check(isinstance(err, (ValueError, TypeError)), 'reject',
                  '%s %s gave %r' % (kw, over, err))
        rec.check(not hasattr(m, 'column_indices_'), 'reject',
                  'a rejected fit left columns')
    rec.seen('reject', mk, B)


def run(case, rec):
    globals()[case['kind']](case, rec)
