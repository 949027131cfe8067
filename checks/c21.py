import numpy as np

from harness import gen

PROPERTY = 'C21'
RULE = ('Each case fits one of the NMF models with recording components: '
        'every factorization (rows given, rank, bases returned), every '
        'clustering call (bases given, labels returned), every consensus '
        'and regression call is logged, whether the component is the '
        "default one, another scikit-learn object or the user's own class. "
        'From the log the resamples, the best rank, the pooled normalized '
        'bases, the consensus and the transformed data are recomputed, and '
        'coefficients are judged by the optimality conditions of '
        'nonnegative least squares. Non-trivial: at least two clusters or '
        'ranks, or removed zero bases or noise.')
ASSUMPTIONS = ['Clusterings without any cluster are outside the domain.',
               'Ranks whose average dissimilarities differ by less than '
               '1e-9 may be exchanged.']
REQUIRED = {'fits': 200, 'factorizations': 2200, 'bases': 3300,
            'components': 360, 'nnls_rows': 4500, 'best_ranks': 130,
            'pooled': 60, 'zero_bases': 70, 'noise': 80,
            'consensus_calls': 220, 'regressor_calls': 3000,
            'rejections': 750, 'draws': 28000, 'settings': 300,
            'default_clusters': 50}


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for i in range(400 * t):
        rng = np.random.RandomState([seed, i, 21])
        diss = bool(rng.rand() < .65)
        n, p = int(rng.randint(18, 50)), int(rng.randint(4, 10))
        nmf = gen.pick(rng, 'default', 'default', 'sk-cd', 'own', 'own',
                       'own0')
        out.append(dict(
            name='c21-%d' % i, seed=int(rng.randint(1 << 30)), n=n, p=p,
            k=int(rng.randint(2, 4)), diss=diss, nmf=nmf,
            boots=int(rng.randint(2 if diss else 1, 8)),
            ranks=gen.pick(rng, 'int', 'list', 'tuple', 'range', 'array',
                           'none' if nmf.startswith('own') else 'list',
                           'single', 'unsorted'),
            cluster=gen.pick(rng, 'default', 'default', 'agglo', 'kmeans',
                             'own', 'odd', 'eps'),
            nnreg=gen.pick(rng, None, None, None, 'function', 'estimator'),
            cons=gen.pick(rng, None, None, 'median', 'max', 'own'),
            cls=gen.pick(rng, 'UoI_NMF', 'UoI_NMF', 'UoI_NMF_Base'),
            units=float(gen.pick(rng, 1., 1., 1., 1e-5, 1e6)),
            dtype=gen.pick(rng, 'float', 'float', 'float32', 'int', 'F'),
            verbose=bool(rng.rand() < .2)))
        if nmf.startswith('own') and rng.rand() < .4:
            # sizes which real factorizations would be slow for
            size = gen.pick(rng, 'rows', 'columns', 'bootstraps')
            if size == 'rows':
                out[-1]['n'] = int(rng.randint(100, 260))
            elif size == 'columns':
                out[-1].update(p=int(rng.randint(16, 26)),
                               n=int(rng.randint(8, 15)))
            else:
                out[-1]['boots'] = int(rng.randint(11, 25))
            if rng.rand() < .5:
                out[-1]['cluster'] = 'many'
    return out


class Log:
    def __init__(self):
        self.nmf, self.cl, self.cons, self.reg = [], [], [], []
        self.params, self.asked, self.db = [], {}, None


class Hooks:
    """Records the scikit-learn components the model may use by default."""

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        from sklearn.decomposition import NMF
        from sklearn import cluster
        log = self.log
        self.undo = []

        def wrap(cls, name, after):
            orig = getattr(cls, name)
            own = cls.__dict__.get(name)
            depth = [0]

            def f(s, X, *a, **k):
                Y = np.array(X, dtype=float, copy=True)
                depth[0] += 1
                try:
                    r = orig(s, X, *a, **k)
                finally:
                    depth[0] -= 1
                if not depth[0]:
                    after(s, Y)
                return r
            setattr(cls, name, f)
            self.undo.append((cls, name, own))
        wrap(NMF, 'fit_transform', lambda s, X: log.nmf.append(
            (X, s.n_components, np.array(s.components_, copy=True))) or
             log.params.append(s.get_params()))
        for c in (cluster.DBSCAN, cluster.AgglomerativeClustering,
                  cluster.KMeans):
            wrap(c, 'fit', lambda s, X: log.cl.append(
                (X, np.array(s.labels_, copy=True))))
        return self

    def __exit__(self, *a):
        for cls, name, own in self.undo[::-1]:
            if own is None:
                delattr(cls, name)
            else:
                setattr(cls, name, own)


def own_nmf(log, zeros, tiny=False):
    """A factorization in the style of the documented interface."""
    class Own:
        n_components = None
        random_state = None

        def set_params(self, **k):
            for q, v in k.items():
                if q not in ('n_components', 'random_state'):
                    raise ValueError(q)
                setattr(self, q, v)
            return self

        def get_params(self, deep=True):
            return dict(n_components=self.n_components,
                        random_state=self.random_state)

        def fit(self, X, y=None):
            X = np.asarray(X, dtype=float)
            k = self.n_components
            r = np.random.RandomState(int(abs(X).sum() * 1e3) % (1 << 30)
                                      + k)
            # rows of the sample, perturbed: nonnegative and spread out
            H = X[np.resize(r.permutation(len(X)), k)] * (1 + .1 * r.rand(
                k, X.shape[1])) + 1e-3
            if zeros:
                H[r.rand(k) < .3] = 0.
                H[0] += .1 * X.max()
            if tiny:
                # bases on any scale scikit-learn does not take for zero
                H *= 10. ** -r.randint(0, 10, (k, 1)) / H.max()
            self.components_ = H
            log.nmf.append((X.copy(), k, H.copy()))
            return self

        def fit_transform(self, X, y=None):
            self.fit(X)
            return np.ones((len(X), self.n_components))
    return Own()


def own_cluster(log, odd, many=False):
    class Own:
        def fit(self, H, y=None):
            if many:
                # clusters of one or two bases
                self.labels_ = np.arange(len(H)) // 2
                log.cl.append((H.copy(), self.labels_.copy()))
                return self
            D = ((H[:, None] - H[None]) ** 2).sum(axis=-1)
            far = D.max(axis=0).argmax()
            lab = (D[far] > np.median(D[far])).astype(int)
            if odd:
                # labels as they come: gaps, and noise
                lab = 3 * lab + 2
                lab[np.arange(len(H)) % 7 == 6] = -1
            self.labels_ = lab
            log.cl.append((H.copy(), lab.copy()))
            return self

        def fit_predict(self, H, y=None):
            return self.fit(H).labels_.copy()
    return Own()


def unit(H):
    n = np.sqrt((H ** 2).sum(axis=1))
    return H / np.where(n == 0, 1., n)[:, None]


def diss(A, B):
    C = unit(A).dot(unit(B).T)
    return 1 - (C.max(axis=0).sum() + C.max(axis=1).sum()) / (2. * len(A))


def same_rows(A, B, tol):
    """Equal as multisets of rows."""
    if A.shape != B.shape:
        return False
    left = list(range(len(B)))
    for a in A:
        d = np.abs(B[left] - a).max(axis=1) if left else [np.inf]
        j = int(np.argmin(d))
        if d[j] > tol:
            return False
        left.pop(j)
    return True


def make_data(case):
    rng = np.random.RandomState(case['seed'])
    n, p, k = case['n'], case['p'], case['k']
    H = rng.rand(k, p) * (rng.rand(k, p) < .6) + .02
    X = rng.gamma(1., 1., (n, k)).dot(H) + .02 * rng.rand(n, p)
    if case['dtype'] != 'int':
        X = X * case['units']
    if case['dtype'] == 'float32':
        X = X.astype('float32')
    elif case['dtype'] == 'int':
        X = np.round(50 * X).astype(int) + 1
        while len(np.unique(X, axis=0)) < n:
            X[:, 0] += rng.randint(0, 5, n)
    elif case['dtype'] == 'F':
        X = np.asfortranarray(X)
    return X, rng


def build(case, log, p):
    from pyuoi import decomposition as dec
    from pyuoi.decomposition import NMF as mod
    from sklearn.decomposition import NMF
    from sklearn import cluster
    from sklearn.linear_model import LinearRegression
    rng = np.random.RandomState(case['seed'] + 1)
    hi = min(p - 1, 4)
    ranks, want = {
        'int': (hi, list(range(2, hi + 1))),
        'list': ([2, hi], [2, hi] if hi > 2 else [2]),
        'tuple': ((1, hi), [1, hi]),
        'range': (range(1, hi + 1), list(range(1, hi + 1))),
        'array': (np.array([2, 1]), [2, 1]),
        'none': (None, list(range(1, p))),
        'single': ([hi], [hi]),
        'unsorted': ([hi, 2, 1] if hi > 2 else [2, 1],
                     [hi, 2, 1] if hi > 2 else [2, 1])}[case['ranks']]
    if case['ranks'] == 'list':
        ranks = want
    kw = dict(n_boots=case['boots'], ranks=ranks,
              use_dissimilarity=case['diss'],
              random_state=int(rng.randint(1 << 20)))
    cls = dec.UoI_NMF if case['cls'] == 'UoI_NMF' else mod.UoI_NMF_Base
    if case['nmf'] == 'sk-cd':
        kw['nmf'] = NMF(solver='cd', init='random', max_iter=300)
    elif case['nmf'].startswith('own'):
        kw['nmf'] = own_nmf(log, case['nmf'] == 'own0',
                            case['seed'] % 3 == 0)
    elif case['cls'] == 'UoI_NMF':
        solver = gen.pick(rng, 'mu', 'cd')
        log.asked = dict(
            solver=solver, init=gen.pick(rng, 'random', 'nndsvda'),
            beta_loss='frobenius' if solver == 'cd' else
            gen.pick(rng, 'frobenius', 'kullback-leibler'),
            tol=float(gen.pick(rng, 1e-4, 1e-3)),
            max_iter=int(rng.randint(100, 200)))
        kw.update({'nmf_' + q: v for q, v in log.asked.items()})
    c = case['cluster']
    if c == 'default':
        log.db = dict(eps=.5, min_samples=max(case['boots'] // 2, 1))
        if case['cls'] == 'UoI_NMF' and rng.rand() < .6:
            log.db = dict(eps=float(gen.pick(rng, .3, .6, .9)),
                          min_samples=int(rng.randint(1, 3)))
            kw.update({'db_' + q: v for q, v in log.db.items()})
    if c == 'agglo':
        kw['cluster'] = cluster.AgglomerativeClustering(n_clusters=2)
    elif c == 'kmeans':
        kw['cluster'] = cluster.KMeans(n_clusters=2, n_init=2,
                                       random_state=0)
    elif c in ('own', 'odd', 'many'):
        kw['cluster'] = own_cluster(log, c == 'odd', c == 'many')
    elif c == 'eps':
        kw['cluster'] = cluster.DBSCAN(eps=.2, min_samples=2)
    shift = -.5 if case['seed'] % 2 else .125
    if case['nnreg'] == 'function':
        from scipy.optimize import nnls

        def reg(A, b):
            w = nnls(np.asarray(A, dtype=float),
                     np.asarray(b, dtype=float))[0] + shift
            log.reg.append((np.array(A, copy=True), np.array(b, copy=True),
                            w.copy()))
            return w
        kw['nnreg'] = reg
    elif case['nnreg'] == 'estimator':
        class Reg(LinearRegression):
            def fit(self, A, b, sample_weight=None):
                super().fit(A, b)
                self.coef_ = self.coef_ + 2 * shift
                log.reg.append((np.array(A, copy=True),
                                np.array(b, copy=True), self.coef_.copy()))
                return self
        kw['nnreg'] = Reg(positive=True, fit_intercept=False)
    f = {'median': np.median, 'max': np.max,
         'own': lambda H, axis: H.min(axis=axis) + .5,
         None: np.mean}[case['cons']]
    if case['cons'] is not None:
        def cons(H, axis=None):
            log.cons.append(np.array(H, copy=True))
            return f(H, axis=axis)
        kw['cons_meth'] = cons
    return cls, kw, want, f


def run(case, rec):
    import warnings
    from harness import uoi
    X, rng = make_data(case)
    n, p = X.shape
    Xd = np.asarray(X, dtype=float)
    log = Log()
    cls, kw, ranks, cons = build(case, log, p)
    m = cls(logger=uoi.silent_logger(), **kw)
    B = case['boots']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with Hooks(log):
            try:
                m.fit(X, verbose=case['verbose'])
            except ValueError as e:
                # nothing but noise is outside the domain
                if log.cl and np.all(log.cl[-1][1] == -1):
                    rec.count('all_noise')
                    return
                raise e
    rec.count('fits')
    eps = 2e-6 if case['dtype'] == 'float32' else 1e-9
    # the resamples and factorizations
    rec.count('factorizations', len(log.nmf))
    got = sorted(k for _, k, _ in log.nmf)
    rec.check(got == sorted(list(ranks) * B), 'factorizations',
              'ranks %s factorized, asked for %d bootstraps of %s' % (
                  got, B, ranks))
    index = {r.tobytes(): i for i, r in enumerate(Xd)}
    samples = {}
    freq = np.zeros(n)
    for A, k, H in log.nmf:
        rows = [index.get(np.ascontiguousarray(r).tobytes()) for r in A]
        if not rec.check(None not in rows and len(rows) == n, 'resample',
                         'a factorization of %d rows, %d of them rows of '
                         'the data' % (len(rows), sum(r is not None
                                                      for r in rows))):
            return
        samples.setdefault(tuple(sorted(rows)), []).append(k)
    for rows in samples:
        np.add.at(freq, list(rows), 1)
    rec.count('draws', freq.sum())
    rec.check(all(len(set(r)) < n for r in samples), 'replacement',
              'a resample without repetition')
    rec.check(len(samples) == B, 'resample', '%d different resamples for %d '
              'bootstraps' % (len(samples), B))
    if len(samples) == B:
        rec.check(all(sorted(k) == sorted(ranks) for k in samples.values()),
                  'resample', 'a resample was not factorized at every rank')
        bi = np.sort(np.asarray(m.bootstraps_), axis=1)
        rec.check({tuple(r) for r in bi} == set(samples), 'bootstraps_',
                  'bootstraps_ are not the rows that were factorized')
    N, q = freq.sum(), 1. / n
    d = np.abs(freq - N * q).max()
    rec.check(d ** 2 / (2 * (N * q + d / 3)) < 24, 'uniform',
              'a row was drawn %d times away from %.1f' % (d, N * q))
    # the pooled bases
    by = {k: [H for _, kk, H in log.nmf if kk == k] for k in ranks}
    if case['diss']:
        g = np.array([np.mean([diss(by[k][a], by[k][b])
                               for a in range(B) for b in range(a)])
                      for k in ranks])
        rec.count('best_ranks')
        if hasattr(m, 'dissimilarity_'):
            rec.check(np.shape(m.dissimilarity_) == g.shape and np.allclose(
                m.dissimilarity_, g, rtol=0, atol=1e-6), 'dissimilarity',
                '%s, expected %s' % (m.dissimilarity_, g))
        options = [[ranks[i]] for i in range(len(ranks))
                   if g[i] <= g.min() + max(1e-9, eps)]
    else:
        rec.count('pooled')
        options = [list(ranks)]
    bs, labels = np.asarray(m.bases_samples_), np.asarray(
        m.bases_samples_labels_)
    ok, zeros = False, 0
    for o in options:
        pool = np.concatenate([H for k in o for H in by[k]])
        nz = pool.sum(axis=1) != 0
        if same_rows(unit(pool[nz]), bs, max(eps, 1e-7)):
            ok, zeros = True, int(np.sum(~nz))
            chosen = o
    rec.count('bases', len(bs))
    if not rec.check(ok, 'bases', '%d bases clustered, none of the ranks %s '
                     'gives them' % (len(bs), options)):
        return
    rec.count('zero_bases', zeros)
    # the clusters
    rec.check(len(log.cl) == 1, 'clusterer', '%d clustering calls' %
              len(log.cl))
    if not log.cl:
        return
    Hc, lab = log.cl[-1]
    rec.check(same_rows(Hc, bs, 1e-12), 'clusterer',
              'the clusterer was given other bases')
    rec.check(np.array_equal(lab, labels), 'clusterer',
              'labels are not those of the clusterer')
    for q in log.params:
        rec.count('settings')
        rec.check(all(q[a] == v for a, v in log.asked.items()), 'settings',
                  'factorized with %s, asked for %s' % (q, log.asked))
    if log.db is not None:
        from sklearn.cluster import DBSCAN
        rec.count('default_clusters')
        rec.check(np.array_equal(DBSCAN(**log.db).fit(Hc).labels_, lab),
                  'settings', 'labels are not those of DBSCAN with %s' %
                  log.db)
    ids = [c for c in np.unique(lab) if c != -1]
    rec.count('noise', np.sum(lab == -1))
    want = unit(np.array([cons(Hc[lab == c], axis=0) for c in ids]))
    C = np.asarray(m.components_)
    rec.count('components', len(C))
    if not rec.check(C.shape == want.shape and same_rows(want, C, 1e-7),
                     'consensus', '%d components, not the consensus of %d '
                     'clusters' % (len(C), len(ids)), got=C, want=want):
        return
    if case['cons'] is not None:
        rec.count('consensus_calls', len(log.cons))
        rec.check(len(log.cons) == len(ids), 'consensus',
                  '%d consensus calls for %d clusters' % (len(log.cons),
                                                          len(ids)))
    rec.check(np.all(C >= 0), 'nonnegative', 'a negative entry')
    rec.check(np.allclose(np.sqrt((C ** 2).sum(axis=1)), 1, atol=1e-6),
              'unit', 'norms %s' % np.sqrt((C ** 2).sum(axis=1)))
    transform(case, rec, m, X, Xd, C, log, rng)
    rejections(rec, m, kw, X, p)
    if len(ids) > 1 or len(ranks) > 1 or zeros or np.any(lab == -1):
        rec.seen(case['nmf'], case['ranks'], case['cluster'], case['cons'],
                 case['diss'], B, case['dtype'], len(ids))
    rec.sample = dict(rank=chosen, clusters=len(ids), zero_bases=zeros)


def transform(case, rec, m, X, Xd, C, log, rng):
    Xs = {'X': X, 'new': np.abs(rng.randn(7, X.shape[1])) * 3,
          'scaled': np.abs(rng.randn(9, X.shape[1])) *
          10. ** rng.randint(-5, 7, (9, 1)),
          'reproducible': rng.gamma(1., 1., (12, len(C))).dot(C)}
    for name, A in Xs.items():
        del log.reg[:]
        err = bool(rng.rand() < .8)
        W = m.transform(A) if err and rng.rand() < .5 else \
            m.transform(A, reconstruction_err=err)
        Ad = np.asarray(A, dtype=float)
        if not rec.check(np.shape(W) == (len(A), len(C)), 'transform',
                         'shape %s' % (np.shape(W),)):
            return
        f32 = W.dtype == np.float32
        tol = 2e-5 if f32 else 1e-8
        size = np.sqrt((Ad ** 2).sum(axis=1))[:, None]
        if case['nnreg'] is None:
            rec.count('nnls_rows', len(A))
            rec.check(np.all(W >= 0), 'nnls', 'a negative coefficient')
            G = (W.astype(float).dot(C) - Ad).dot(C.T)
            bad = np.where(W > tol * size, np.abs(G), np.maximum(-G, 0))
            rec.check(np.all(bad <= 10 * tol * size), 'nnls',
                      'optimality residual %g' % (bad / size).max())
        else:
            rec.count('regressor_calls', len(log.reg))
            rec.check(len(log.reg) == len(A), 'regressor', '%d calls for %d '
                      'rows' % (len(log.reg), len(A)))
            for i, (H, b, w) in enumerate(log.reg[:len(A)]):
                rec.check(np.array_equal(H, C.T) and np.allclose(
                    np.ravel(b), Ad[i], rtol=1e-6) and np.allclose(
                        W[i], w, rtol=1e-5), 'regressor', 'row %d is not '
                    'what the regressor returned for it' % i)
        back = m.inverse_transform(W)
        R = np.asarray(W, dtype=float).dot(C)
        rec.check(np.allclose(back, R, rtol=1e-5 if f32 else 1e-10,
                              atol=tol * size.max()), 'inverse',
                  'the inverse transform is not the product')
        if err:
            e = np.sqrt(((Ad - R) ** 2).sum())
            allowed = 1e-4 * e + tol * size.max() * np.sqrt(X.size)
            if W.dtype == float and np.asarray(A).dtype == float:
                allowed = 1e-8 * e + 1e-11 * np.sqrt((Ad ** 2).sum())
            rec.check(abs(m.reconstruction_err_ - e) <= allowed, 'error',
                      'reported %g, expected %g' % (m.reconstruction_err_,
                                                    e))


def rejections(rec, m, kw, X, p):
    def raises(f, what):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        rec.count('rejections')
        rec.check(ok, 'reject', '%s accepted' % what)
    raises(lambda: m.transform(np.ones((3, p + 1))), 'a wider matrix')
    raises(lambda: m.inverse_transform(np.ones(
        (3, len(m.components_) + 1))), 'too many coefficients')
    Y = np.array(X, dtype=float)
    Y[1, 2] = -1.
    raises(lambda: type(m)(**kw).fit(Y), 'a negative entry')
    raises(lambda: type(m)(**dict(kw, n_boots=1, use_dissimilarity=True)),
           'the dissimilarity of one bootstrap')
