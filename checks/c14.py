import numpy as np

from harness import gen

PROPERTY = 'C14'
RULE = ('Each case makes a family of calls (fit, predict, transform, helper) '
        'with every input fingerprinted (bytes, strides, flags, the buffer '
        'behind a view) before and after each call, also when the call is '
        'made to fail, and repeats the calls with read-only, transposed, '
        'strided, reversed and other-typed copies of the same values; the '
        'results must agree, bitwise for read-only inputs. Non-trivial: the '
        'compared fits have a nonzero coefficient or component.')
ASSUMPTIONS = ['Objects given as workers (solvers, clusterers, regressors, '
               'random states, loggers) are used in place.',
               'Other layouts and types may change the last bits and hence '
               'features at the edge of a support.']
REQUIRED = {'guarded_calls': 2200, 'failed_calls': 250, 'compared': 350,
            'helper_calls': 500, 'settings_compared': 1000,
            'sparse_inputs': 16}
MODELS = ('lasso', 'pyc', 'en', 'logit', 'pois')
DEC = ('nmf', 'nmfbase', 'cur', 'ucur')
KINDS = MODELS + DEC + ('mlr', 'poisson')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = []
    for kind in KINDS:
        for i in range((30 if kind in MODELS else 16) * k):
            rng = np.random.RandomState([seed, i, 14, sum(map(ord, kind))])
            c = dict(kind=kind, seed=int(rng.randint(1 << 30)),
                     vseed=int(rng.randint(1 << 30)),
                     name='c14%s%d' % (kind, i))
            if kind in MODELS:
                m = gen.model_case(rng, 'lasso' if kind == 'pyc' else kind)
                if i % 9 == 5:
                    m = gen.large_case(rng, int(rng.randint(6)),
                                       'lasso' if kind == 'pyc' else kind)
                    m['model']['params'] = gen.full(m['model'])
                P = m['model']['params']
                P['random_state'] = int(rng.randint(1000))
                if kind == 'pyc':
                    P.update(solver='pyc', fit_intercept=True,
                             standardize=True)
                c['params'] = P
                c['data'] = m['data']
                if kind == 'logit' and not P['fit_intercept']:
                    # far from zero without centering is only slow
                    c['data']['loc'] = min(1., c['data'].get('loc', 0.))
            out.append(c)
    for i in range(20 * k):
        out.append(dict(kind='helpers', seed=seed * 1000 + i,
                        name='c14helpers%d' % i))
    return out


# -- inputs ---------------------------------------------------------------

def inputs(case):
    """(constructor settings, fit arguments) as plain writable C arrays."""
    from harness import uoi, traced
    kind = case['kind']
    rng = np.random.RandomState(case['seed'])
    integer = rng.rand() < .3
    if kind in MODELS:
        X, y = uoi.dataset(case['data'])
        if integer:
            sd = X.std(axis=0) + 1e-9
            if case['params']['standardize']:
                X = np.round(4 * X / sd)
            else:
                X = np.round(2 * (X - X.mean(axis=0)) / sd)
            keep = X.std(axis=0) > 0
            X = X[:, keep] if keep.any() else X
            if kind in ('lasso', 'pyc', 'en'):
                y = np.round(3 * y)
        P = dict(case['params'])
        if isinstance(P.get('stability_selection'), list) and \
                rng.rand() < .5:
            P['stability_selection'] = np.array(P['stability_selection'])
        if 'alphas' in P:
            P['alphas'] = np.array(P['alphas'])
        A = dict(X=X, y=y)
        kw = traced.fit_args(dict(case, stratify='y' if kind == 'logit'
                                  else 'groups',
                                  model=dict(kind='x')), y)
        A.update(kw)
        return P, A, integer
    if kind in ('mlr', 'poisson'):
        d = dict(seed=int(rng.randint(1 << 30)), n=int(rng.randint(50, 90)),
                 p=int(rng.randint(2, 7)), strength=.6,
                 kind='pois' if kind == 'poisson' else
                 gen.pick(rng, 'bin', 'multi'), k=3)
        X, y = uoi.dataset(d)
        if integer:
            X = np.round(2 * X)
        if kind == 'poisson' and rng.rand() < .4:
            # rates rather than counts
            y = y * float(rng.choice([.25, 37.5]))
        A = dict(X=X, y=y)
        if rng.rand() < .7:
            A['sample_weight'] = rng.randint(1, 4, len(y)).astype(float)
            if rng.rand() < .4:
                A['sample_weight'][::5] = 0.
        fi = bool(rng.rand() < .7)
        st = bool(rng.rand() < .4)
        if kind == 'mlr':
            K = 1 if d['kind'] == 'bin' else 3
            if rng.rand() < .7:
                mask = rng.rand(K, d['p']) < .7
                mask[0, 0] = True
                A['coef_mask'] = mask if K > 1 else mask[0]
            P = dict(penalty=gen.pick(rng, 'l1', 'l2'),
                     C=float(np.exp(rng.uniform(0, 4))), fit_intercept=fi,
                     standardize=st, tol=1e-6,
                     warm_start=bool(rng.rand() < .5))
            if rng.rand() < .5:
                P['class_weight'] = gen.pick(rng, 'balanced',
                                             {0: 1., 1: 2., 2: .5}
                                             if K > 1 else {0: 1., 1: 2.})
        else:
            P = dict(alpha=float(rng.choice([0., .03])), l1_ratio=.7,
                     fit_intercept=fi, standardize=st, tol=1e-8,
                     solver=gen.pick(rng, 'lbfgs', 'cd'),
                     warm_start=bool(rng.rand() < .5))
        return P, A, integer
    if kind in ('nmf', 'nmfbase'):
        n, p = rng.randint(8, 20), rng.randint(5, 9)
        X = rng.gamma(1., size=(n, 3)).dot(rng.gamma(.5, size=(3, p)))
        X = np.round(4 * X) + 1 if integer else X + .01
        P = dict(n_boots=3, ranks=[[2, 3], (2,), np.array([2, 3])][
            rng.randint(3)], use_dissimilarity=bool(rng.rand() < .5),
            random_state=int(rng.randint(1000)))
        if kind == 'nmf':
            P.update(nmf_max_iter=30, db_eps=.9, db_min_samples=1)
        return P, dict(X=X), integer
    n, p = rng.randint(12, 30), rng.randint(8, 25)
    X = rng.randn(n, p) * np.exp(rng.randn(p) * .5)
    if integer:
        X = np.round(6 * X)
    if kind == 'cur':
        return dict(max_k=3, random_state=int(rng.randint(1000))), \
            dict(X=X, c=p / 2.), integer
    A = dict(X=X, ks=[[3, 1], np.array([2, 1])][rng.randint(2)],
             cs=[[3., p / 2.], np.array([p / 3., p / 2.])][rng.randint(2)])
    if rng.rand() < .5:
        A['stratify'] = np.arange(n) % 2
    return dict(n_boots=3, max_k=3, boots_frac=.7, stability_selection=.5,
                random_state=int(rng.randint(1000))), A, integer


def make(kind, P):
    from harness import uoi
    from pyuoi import decomposition as dec
    if kind in MODELS:
        return uoi.make('lasso' if kind == 'pyc' else kind, **P)
    if kind == 'nmf':
        return dec.UoI_NMF(logger=uoi.silent_logger(), **P)
    if kind == 'nmfbase':
        from sklearn.cluster import DBSCAN
        from sklearn.decomposition import NMF
        return dec.UoI_NMF_Base(
            cluster=DBSCAN(eps=1.2, min_samples=1),
            nmf=NMF(init='nndsvda', max_iter=60),
            logger=uoi.silent_logger(), **P)
    return dict(cur=dec.CUR, ucur=dec.UoI_CUR,
                mlr=uoi.MaskedCoefLogisticRegression,
                poisson=uoi.Poisson)[kind](**P)


VARIANTS = ('readonly', 'fortran', 'strided', 'reversed', 'int', 'small',
            'offset')


def variant(a, how, rng, integer):
    """The same values in another memory layout or type."""
    if not isinstance(a, np.ndarray):
        return a
    if how in ('plain', 'readonly'):
        # vector instructions round by alignment: keep it the same
        raw = np.zeros(a.nbytes + 64, dtype=np.uint8)
        at = -raw.ctypes.data % 64
        v = raw[at:at + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        v.flags.writeable = how == 'plain'
        return v
    if how == 'fortran':
        a = np.array(a, order='F')
        a.flags.writeable = False
        return a
    if how == 'strided':
        big = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'offset':
        # unaligned buffer
        raw = np.zeros(a.nbytes + 8, dtype=np.uint8)
        v = raw[3:3 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        v.flags.writeable = False
        return v
    if a.dtype.kind != 'b' and np.all(a == np.round(a)):
        if how == 'int':
            return a.astype(gen.pick(rng, np.int64, np.int32))
        if how == 'small' and np.abs(a).max() < 100:
            return a.astype(np.int8 if a.min() < 0 else
                            gen.pick(rng, np.uint8, np.uint16, np.int8))
    return a.copy()


# -- calls ----------------------------------------------------------------

def use(m, kind, A, rec, what):
    """Fit and everything that can be called on the fitted object."""
    from harness import uoi
    out = {}

    def call(name, f, *args, **kw):
        g = uoi.Guard(args=args, **kw)
        try:
            with uoi.quiet():
                r = f(*args, **kw)
        finally:
            rec.count('guarded_calls')
            bad = g.changed()
            rec.check(not bad, 'input', '%s.%s (%s) changed its input: %s' %
                      (kind, name, what, bad))
        return r
    A = dict(A)
    X = A.pop('X')
    y = A.pop('y', None)
    args = (X,) if y is None else (X, y)
    call('fit', m.fit, *args, **A)
    out.update(uoi.attrs(m))
    if kind in DEC:
        W = call('transform', m.transform, X)
        out['transform'] = np.array(W)
        if hasattr(m, 'inverse_transform'):
            out['inverse'] = call('inverse_transform', m.inverse_transform,
                                  W)
        kw = {q: v for q, v in A.items() if q in ('c', 'ks', 'cs')}
        call('fit_transform', m.fit_transform, X, **kw)
    else:
        names = ['predict']
        if hasattr(m, 'predict_proba'):
            names += ['predict_proba', 'predict_log_proba',
                      'decision_function']
        if hasattr(m, 'predict_mean'):
            names += ['predict_mean']
        for name in names:
            out[name] = call(name, getattr(m, name), X)
        if hasattr(m, 'score'):
            call('score', m.score, X, y)
    return out


def run(case, rec):
    from harness import uoi
    from harness.compare import agree
    import scipy.sparse as sps
    kind = case['kind']
    if kind == 'helpers':
        return helpers(case, rec)
    P, A, integer = inputs(case)
    rng = np.random.RandomState(case['vseed'])
    A = {k: variant(v, 'plain', rng, integer) for k, v in A.items()}
    with uoi.quiet():
        settings = uoi.Guard(**P)
        m = make(kind, P)
        base = use(m, kind, A, rec, 'plain')
        bad = settings.changed()
        rec.check(not bad, 'settings', '%s changed %s' % (kind, bad))
        for q, v in P.items():
            if not hasattr(m, q) or q in ('random_state', 'logger'):
                continue
            rec.count('settings_compared')
            w = getattr(m, q)
            if q == 'ranks':
                v, w = list(v), list(w)
            if q == 'max_iter':
                continue
            rec.check(uoi.fingerprint(v) == uoi.fingerprint(w),
                      'settings', '%s.%s is %r, was given %r' % (
                          kind, q, w, v))
        main = base.get('coef_', base.get('components_'))
        hows = ['readonly'] + [VARIANTS[1:][i] for i in
                               rng.choice(6, 2, replace=False)]
        if integer and 'int' not in hows:
            hows[2] = gen.pick(rng, 'int', 'small')
        for how in hows:
            B = {k: variant(v, how, rng, integer) for k, v in A.items()}
            Q = {k: variant(v, how, rng, integer) if k == 'alphas' and
                 how == 'readonly' else v for k, v in P.items()}
            got = use(make(kind, Q), kind, B, rec, how)
            if how == 'readonly':
                rec.count('compared')
                diff = uoi.same_attrs(base, got)
                rec.check(not diff, 'readonly', '%s with read-only inputs: '
                          '%s' % (kind, diff))
            else:
                agree(rec, kind, base, got, how)
        # sparse storage stays as it is, sorted or not
        sparse = kind in ('lasso', 'en', 'logit', 'mlr') and not \
            P.get('fit_intercept', True)
        if sparse or kind == 'mlr' and not P['standardize']:
            X = A['X'] * (rng.rand(*A['X'].shape) < .7)
            form = gen.pick(rng, 'csr', 'csc', 'coo')
            S = getattr(sps, form + '_matrix')(X)
            if form == 'csr' and rng.rand() < .6:
                for r in range(S.shape[0]):
                    s = slice(S.indptr[r], S.indptr[r + 1])
                    S.indices[s] = S.indices[s][::-1]
                    S.data[s] = S.data[s][::-1]
                S.has_sorted_indices = False
            B = dict(A, X=S)
            if rng.rand() < .5:
                for a in ('data', 'indices', 'indptr', 'row', 'col'):
                    if hasattr(S, a):
                        getattr(S, a).flags.writeable = False
            rec.count('sparse_inputs')
            use(make(kind, P), kind, B, rec, form)
        # calls that fail must not leave traces in the inputs either
        failing(case, rec, P, A, rng)
    if main is not None and np.size(main) and np.any(main):
        rec.seen(kind, tuple(hows), integer, tuple(sorted(
            (k, str(v)) for k, v in P.items() if isinstance(v, (bool, str)))))
    rec.sample = dict(variants=hows, result=main)


def failing(case, rec, P, A, rng):
    from harness import uoi
    import scipy.sparse as sps
    kind = case['kind']
    for how in ('nan', 'short', 'inject', 'sparse', 'negative'):
        B = {k: (v.copy() if isinstance(v, np.ndarray) else v)
             for k, v in A.items()}
        at = None
        if how == 'nan':
            B['X'][rng.randint(len(B['X'])), 0] = np.nan
        elif how == 'short' and 'y' in B:
            B['y'] = B['y'][:-2]
        elif how == 'inject' and kind not in ('mlr', 'poisson'):
            at = int(rng.choice([1, 3, 8]))
        elif how == 'sparse' and kind in MODELS and P['standardize'] and \
                P['fit_intercept']:
            B['X'] = sps.csr_matrix(B['X'])
        elif how == 'negative' and kind in ('nmf', 'nmfbase'):
            B['X'] = -B['X']
        else:
            continue
        m = make(kind, P)
        settings = uoi.Guard(**P)
        g = uoi.Guard(**B)
        D = dict(B)
        args = [D.pop('X')] + ([D.pop('y')] if 'y' in D else [])
        try:
            if at:
                with uoi.inject(at):
                    m.fit(*args, **D)
            else:
                m.fit(*args, **D)
        except Exception:
            rec.count('failed_calls')
        rec.count('guarded_calls')
        bad = g.changed() + settings.changed()
        rec.check(not bad, 'input-failure', 'a failing %s.fit (%s) changed '
                  '%s' % (kind, how, bad))


# -- helpers --------------------------------------------------------------

def helpers(case, rec):
    from harness import uoi, mpisim
    from pyuoi import utils, datasets, lbfgs, mpi_utils
    from pyuoi.linear_model import utils as lu
    from pyuoi.linear_model import logistic as lg
    from pyuoi.linear_model import poisson as ps
    from pyuoi.decomposition import utils as du
    rng = np.random.RandomState([case['seed'], 77])
    n, p, k = rng.randint(10, 40), rng.randint(2, 7), rng.randint(3, 5)
    X = rng.randn(n, p)
    y01 = (rng.rand(n) < .5).astype(int)
    yk = np.r_[np.arange(k), rng.randint(k, size=n - k)]
    counts = rng.poisson(1., n).astype(float)
    w = rng.randn(p)
    sw = rng.uniform(.5, 2., n)
    V = np.linalg.qr(rng.randn(12, 3))[0]
    W = rng.randn(p) * (rng.rand(p) < .5)
    calls = [
        ('softmax', utils.softmax, (rng.randn(n, k) * 30,), {}),
        ('softmax0', utils.softmax, (rng.randn(n, k) * 30,), dict(axis=0)),
        ('sigmoid', utils.sigmoid, (rng.randn(n, k) * 300,), {}),
        ('ll-normal', utils.log_likelihood_glm, ('normal', X[:, 0].copy(),
                                                 X[:, 1].copy()), {}),
        ('ll-poisson', utils.log_likelihood_glm,
         ('poisson', counts, np.exp(X[:, 0])), {}),
        ('thresholds', lu.stability_selection_to_threshold,
         ([.5, .75, 1.], 8), {}),
        ('thresholds-arr', lu.stability_selection_to_threshold,
         (np.array([.5, .75, 1.]), 8), {}),
        ('thresholds-int', lu.stability_selection_to_threshold,
         (np.array([2, 4, 8]), 8), {}),
        ('intersection', lu.intersection,
         (rng.randn(4, 3, p) * (rng.rand(4, 3, p) < .6), np.array([2, 4])),
         {}),
        ('column_select', du.column_select, (V, 4.),
         dict(leverage_sort=True, random_state=3)),
        ('dissimilarity', du.dissimilarity, (rng.rand(3, p),
                                             rng.rand(3, p)), {}),
        ('fit_intercept_fixed_coef', lg.fit_intercept_fixed_coef,
         (X, rng.randn(1, p), y01, 1), {}),
        ('fit_intercept_fixed_coefk', lg.fit_intercept_fixed_coef,
         (X, rng.randn(k, p), yk, k), {}),
        ('soft_threshold', ps.Poisson.soft_threshold, (X[:, 0].copy(), .3),
         {}),
        ('adjusted_response', ps.Poisson.adjusted_response,
         (X, counts, w), dict(intercept=.3)),
        ('poisson_loss', ps._poisson_loss_and_grad,
         (np.append(w, .1), X, counts, .3, sw), {}),
        ('make_linear', datasets.make_linear_regression, (),
         dict(n_features=p, beta=W, random_state=1)),
        ('make_poisson', datasets.make_poisson_regression, (),
         dict(n_features=p, beta=W, random_state=1)),
        ('LogisticIntercept', lg.LogisticInterceptFitterNoFeatures,
         (yk, k), {}),
        ('PoissonIntercept', ps.PoissonInterceptFitterNoFeatures,
         (counts,), {}),
    ]
    # the user's starting point and extra arguments of the minimizer
    A = rng.randn(p, p)
    A = A.T.dot(A) + np.eye(p)

    def f(x, g, A, b):
        g[:] = A.dot(x) - b
        return .5 * x.dot(A).dot(x) - b.dot(x)

    def lb(x0, args, **kw):
        return lbfgs.fmin_lbfgs(f, x0, args=args, **kw)
    for x0 in (w.copy(), np.asfortranarray(np.tile(w, (2, 1)))[0],
               np.repeat(w, 2)[::2]):
        calls.append(('lbfgs', lb, (x0, (A, w)), {}))
        calls.append(('lbfgs-owl', lb, (x0, (A, w)), dict(orthantwise_c=.3)))
    calls.append(('lbfgs-int', lb, (np.arange(p), (A, w)), {}))

    class Comm:
        def __init__(self, c):
            self.c = c
    for name, fn, args, kw in calls:
        frozen = []
        out = []
        for ro in (False, True):
            a = tuple(v.copy() if isinstance(v, np.ndarray) and
                      v.flags.c_contiguous else v for v in args)
            if ro:
                for v in list(a) + list(kw.values()):
                    if isinstance(v, np.ndarray):
                        v.flags.writeable = False
                        frozen.append(v)
            g = uoi.Guard(args=a, kw=kw)
            try:
                out.append(fn(*a, **kw))
            finally:
                for v in frozen:
                    if v.base is None or v.base.flags.writeable:
                        v.flags.writeable = True
            # thawing is ours
            g.before = {q: _unflag(v) for q, v in g.before.items()}
            after = {q: _unflag(uoi.fingerprint(v))
                     for q, v in g.objs.items()}
            rec.count('helper_calls')
            rec.check(after == g.before, 'helper-input',
                      '%s changed its input' % name)
        rec.check(_same(out[0], out[1]), 'helper-readonly',
                  '%s differs for read-only input' % name,
                  a=out[0], b=out[1])
    # MPI helpers: send buffers of every rank
    size = 3
    bufs = [rng.randn(4, p) for _ in range(size)]
    snap = [b.copy() for b in bufs]

    def body(comm):
        b = bufs[comm.rank]
        b.flags.writeable = False
        r = mpi_utils.Gatherv_rows(b, comm, root=0)
        s = mpi_utils.Bcast_from_root(b if comm.rank == 1 else None, comm,
                                      root=1)
        return r, s
    mpisim.World(size, case['seed']).run(body)
    rec.count('helper_calls', 2 * size)
    rec.check(all(np.array_equal(a, b) for a, b in zip(bufs, snap)),
              'helper-input', 'an MPI helper changed a send buffer')
    rec.seen('helpers', case['seed'])
    rec.sample = dict(helpers=[c[0] for c in calls])


def _unflag(fp):
    if isinstance(fp, tuple):
        if fp and fp[0] == 'nd':
            return fp[:4] + fp[5:]
        return tuple(_unflag(v) for v in fp)
    return fp


def _same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(_same(u, v) for u, v in zip(a, b))
    if isinstance(a, np.ndarray) or np.isscalar(a):
        return bool(np.array_equal(a, b, equal_nan=True))
    if hasattr(a, 'intercept_'):
        return _same(a.intercept_, b.intercept_)
    return True
