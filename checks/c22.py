import os
import shutil
import signal
import tempfile

import numpy as np

from harness import boot, gen

PROPERTY = 'C22'
RULE = ('Every configuration is generated for many seeds; a monitor '
        'recomputes the model from the returned design, coefficients and '
        'intercept and accumulates residuals, label and count deviations, '
        'values and positions of the coefficients. Shapes, ranges, sparsity, '
        'zero intercepts, user coefficients and equal seeds are exact; noise '
        'variance, label probabilities, count means and coefficient '
        'distributions are compared by tests that alarm with probability '
        'below 1e-9. Image loads run on a scratch copy of the file, watched '
        'byte by byte, after mutating what was returned, and as a user who '
        'may only read it. Non-trivial: a configuration whose statistics '
        'were compared.')
ASSUMPTIONS = ['Counts whose mean exceeds what numpy can draw are not '
               'requested.',
               'The distribution of the design of make_classification is '
               'not specified, only that it is finite.']
REQUIRED = {'datasets': 12000, 'samples': 500000, 'tests': 1500,
            'swimmer_loads': 40, 'user_betas': 1000, 'seed_pairs': 500,
            'edge_datasets': 500, 'rare_labels': 50000}
P_MIN = 1e-10


def cases(tier, seed):
    t = 1 if tier == 'quick' else 8
    out = []

    def add(i, **k):
        out.append(dict(name='c22-%s%d' % (k['kind'], i),
                        seed=int(np.random.RandomState(
                            [seed, i, len(k['kind']), 22]).randint(1 << 30)),
                        **k))
    for i in range(32 * t):
        add(i, kind='linear')
        add(i, kind='classes')
        add(i, kind='poisson')
    for i in range(24 * t):
        add(i, kind='edge')
    for i in range(6 if t == 1 else 16):
        add(i, kind='swimmer')
    return out


class Stats:
    """Accumulates deviations with known moments."""

    def __init__(self, rec, what):
        self.rec, self.what = rec, what

    def alarm(self, p, name, detail):
        self.rec.count('tests')
        self.rec.check(p >= P_MIN, name, '%s: %s (p=%.3g)' % (
            self.what, detail, p))

    def ks(self, u, dist, name, **kw):
        from scipy import stats
        u = np.ravel(u)
        if len(u) < 20:
            return
        r = stats.kstest(u, dist, **kw)
        self.alarm(r.pvalue, name, '%s does not follow %s: D=%.4f, n=%d' % (
            name, dist, r.statistic, len(u)))

    def moments(self, z, name):
        """z: supposedly independent standard normal."""
        from scipy import stats
        z = np.ravel(z)
        n = len(z)
        if n == 0:
            return
        self.alarm(2 * stats.norm.sf(abs(z.sum()) / np.sqrt(n)), name,
                   'mean %.4g of %d standardized values' % (z.mean(), n))
        S = (z ** 2).sum()
        self.alarm(2 * min(stats.chi2.cdf(S, n), stats.chi2.sf(S, n)), name,
                   'variance %.4g of %d standardized values' % (S / n, n))

    def bounded(self, dev, var, bound, name, detail=''):
        """Sum of independent deviations of mean zero within bound."""
        S, V = float(np.sum(dev)), float(np.sum(var))
        if V <= 0 or bound <= 0:
            self.rec.check(abs(S) < 1e-6, name, '%s: %s certain outcome '
                           'missed by %g' % (self.what, detail, S))
            return
        p = 2 * np.exp(-S ** 2 / (2 * (V + bound * abs(S) / 3.)))
        self.alarm(p, name, '%s deviates by %.4g, standard deviation %.4g'
                   % (detail, S, np.sqrt(V)))


def positions(st, B, k, name):
    """B: (repetitions, p) nonzero pattern with k of p chosen."""
    B = np.asarray(B, dtype=float)
    q = k / B.shape[1]
    for j in range(B.shape[1]):
        st.bounded(B[:, j] - q, np.full(len(B), q * (1 - q)), 1., name,
                   'position %d of the nonzero coefficients' % j)


def seed_of(rng, i):
    s = int(rng.randint(1 << 31 - 1))
    return [s, np.int64(s), np.random.RandomState(s),
            np.uint32(s)][i % 4], s


def same(a, b):
    return all(np.array_equal(np.asarray(u), np.asarray(v))
               and np.asarray(u).dtype == np.asarray(v).dtype
               for u, v in zip(a, b)) and len(a) == len(b)


def common(rec, out, n, p, what):
    rec.count('datasets')
    rec.count('samples', n)
    X, y = out[0], out[1]
    rec.check(np.shape(X) == (n, p) and np.shape(y) == (n,), 'shape',
              '%s: shapes %r, %r for %d samples of %d features' % (
                  what, np.shape(X), np.shape(y), n, p))
    return rec.check(np.isfinite(X).all() and np.isfinite(y).all(), 'finite',
                     '%s: data not finite' % what)


def equal_seeds(rec, f, rng, what):
    s = int(rng.randint(1 << 31 - 1)) * bool(rng.rand() < .8)
    outs = [f(random_state=v) for v in (s, np.int64(s),
                                        np.random.RandomState(s))]
    rec.count('seed_pairs', 3)
    rec.check(same(outs[0], outs[1]) and same(outs[0], outs[2])
              and same(outs[0], f(random_state=s)), 'seeds',
              '%s: equal seeds %d give different data' % (what, s))
    other = f(random_state=s + 1)
    # few standardized values may coincide
    rec.check(np.size(other[0]) < 20 or np.shape(other[0])[1] == 2
              or not np.array_equal(outs[0][0], other[0]), 'seeds',
              '%s: seeds %d and %d give the same data' % (what, s, s + 1))


# --------------------------------------------------------------------------

def run_linear(case, rec):
    from pyuoi.datasets import make_linear_regression
    rng = np.random.RandomState(case['seed'])
    n = int(gen.pick(rng, 5, 20, 60, 150, 700))
    p = int(gen.pick(rng, 1, 2, 4, 7))
    k = int(rng.randint(0, p + 1)) if rng.rand() < .9 else p + 2
    low = float(gen.pick(rng, 1., .1, 2., -3.))
    kw = dict(n_samples=n, n_features=p, n_informative=k,
              X_loc=float(gen.pick(rng, 3., 0., -2., .5)),
              X_scale=float(gen.pick(rng, 1., .2, 4.)),
              snr=float(gen.pick(rng, 5., .3, 1., 40., .01, 3e3)),
              beta_low=low, beta_high=low + float(gen.pick(rng, 2., .5)),
              include_intercept=bool(rng.rand() < .5))
    own = None
    if rng.rand() < .3:
        own = gen.pick(rng, rng.randn(p), rng.randint(-400, 400, p),
                       rng.randn(p).astype('float32'))
        kw['beta'] = own
    what = 'make_linear_regression(%s)' % ', '.join(
        '%s=%r' % i for i in sorted(kw.items()) if i[0] != 'beta')
    st = Stats(rec, what)
    R = 150
    Z, XZ, NZ, VAL, ICPT, SLOPE, LAG, PER = [], [], [], [], [], [], [], []
    MEAN = []
    for i in range(R):
        rs, _ = seed_of(rng, i)
        keep = None if own is None else own.copy()
        out = make_linear_regression(random_state=rs, **kw)
        if not common(rec, out, n, p, what):
            return
        X, y, b, c = out
        if own is not None:
            rec.count('user_betas')
            rec.check(np.array_equal(own, keep) and np.array_equal(b, own),
                      'user-beta', '%s: the given coefficients %r came back '
                      'as %r' % (what, keep, b))
        else:
            nz = np.flatnonzero(b)
            rec.check(np.shape(b) == (p,) and len(nz) == min(k, p),
                      'informative', '%s: %d of %d requested informative '
                      'features' % (what, len(nz), k))
            rec.check(np.all((b[nz] >= kw['beta_low'])
                             & (b[nz] <= kw['beta_high'])), 'range',
                      '%s: coefficients %r out of range' % (what, b))
            NZ.append(b != 0)
            VAL.append(b[nz])
        c0 = np.asarray(c, dtype=float)
        if kw['include_intercept']:
            rec.check(c0.size == 1 and kw['beta_low'] <= float(c0)
                      <= kw['beta_high'], 'intercept',
                      '%s: intercept %r' % (what, c))
            ICPT.append(float(c0))
        else:
            rec.check(c0.size == 1 and float(c0) == 0., 'intercept',
                      '%s: intercept %r although none was requested' % (
                          what, c))
        eta = X @ np.asarray(b, dtype=float) + float(c0)
        ve = np.var(eta)
        r = y - eta
        if ve <= 1e-20 * (1 + np.mean(eta ** 2)):
            rec.check(np.abs(r).max() <= 1e-7 * (1 + np.abs(eta).max()),
                      'noise', '%s: noise without signal' % what)
        else:
            z = r / np.sqrt(ve / kw['snr'])
            Z.append(z)
            PER.append((z ** 2).sum())
            MEAN.append(z.sum() / np.sqrt(n))
            SLOPE.append(z @ ((eta - eta.mean()) / np.sqrt(ve * n)))
            LAG.append(z[1:] * z[:-1])
        XZ.append((X - kw['X_loc']) / kw['X_scale'])
    Zc = np.concatenate(Z) if Z else np.zeros(0)
    if len(Zc):
        from scipy import stats
        st.moments(Zc, 'noise')
        st.ks(Zc, 'norm', 'noise')
        # the variance follows the signal of every single data set
        st.ks(stats.chi2.cdf(PER, n), 'uniform', 'noise')
        st.moments(SLOPE, 'noise')
        st.moments(MEAN, 'noise')
        L = np.concatenate(LAG)
        st.alarm(2 * stats.norm.sf(abs(L.sum()) / np.sqrt(len(L)) / 1.1),
                 'noise', 'successive noise correlated: %.4g' % L.mean())
    st.moments(XZ, 'design')
    st.ks(XZ, 'norm', 'design')
    if NZ and 0 < k < p:
        positions(st, NZ, k, 'position')
    w = kw['beta_high'] - kw['beta_low']
    if VAL and k:
        st.ks((np.concatenate(VAL) - kw['beta_low']) / w, 'uniform', 'values')
    st.ks((np.array(ICPT) - kw['beta_low']) / w, 'uniform', 'intercept')

    def f(random_state):
        return make_linear_regression(random_state=random_state, **kw)
    for _ in range(3):
        equal_seeds(rec, f, rng, what)
    rec.seen('linear', n, p, k, kw['snr'], kw['include_intercept'],
             own is None, case['seed'])
    rec.sample = dict(what=what, noise_values=len(Zc))


def probabilities(X, w, c, K):
    E = X @ w.T + np.asarray(c, dtype=float).reshape(1, -1)
    if K == 2:
        t = np.exp(-np.abs(E[:, 0]))
        p1 = np.where(E[:, 0] >= 0, 1 / (1 + t), t / (1 + t))
        return np.stack([1 - p1, p1], axis=1)
    E = E - E.max(axis=1, keepdims=True)
    P = np.exp(E)
    return P / P.sum(axis=1, keepdims=True)


def run_classes(case, rec):
    from pyuoi.datasets import make_classification
    rng = np.random.RandomState(case['seed'])
    n = int(gen.pick(rng, 3, 20, 60, 150))
    p = int(gen.pick(rng, 1, 2, 4, 7))
    K = int(gen.pick(rng, 2, 2, 3, 4, 6, 11))
    k = int(rng.randint(0, p + 1))
    kw = dict(n_samples=n, n_features=p, n_informative=k, n_classes=K,
              shared_support=bool(rng.rand() < .5),
              w_scale=float(gen.pick(rng, 1., .2, 3., 25.)),
              include_intercept=bool(rng.rand() < .5))
    what = 'make_classification(%s)' % ', '.join(
        '%s=%r' % i for i in sorted(kw.items()))
    st = Stats(rec, what)
    rows = 1 if K == 2 else K
    XS, DEV, VAR, NZ, VAL, ICPT, PIT, PR = ([] for _ in range(8))
    for i in range(150):
        rs, _ = seed_of(rng, i)
        out = make_classification(random_state=rs, **kw)
        if not common(rec, out, n, p, what):
            return
        X, y, w, c = out
        rec.check(np.shape(w) == (rows, p) and np.size(c) == rows, 'shape',
                  '%s: coefficients %r, intercept %r' % (
                      what, np.shape(w), np.shape(c)))
        y = np.asarray(y)
        rec.check(y.dtype.kind in 'iu' and y.min() >= 0 and y.max() < K,
                  'labels', '%s: labels %r of %s' % (
                      what, np.unique(y), y.dtype))
        rec.check(np.all((w != 0).sum(axis=1) == k), 'informative',
                  '%s: %r nonzero coefficients per class' % (
                      what, (w != 0).sum(axis=1)))
        if kw['shared_support']:
            rec.check(np.all((w != 0) == (w[:1] != 0)), 'shared',
                      '%s: supports differ between classes' % what)
        if not kw['include_intercept']:
            rec.check(not np.any(c), 'intercept', '%s: intercept %r although '
                      'none was requested' % (what, c))
        else:
            rec.check(np.isfinite(c).all(), 'intercept',
                      '%s: intercept %r' % (what, c))
            ICPT.append(np.ravel(c))
        P = probabilities(X, w, c, K)
        D = -P
        D[np.arange(n), y.astype(int)] += 1
        XS.append(X)
        DEV.append(D)
        VAR.append(P * (1 - P))
        PR.append(P)
        NZ.append(w != 0)
        VAL.append(w[w != 0] / kw['w_scale'])
        V = rng.rand(n)
        F = np.concatenate([np.zeros((n, 1)), P.cumsum(axis=1)], axis=1)
        yi = y.astype(int)
        PIT.append(F[np.arange(n), yi] + V * P[np.arange(n), yi])
    XS, D, V = (np.concatenate(a) for a in (XS, DEV, VAR))
    m = np.abs(XS).max()
    for cl in range(K):
        st.bounded(D[:, cl], V[:, cl], 1., 'probability', 'class %d' % cl)
        for j in range(p):
            st.bounded(D[:, cl] * XS[:, j], V[:, cl] * XS[:, j] ** 2, m,
                       'probability', 'class %d along feature %d' % (cl, j))
    # classes which are next to impossible
    PR = np.concatenate(PR)
    for q in (1e-2, 1e-4, 1e-7):
        low = PR < q
        st.bounded((D * low).sum(axis=1), (V * low).sum(axis=1), 1.,
                   'probability', 'classes of probability below %g' % q)
        rec.count('rare_labels', np.sum(low))
    # towards the probability the labels should have
    for q, sel in enumerate(np.array_split(np.argsort(V[:, 0]), 5)):
        st.bounded(D[sel, 0], V[sel, 0], 1., 'probability',
                   'class 0 in variance group %d' % q)
    st.ks(np.concatenate(PIT), 'uniform', 'probability')
    NZ = np.array(NZ)
    if 0 < k < p:
        for r in range(1 if kw['shared_support'] else rows):
            positions(st, NZ[:, r], k, 'position')
        if not kw['shared_support'] and rows > 1:
            q = (k / p) ** 2
            for j in range(p):
                both = NZ[:, 0, j] & NZ[:, 1, j]
                st.bounded(both - q, np.full(len(both), q * (1 - q)), 1.,
                           'position', 'feature %d in two classes' % j)
    if k:
        st.ks(np.concatenate(VAL), 'norm', 'values')
    if kw['include_intercept']:
        C = np.array(ICPT)
        rec.check(len(np.unique(np.round(C, 12), axis=0)) == len(C),
                  'intercept', '%s: the intercept does not vary' % what)

    def f(random_state):
        return make_classification(random_state=random_state, **kw)
    for _ in range(3):
        equal_seeds(rec, f, rng, what)
    rec.seen('classes', n, p, k, K, kw['shared_support'],
             kw['include_intercept'], case['seed'])
    rec.sample = dict(what=what, labels=len(D))


def run_poisson(case, rec):
    from scipy import stats
    from pyuoi.datasets import make_poisson_regression
    rng = np.random.RandomState(case['seed'])
    n = int(gen.pick(rng, 5, 20, 60, 150))
    p = int(gen.pick(rng, 1, 2, 4, 7))
    k = int(rng.randint(0, p + 1)) if rng.rand() < .9 else p + 2
    kw = dict(n_samples=n, n_features=p, n_informative=k,
              X_loc=float(gen.pick(rng, 0., 0., .2, -.3)),
              X_scale=float(gen.pick(rng, 1. / 8, .05, .3)),
              beta_shape=float(gen.pick(rng, 1., 2., .7)),
              beta_scale=float(gen.pick(rng, 3., .5, 1.)),
              include_intercept=bool(rng.rand() < .4))
    if kw['include_intercept']:
        kw['beta_scale'] = min(kw['beta_scale'], 2.)
    own = None
    if rng.rand() < .3:
        own = gen.pick(rng, rng.randn(p) * 2, rng.randint(-3, 4, p),
                       rng.randn(p).astype('float32'))
        kw['beta'] = own
    what = 'make_poisson_regression(%s)' % ', '.join(
        '%s=%r' % i for i in sorted(kw.items()) if i[0] != 'beta')
    st = Stats(rec, what)
    Y, MU, XZ, NZ, VAL, ICPT = [], [], [], [], [], []
    for i in range(150):
        rs, _ = seed_of(rng, i)
        keep = None if own is None else own.copy()
        try:
            out = make_poisson_regression(random_state=rs, **kw)
        except ValueError as e:
            if 'lam' not in str(e):
                raise
            rec.count('too_large')
            continue
        if not common(rec, out, n, p, what):
            return
        X, y, b, c = out
        y = np.asarray(y)
        rec.check(y.dtype.kind in 'iu' and y.min() >= 0, 'counts',
                  '%s: counts of type %s, least %r' % (what, y.dtype,
                                                       y.min()))
        if own is not None:
            rec.count('user_betas')
            rec.check(np.array_equal(own, keep) and np.array_equal(b, own),
                      'user-beta', '%s: the given coefficients %r came back '
                      'as %r' % (what, keep, b))
        else:
            nz = np.flatnonzero(b)
            rec.check(np.shape(b) == (p,) and len(nz) == min(k, p)
                      and np.all(b >= 0), 'informative',
                      '%s: coefficients %r for %d informative features' % (
                          what, b, k))
            NZ.append(b != 0)
            VAL.append(b[nz])
        c0 = np.asarray(c, dtype=float)
        if kw['include_intercept']:
            rec.check(c0.size == 1 and float(c0) > 0, 'intercept',
                      '%s: intercept %r' % (what, c))
            ICPT.append(float(c0))
        else:
            rec.check(c0.size == 1 and float(c0) == 0., 'intercept',
                      '%s: intercept %r although none was requested' % (
                          what, c))
        XZ.append((X - kw['X_loc']) / kw['X_scale'])
        Y.append(y)
        MU.append(np.exp(X @ np.asarray(b, dtype=float) + float(c0)))
    y, mu = np.concatenate(Y).astype(float), np.concatenate(MU)
    for q, sel in enumerate(np.array_split(np.argsort(mu), 8)):
        m, s = mu[sel].sum(), y[sel].sum()
        if m < 1e9:
            st.alarm(2 * min(stats.poisson.cdf(s, m),
                             stats.poisson.sf(s - 1, m)), 'mean',
                     'mean group %d: %d counts, %.2f expected' % (q, s, m))
        z = np.exp(-mu[sel])
        st.bounded((y[sel] == 0) - z, z * (1 - z), 1., 'zeros',
                   'zero counts in mean group %d' % q)
    small = mu < 1e6
    u = stats.poisson.cdf(y - 1, mu) + rng.rand(len(y)) * stats.poisson.pmf(
        y, mu)
    st.ks(u[small], 'uniform', 'counts')
    XZ = np.concatenate(XZ)
    # the design follows its moments, and deviations do not depend on it
    if np.isfinite(XZ).all() and 'too_large' not in rec.counts:
        st.moments(XZ, 'design')
        st.ks(XZ, 'norm', 'design')
    if NZ and 0 < k < p and 'too_large' not in rec.counts:
        positions(st, NZ, k, 'position')
    if 'too_large' not in rec.counts:
        if VAL and k:
            st.ks(np.concatenate(VAL), 'gamma', 'values',
                  args=(kw['beta_shape'], 0, kw['beta_scale']))
        st.ks(ICPT, 'gamma', 'intercept',
              args=(kw['beta_shape'], 0, kw['beta_scale']))

    def f(random_state):
        return make_poisson_regression(random_state=random_state, **kw)
    if 'too_large' not in rec.counts:
        for _ in range(3):
            equal_seeds(rec, f, rng, what)
    rec.seen('poisson', n, p, k, kw['include_intercept'], own is None,
             case['seed'])
    rec.sample = dict(what=what, counts=len(y), mean=float(mu.mean()))


def run_edge(case, rec):
    """Sizes of one, unusual types and the defaults."""
    from pyuoi.datasets import (make_linear_regression, make_classification,
                                make_poisson_regression)
    rng = np.random.RandomState(case['seed'])
    for i in range(24):
        n = int(gen.pick(rng, 1, 1, 2, 3))
        p = int(gen.pick(rng, 1, 1, 2, 3))
        k = int(rng.randint(0, p + 1))
        rs, _ = seed_of(rng, i)
        rec.count('edge_datasets', 3)
        ic = bool(rng.rand() < .5)
        X, y, b, c = out = make_linear_regression(
            n, p, k, include_intercept=ic, random_state=rs)
        common(rec, out, n, p, 'make_linear_regression(%d, %d, %d)' % (
            n, p, k))
        rec.check(np.count_nonzero(b) == k and (ic or c == 0), 'informative',
                  'linear edge: %r, %r for %d' % (b, c, k))
        if n == 1:
            rec.check(abs(y[0] - X[0] @ b - c) < 1e-9, 'noise', 'noise '
                      'without variation of the signal')
        X, y, b, c = out = make_poisson_regression(
            n, p, k, include_intercept=ic, beta_scale=.5, random_state=rs)
        common(rec, out, n, p, 'make_poisson_regression(%d, %d, %d)' % (
            n, p, k))
        rec.check(np.count_nonzero(b) == k and (ic or c == 0), 'informative',
                  'poisson edge: %r, %r for %d' % (b, c, k))
        K = int(gen.pick(rng, 2, 3, 5))
        X, y, w, c = out = make_classification(
            n, p, k, K, bool(rng.rand() < .5), rs,
            float(gen.pick(rng, 1., 300.)), ic)
        common(rec, out, n, p, 'make_classification(%d, %d, %d, %d)' % (
            n, p, k, K))
        rec.check(np.shape(w) == (1 if K == 2 else K, p)
                  and np.all((w != 0).sum(axis=1) == k)
                  and (ic or not np.any(c)) and np.isfinite(w).all()
                  and np.all((np.asarray(y) >= 0) & (np.asarray(y) < K)),
                  'informative', 'classification edge: %r, %r' % (w, c))
    # the defaults, and draws without a seed differ
    for f, p in ((make_linear_regression, 5), (make_classification, 20),
                 (make_poisson_regression, 5)):
        a, b = f(), f(random_state=None)
        for o in (a, b):
            common(rec, o, 100, p, f.__name__ + '()')
            rec.check(np.count_nonzero(o[2]) == 2 and not np.any(o[3]),
                      'informative', '%s(): %r, %r' % (f.__name__, o[2],
                                                       o[3]))
        rec.check(not np.array_equal(a[0], b[0]), 'seeds',
                  '%s: two unseeded draws are equal' % f.__name__)
        # one generator passed on gives fresh data
        g = np.random.RandomState(case['seed'] % 1000)
        a, b = f(random_state=g), f(random_state=g)
        rec.check(not np.array_equal(a[0], b[0]), 'seeds',
                  '%s: a generator was not advanced' % f.__name__)
    rec.seen('edge', case['seed'])


# --------------------------------------------------------------------------

def run_swimmer(case, rec):
    import h5py
    import pkg_resources  # noqa: F401  (imported before dropping rights)
    from pyuoi import datasets
    rng = np.random.RandomState(case['seed'])
    real = os.path.join(boot.REPO, 'src', 'pyuoi', 'data', 'Swimmer.h5')
    if not os.path.exists(real):
        real = os.path.join(os.path.dirname(datasets.__file__), '..', 'data',
                            'Swimmer.h5')
    with open(real, 'rb') as f:
        blob = f.read()
    d = tempfile.mkdtemp(prefix='c22-', dir=boot.CACHE)
    path = os.path.join(d, 'Swimmer.h5')
    with open(path, 'wb') as f:
        f.write(blob)
    os.utime(path, (1.5e9, 1.5e9))
    File = h5py.File
    modes, handles = [], []

    class Redirected(File):
        def __init__(self, name, mode='r', *a, **k):
            if isinstance(name, (bytes, os.PathLike)):
                name = os.fsdecode(name)
            if isinstance(name, str) and name.endswith('Swimmer.h5'):
                modes.append(mode)
                handles.append(self)
                name = path
            super().__init__(name, mode, *a, **k)

    def state():
        with open(path, 'rb') as f:
            return f.read()
    try:
        h5py.File = Redirected
        had = getattr(datasets, 'h5py', None)
        with File(path, 'r') as f:
            Y = f['Y'][:].astype(float)
        rec.check(state() == blob, 'harness', 'reading changed the copy')
        os.utime(path, (1.5e9, 1.5e9))
        stamp = os.stat(path).st_mtime_ns
        ref = {True: Y.T.reshape(256, 1024), False: Y}
        for rep in range(12):
            flat = bool(rng.rand() < .5)
            S = (datasets.load_swimmer() if flat and rng.rand() < .5
                 else datasets.load_swimmer(flatten=flat))
            rec.count('swimmer_loads')
            rec.check(S.shape == ref[flat].shape and S.dtype == float
                      and np.array_equal(S, ref[flat]), 'swimmer',
                      'load %d (flatten=%s) returned other images' % (
                          rep, flat))
            rec.check(state() == blob and os.stat(path).st_mtime_ns == stamp,
                      'swimmer-modified', 'loading rewrote the file')
            rec.check(all(not h for h in handles), 'swimmer-open',
                      'the file stays open')
            rec.check(S.flags.writeable, 'swimmer', 'images not writeable')
            S *= -1.
            S[:] += rng.rand(*S.shape)
        rec.check(len(modes) > 0 or had is not None, 'harness',
                  'no file was opened')
        if os.getuid() == 0:
            os.chmod(path, 0o444)
            os.chmod(d, 0o555)
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    signal.alarm(60)
                    try:
                        os.setgroups([])
                        os.setgid(65534)
                        os.setuid(65534)
                        open(path, 'rb').close()
                    except OSError:
                        os._exit(7)
                    ok = np.array_equal(datasets.load_swimmer(), ref[True])
                    code = 0 if ok else 4
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            rc = os.waitstatus_to_exitcode(status)
            if rc == 7:
                rec.count('no_readonly_run')
            else:
                rec.count('readonly_loads')
                rec.check(rc == 0, 'swimmer-modified', 'a user who may only '
                          'read the file cannot load it (exit %d)' % rc)
        with open(real, 'rb') as f:
            rec.check(f.read() == blob, 'swimmer-modified',
                      'the bundled file changed')
    finally:
        h5py.File = File
        os.chmod(d, 0o755)
        shutil.rmtree(d)
    rec.seen('swimmer', case['seed'])


def run(case, rec):
    {'linear': run_linear, 'classes': run_classes, 'poisson': run_poisson,
     'edge': run_edge, 'swimmer': run_swimmer}[case['kind']](case, rec)
