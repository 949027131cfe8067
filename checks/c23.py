import decimal
import fractions
import math

import numpy as np

from harness import gen

PROPERTY = 'C23'
RULE = ('Every call of a numerical helper is observed and its value compared '
        'with the definition evaluated in 60 digit decimal or exact rational '
        'arithmetic, on random, extreme and degenerate arrays of several '
        'shapes, axes, memory layouts and number types. Stability settings '
        'are converted with exact rationals, through the helpers and through '
        'the models. Non-trivial: values that are not representable exactly '
        'or settings on both sides of a bound.')
ASSUMPTIONS = ['A proportion whose product with the number of bootstraps is '
               'within 2e-9 of a whole number, but not a rounded k / n, may be '
               'converted to either neighbour.',
               'Rounding: relative error of a few units in the last place '
               'times the size of the exponent for the exponentials.']
REQUIRED = {'sigmoid_values': 25000, 'softmax_values': 27000,
            'likelihoods': 2000, 'criteria': 8000, 'settings': 5000,
            'settings_rejected': 1500, 'model_settings': 300,
            'dissimilarities': 1500, 'equal_bases': 500}
CTX = decimal.Context(prec=60, Emax=10 ** 17, Emin=-10 ** 17)
D = decimal.Decimal


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for kind, m in (('sigmoid', 40), ('softmax', 48), ('likelihood', 16),
                    ('criteria', 10), ('settings', 16), ('models', 6),
                    ('dissimilarity', 16)):
        for i in range(m * t):
            out.append(dict(name='c23-%s%d' % (kind, i), kind=kind,
                            seed=int(np.random.RandomState(
                                [seed, i, len(kind), 23]).randint(1 << 30))))
    return out


def dec(v):
    return D(float(v)) if not isinstance(v, (int, np.integer)) else D(int(v))


def array(rng, shape):
    """Finite values of very different sizes."""
    kind = rng.randint(6)
    a = rng.randn(*shape)
    if kind == 1:
        a = a * 10. ** rng.uniform(-12, 4, size=shape)
    elif kind == 2:
        a = a * 10. ** rng.uniform(-300, 300, size=shape)
    elif kind == 3:
        a = extreme(rng, shape)
    elif kind == 4:
        a = np.full(shape, a.ravel()[0] * 500)
    elif kind == 5:
        a = rng.randint(-30, 30, size=shape)
    if a.dtype.kind == 'f' and rng.rand() < .15:
        with np.errstate(over='ignore'):
            b = a.astype(np.float32)
        if np.isfinite(b).all():
            a = b
    u = rng.rand()
    if u < .2:
        a = np.asfortranarray(a)
    elif u < .4 and a.ndim:
        a = np.repeat(a, 2, axis=0)[::2]
    elif u < .5:
        a.setflags(write=False)
    return a


def extreme(rng, shape):
    pool = np.array([0., -0., 1e308, -1e308, 745.2, -745.2, 709.8, -709.8,
                     36.7, -36.7, 5e-324, -5e-324, 1e-17, 1., -1., 1e5,
                     -1e5, np.finfo(float).max, -np.finfo(float).max, 88.8,
                     -103.9])
    return pool[rng.randint(len(pool), size=shape)]


def eps_of(a):
    return float(np.finfo(a.dtype).eps) if a.dtype.kind == 'f' else 2.3e-16


def shape_of(rng, lo=1):
    return tuple(int(rng.randint(lo, 6)) for _ in range(rng.randint(1, 4)))


def exact_sigmoid(x):
    x = dec(x)
    if x < -5000:
        return D(0)
    if x > 5000:
        return D(1)
    e = CTX.exp(-x)
    return CTX.divide(D(1), CTX.add(D(1), e))


def close(got, exact, rel, tiny):
    """Does a float equal a decimal to rounding?"""
    if not math.isfinite(got):
        return False
    d = abs(CTX.subtract(D(float(got)), exact))
    return d <= CTX.multiply(abs(exact), D(rel)) + D(tiny)


def run_sigmoid(case, rec):
    from pyuoi.utils import sigmoid
    rng = np.random.RandomState(case['seed'])
    for i in range(100):
        x = array(rng, shape_of(rng))
        keep = x.copy()
        got = sigmoid(x)
        rec.count('sigmoid_values', x.size)
        rec.check(np.shape(got) == x.shape and np.array_equal(x, keep),
                  'sigmoid', 'shape %r for %r, or changed input' % (
                      np.shape(got), x.shape))
        rec.check(np.all(got >= 0) and np.all(got <= 1), 'sigmoid-range',
                  'sigmoid outside [0, 1]', x=x, got=got)
        # a 0-d or nested list value need not be supported
        eps = max(eps_of(np.asarray(got)), eps_of(x))
        tiny = 1e-322 if eps < 1e-10 else 3e-45
        for u, g in zip(x.ravel(), np.ravel(got)):
            rel = eps * (4 + 3 * min(abs(float(u)), 800.))
            rec.check(close(g, exact_sigmoid(u), rel, tiny), 'sigmoid',
                      'sigmoid(%r) = %r' % (u, g))
        order = np.argsort(x.ravel(), kind='stable')
        s = np.ravel(got)[order].astype(float)
        rec.check(np.all(np.diff(s) >= -8 * eps * s[1:]), 'sigmoid',
                  'sigmoid not monotone', x=x, got=got)
    for v in (0., 3.5, -800., 1e300, -1e300, np.float64(2)):
        rec.count('sigmoid_values')
        rec.check(close(float(sigmoid(v)), exact_sigmoid(v), 1e-12, 1e-322),
                  'sigmoid', 'sigmoid(%r) = %r' % (v, sigmoid(v)))
    rec.seen('sigmoid', case['seed'])


def run_softmax(case, rec):
    from pyuoi.utils import softmax
    rng = np.random.RandomState(case['seed'])
    for i in range(90):
        y = array(rng, shape_of(rng))
        keep = y.copy()
        axis = int(rng.randint(-y.ndim, y.ndim))
        if rng.rand() < .3:
            got, axis = softmax(y), -1
        else:
            got = softmax(y, axis=axis) if rng.rand() < .5 else softmax(
                y, axis)
        rec.count('softmax_values', y.size)
        rec.check(np.shape(got) == y.shape and np.array_equal(y, keep),
                  'softmax', 'shape %r for %r, or changed input' % (
                      np.shape(got), y.shape))
        eps = max(eps_of(np.asarray(got)), eps_of(y))
        m = y.shape[axis]
        rec.check(np.isfinite(got).all() and np.all(got >= 0)
                  and np.all(got <= 1 + 4 * eps), 'softmax-range',
                  'softmax outside [0, 1]', y=y, got=got)
        rec.check(np.all(np.abs(np.sum(got, axis=axis) - 1)
                         <= 4 * eps * (m + 2)), 'softmax-sum',
                  'softmax along axis %d sums to %r' % (
                      axis, np.sum(got, axis=axis)), y=y)
        G = np.moveaxis(np.asarray(got), axis, -1).reshape(-1, m)
        Y = np.moveaxis(y, axis, -1).reshape(-1, m)
        tiny = 1e-322 if eps < 1e-10 else 3e-45
        for g, v in zip(G, Y):
            top = max(dec(t) for t in v)
            diff = [CTX.subtract(dec(t), top) for t in v]
            e = [CTX.exp(t) if t > -5000 else D(0) for t in diff]
            tot = D(0)
            for t in e:
                tot = CTX.add(tot, t)
            for gi, ei, di in zip(g, e, diff):
                # the difference itself is rounded
                rel = eps * (4 + m + 2 * min(float(abs(di)), 800.))
                rec.check(close(gi, CTX.divide(ei, tot), rel, tiny),
                          'softmax', 'softmax(%r) = %r' % (v, g))
    rec.seen('softmax', case['seed'])


def run_likelihood(case, rec):
    from pyuoi.utils import log_likelihood_glm
    rng = np.random.RandomState(case['seed'])
    for i in range(80):
        n = int(gen.pick(rng, 1, 2, 5, 40))
        rec.count('likelihoods', 2)
        # Gaussian with the variance that maximizes the likelihood
        y = rng.randn(n) * 10. ** rng.uniform(-30, 30)
        f = y + rng.randn(n) * 10. ** rng.uniform(-30, 30)
        if rng.rand() < .2:
            y, f = rng.randint(0, 9, n), rng.randint(0, 9, n) + .5
        if rng.rand() < .1:
            f = np.full(n, f[0])
        keep = y.copy(), f.copy()
        got = log_likelihood_glm('normal', y, f)
        r = [CTX.subtract(dec(a), dec(b)) for a, b in zip(y, f)]
        rss = D(0)
        for t in r:
            rss = CTX.add(rss, CTX.multiply(t, t))
        # the difference of the floats is exact up to one rounding
        if rss == 0:
            rec.check(got == np.inf, 'normal', 'a perfect fit has '
                      'likelihood %r' % got)
        else:
            exact = CTX.multiply(D(-n) / 2, CTX.add(
                D(1), CTX.ln(CTX.divide(rss, D(n)))))
            rec.check(close(got, exact, 1e-13, 1e-13 * n), 'normal',
                      'Gaussian log-likelihood %r, not %.17g' % (got, exact),
                      y=y, f=f)
        rec.check(np.array_equal(y, keep[0]) and np.array_equal(f, keep[1]),
                  'normal', 'changed input')
        # Poisson up to the factorials
        f = np.exp(rng.uniform(-30, 12, size=n))
        y = rng.poisson(np.minimum(f, 1e6)).astype(
            gen.pick(rng, float, int))
        if rng.rand() < .3:
            y[:] = 0
        u = rng.rand()
        if u < .2:
            f[rng.rand(n) < .5] = 0.
        elif u < .3:
            f[:] = 0.
        elif u < .4:
            z = rng.rand(n) < .5
            f[z], y[z] = 0., 0
        elif u < .5:
            f[rng.rand(n) < .3] = np.inf
        keep = y.copy(), f.copy()
        got = log_likelihood_glm('poisson', y, f)
        if np.any((f == 0) & (y > 0)) or np.isinf(f).any():
            rec.count('impossible')
            rec.check(got == -np.inf, 'poisson', 'impossible counts have '
                      'likelihood %r' % got, y=y, f=f)
        else:
            tot = size = D(0)
            for a, b in zip(y, f):
                t = -dec(b)
                if a:
                    s = CTX.multiply(dec(a), CTX.ln(dec(b)))
                    t = CTX.add(t, s)
                    size = CTX.add(size, abs(s))
                size = CTX.add(size, dec(b))
                tot = CTX.add(tot, t)
            rec.check(math.isfinite(got) and abs(CTX.subtract(
                D(float(got)), CTX.divide(tot, D(n)))) <= D(1e-14) * size
                + D(1e-300), 'poisson', 'Poisson log-likelihood %r, not %.17g'
                % (got, CTX.divide(tot, D(n))), y=y, f=f)
        rec.check(np.array_equal(y, keep[0]) and np.array_equal(f, keep[1]),
                  'poisson', 'changed input')
    for name in ('binomial', '', None, 'Normal', 'gamma'):
        try:
            v = log_likelihood_glm(name, np.ones(3), np.ones(3))
        except ValueError:
            continue
        rec.fail('likelihood', 'model %r accepted: %r' % (name, v))
    rec.seen('likelihood', case['seed'])


def run_criteria(case, rec):
    from pyuoi.utils import AIC, AICc, BIC
    rng = np.random.RandomState(case['seed'])
    for i in range(400):
        n = int(gen.pick(rng, 1, 2, 3, 10, 50, 1000, 10 ** 6))
        k = int(gen.pick(rng, 0, 1, 2, n - 2, n - 1, n, n + 1, 5, 40, 300))
        k = max(k, 0)
        ll = float(rng.randn() * 10. ** rng.uniform(-8, 8))
        if rng.rand() < .1:
            ll = 0.
        args = (ll, k, n)
        if rng.rand() < .5:
            args = (np.float64(ll), np.int64(k), np.int64(n))
        rec.count('criteria', 3)
        L, K, N = D(ll), D(k), D(n)
        aic = 2 * K - 2 * L
        bic = CTX.subtract(CTX.multiply(K, CTX.ln(N)), 2 * L)
        size = abs(2 * L) + 2 * K
        tol = float(size) * 1e-15
        rec.check(close(AIC(*args[:2]), aic, 0, tol), 'aic',
                  'AIC(%r, %r) = %r' % (ll, k, AIC(*args[:2])))
        rec.check(close(BIC(*args), bic, 0, 1e-15 * float(
            abs(2 * L) + K * CTX.ln(N))), 'bic',
            'BIC%r = %r, not %.17g' % ((ll, k, n), BIC(*args), bic))
        exact = aic
        if n > k + 1:
            extra = CTX.divide(2 * (K * K + K), N - K - 1)
            exact = CTX.add(aic, extra)
            tol += float(extra) * 1e-15
        rec.check(close(AICc(*args), exact, 0, tol), 'aicc',
                  'AICc%r = %r, not %.17g' % ((ll, k, n), AICc(*args),
                                              exact))
    for v in (np.inf, -np.inf):
        rec.check(AIC(v, 3) == -v and BIC(v, 3, 10) == -v
                  and AICc(v, 3, 10) == -v, 'aic', 'infinite likelihood')
    rec.seen('criteria', case['seed'])


# --------------------------------------------------------------------------

def denoted(x, n):
    """(values a setting may be converted to, must it be refused?)"""
    if isinstance(x, float):
        if not math.isfinite(x):
            return set(), 'refuse'
        t = fractions.Fraction(x) * n
        near = round(t)
        off = abs(t - near)
        # k / n denotes k, whatever its rounding
        opts = ({near} if off < n * 1e-15 else {near, math.floor(t)}
                if off < 2e-9 else {math.floor(t)})
        if x > 1:
            return set(), 'refuse'
    else:
        opts = {int(x)}
    ok = {v for v in opts if 1 <= v <= n}
    return ok, ('refuse' if not ok else 'either' if opts - ok else 'accept')


def setting(rng, n):
    u = rng.rand()
    if u < .3:
        return int(rng.randint(1, n + 1))
    if u < .6:
        return float(rng.uniform(1. / n, 1))
    if u < .75:
        # ratios that do not multiply back exactly
        return float(rng.randint(1, n + 1) / n)
    if u < .8:
        return gen.pick(rng, 1., 1. / n, .9999999, .5)
    return gen.pick(rng, 0, n + 1, -1, n + 7, -n, 0., 1. + 1. / n,
                    1.0000001, 1.5, float(n), -.5, .5 / n, -1.,
                    float('nan'), float('inf'), 2., 1e300, -1e300)


def attempt(f, *a):
    try:
        with np.errstate(all='ignore'):
            return 'accept', f(*a)
    except ValueError as e:
        return 'refuse', e


def run_settings(case, rec):
    from pyuoi.linear_model.utils import stability_selection_to_threshold \
        as many
    from pyuoi.decomposition.utils import stability_selection_to_threshold \
        as one
    rng = np.random.RandomState(case['seed'])
    for i in range(250):
        n = int(gen.pick(rng, 1, 2, 3, 7, 10, 24, 48, 49, 100, 100))
        x = setting(rng, n)
        ok, verdict = denoted(x, n)
        for f in (many, one):
            rec.count('settings')
            got, val = attempt(f, x, n)
            rec.count('settings_rejected', got == 'refuse')
            if verdict != 'either':
                rec.check(got == verdict, 'setting', '%s: stability %r of '
                          '%d bootstraps: %s instead of %s (%r)' % (
                              f.__module__, x, n, got, verdict, val))
            if got == 'accept':
                v = np.asarray(val)
                rec.check(v.size == 1 and v.dtype.kind in 'iu'
                          and int(v.ravel()[0]) in ok, 'setting',
                          '%s: stability %r of %d bootstraps became %r' % (
                              f.__module__, x, n, val))
        # several settings
        m = int(rng.randint(1, 5))
        if rng.rand() < .6:
            xs = [float(rng.uniform(1. / n, 1)) for _ in range(m)]
        else:
            xs = [int(rng.randint(1, n + 1)) for _ in range(m)]
        if rng.rand() < .4:
            j = rng.randint(m)
            bad = setting(rng, n)
            xs[j] = type(xs[0])(bad) if isinstance(xs[0], float) or (
                isinstance(bad, int)) else n + 1
        ver = [denoted(v, n) for v in xs]
        want = ('refuse' if any(v[1] == 'refuse' for v in ver) else
                'either' if any(v[1] == 'either' for v in ver) else 'accept')
        arg = xs if rng.rand() < .5 else np.array(xs)
        keep = list(xs)
        rec.count('settings')
        got, val = attempt(many, arg, n)
        rec.count('settings_rejected', got == 'refuse')
        if want != 'either':
            rec.check(got == want, 'settings', 'stabilities %r of %d '
                      'bootstraps: %s instead of %s (%r)' % (
                          arg, n, got, want, val))
        if got == 'accept':
            v = np.asarray(val)
            rec.check(v.shape == (m,) and v.dtype.kind in 'iu' and all(
                int(a) in o for a, (o, _) in zip(v, ver)), 'settings',
                'stabilities %r of %d bootstraps became %r' % (arg, n, val))
        rec.check(list(arg) == keep or any(x != x for x in keep), 'settings',
                  'the list of stabilities changed: %r' % (arg,))
    for x in (None, 'all', '0.5', {}, {3}, 2 + 1j, object(), [1, .5],
              [.5, 1], ['a'], [None], np.array(['a', 'b']),
              np.array([True, False]), np.array([None, 1]),
              np.array([1j]), [.5, None], [1, '2']):
        for f in (many, one):
            rec.count('settings')
            got, val = attempt(f, x, 10)
            rec.count('settings_rejected', got == 'refuse')
            rec.check(got == 'refuse', 'setting-kind', '%s: stability %r '
                      'accepted as %r' % (f.__module__, x, val))
    for x in ([1, 2], [.5], np.array([1]), np.array([.5, .6])):
        rec.check(attempt(one, x, 10)[0] == 'refuse', 'setting-kind',
                  'several stabilities accepted for one')
    rec.seen('settings', case['seed'])


def run_models(case, rec):
    """The settings as the models use them."""
    from harness import uoi
    from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet,
                                    UoI_L1Logistic, UoI_Poisson)
    from pyuoi.decomposition import UoI_CUR
    rng = np.random.RandomState(case['seed'])
    X = rng.randn(24, 3)
    b = np.array([1., -1., 0.])
    for i in range(60):
        cls = gen.pick(rng, UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic,
                       UoI_Poisson, UoI_CUR)
        n = int(gen.pick(rng, 2, 3, 5))
        x = setting(rng, n)
        ok, verdict = denoted(x, n)
        if verdict == 'either':
            continue
        rec.count('model_settings')

        def go():
            with uoi.quiet():
                if cls is UoI_CUR:
                    m = cls(n_boots=n, max_k=2, boots_frac=.9, stability_selection=x,
                            random_state=1)
                    m.fit(X)
                    return m
                m = cls(n_boots_sel=n, n_boots_est=2, stability_selection=x,
                        random_state=1)
                y = X @ b
                if cls is UoI_L1Logistic:
                    y = (y + rng.randn(24) > 0).astype(int)
                elif cls is UoI_Poisson:
                    y = rng.poisson(np.exp(.3 * y))
                m.n_lambdas = 3
                return m.fit(X, y)
        got, val = attempt(go)
        # a model's representation is not always available
        shown = val if got == 'refuse' else ''
        rec.check(got == verdict, 'model-setting', '%s: stability %r of %d '
                  'bootstraps: %s instead of %s (%r)' % (
                      cls.__name__, x, n, got, verdict, shown))
        th = getattr(val, 'selection_thresholds_', None)
        if got == 'accept' and th is not None:
            rec.check(int(np.ravel(th)[0]) in ok, 'model-setting',
                      '%s: stability %r of %d bootstraps became %r' % (
                          cls.__name__, x, n, th))
    rec.seen('models', case['seed'])


def run_dissimilarity(case, rec):
    from pyuoi.decomposition.utils import dissimilarity
    rng = np.random.RandomState(case['seed'])
    for i in range(120):
        k, p = int(rng.randint(1, 7)), int(rng.randint(1, 9))

        def bases():
            H = rng.rand(k, p)
            if rng.rand() < .5:
                H *= rng.rand(k, p) < .5
            if rng.rand() < .2:
                H[rng.randint(k)] = 0.
            if rng.rand() < .3:
                H *= 10. ** rng.uniform(-60, 60, size=(k, 1))
            return H
        H1, H2 = bases(), bases()
        if rng.rand() < .1:
            H1[:] = 0.
        if rng.rand() < .2:
            H1 = np.asfortranarray(H1)
        keep = H1.copy(), H2.copy()
        d = float(dissimilarity(H1, H2))
        rec.count('dissimilarities')
        rec.check(np.array_equal(H1, keep[0]) and np.array_equal(
            H2, keep[1]), 'dissimilarity', 'changed input')
        rec.check(math.isfinite(d) and -1e-12 <= d <= 1 + 1e-12, 'range',
                  'dissimilarity %r' % d, H1=H1, H2=H2)
        e = float(dissimilarity(H2, H1))
        rec.check(abs(d - e) < 1e-12, 'symmetry', 'dissimilarity %r one way, '
                  '%r the other' % (d, e), H1=H1, H2=H2)
        # definition

        def unit(H):
            H = [[D(float(v)) for v in r] for r in H]
            out = []
            for r in H:
                s = D(0)
                for v in r:
                    s = CTX.add(s, CTX.multiply(v, v))
                s = CTX.sqrt(s)
                out.append([CTX.divide(v, s) if s else D(0) for v in r])
            return out
        A, B = unit(H1), unit(H2)
        C = np.array([[float(sum(CTX.multiply(u, v) for u, v in zip(a, b)))
                       for b in B] for a in A])
        exact = 1 - (C.max(axis=0).sum() + C.max(axis=1).sum()) / (2. * k)
        rec.check(abs(d - exact) < 1e-12, 'dissimilarity', 'dissimilarity '
                  '%r, not %r' % (d, exact), H1=H1, H2=H2)
        # equal up to order and scale
        H = rng.rand(k, p) + .01
        H *= rng.rand(k, p) < .7
        H[np.arange(k), rng.randint(p, size=k)] += .5
        G = H[rng.permutation(k)] * 10. ** rng.uniform(-40, 40, size=(k, 1))
        rec.count('equal_bases', 2)
        for a, b in ((H, G), (G, H), (H, H.copy()), (H, H)):
            v = float(dissimilarity(a, b))
            rec.check(abs(v) < 1e-12, 'equal', 'equal bases differ by %r' % v,
                      H=a, G=b)
    rec.seen('dissimilarity', case['seed'])


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)
