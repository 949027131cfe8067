import contextlib
import io

import numpy as np

from harness import gen

PROPERTY = 'C26'
RULE = ('Each case gives the path-wise Lasso wrapper a standardized design '
        'and a list of strengths (one to forty, in any order, repeated, '
        'above the null strength, any container) and judges every returned '
        'coefficient vector by the Lasso optimality conditions of its own '
        'strength, computed independently; the response is also rescaled and '
        'the strengths permuted and split over several fits of one object. '
        'Misuse must raise and leave the object unfitted. Non-trivial: a '
        'distinct path with a nonzero solution.')
ASSUMPTIONS = ['pycasso stops on the change of its objective, so optimality '
               'residuals are bounded in proportion to the square root of '
               'the tolerance.',
               'pycasso prints to standard output; the output is discarded.']
REQUIRED = {'paths': 500, 'strengths': 4000, 'predictions': 500,
            'unordered': 120, 'short_lists': 120, 'sweeps': 80, 'misuse': 300,
            'refits': 100, 'zero_solutions': 300}
CASE_TIMEOUT = 120


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for i in range(1200 * t):
        rng = np.random.RandomState([seed, i, 26])
        out.append(dict(
            what='path', seed=int(rng.randint(1 << 30)), name='c26-%d' % i,
            order=gen.pick(rng, 'dec', 'inc', 'rand', 'rand', 'one', 'two',
                           'repeat', 'above', 'all-above'),
            tol=float(gen.pick(rng, 1e-4, 1e-7, 1e-8, 1e-9, 1e-10)),
            rho=float(gen.pick(rng, 0., 0., .5, .9)),
            wide=bool(rng.rand() < .15),
            holder=gen.pick(rng, 'array', 'list', 'tuple', 'float32',
                            'strided'),
            layout=gen.pick(rng, 'C', 'F', 'readonly', 'strided')))
    for i in range(60 * t):
        out.append(dict(what='misuse', name='c26misuse%d' % i, seed=int(
            np.random.RandomState([seed, i, 261]).randint(1 << 30))))
    return out


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def design(rng, n, p, rho):
    X = rng.randn(n, p) * np.sqrt(1 - rho) + np.sqrt(rho) * rng.randn(n, 1)
    X = X - X.mean(axis=0)
    return X / X.std(axis=0)


def residual(X, y, b, b0, a):
    """(distance from optimality, mean residual)."""
    r = y - X.dot(b) - b0
    g = X.T.dot(r) / len(y)
    v = np.where(b != 0, np.abs(g - a * np.sign(b)),
                 np.maximum(np.abs(g) - a, 0))
    return v.max(), abs(r.mean())


def strengths(rng, top, order):
    k = int(rng.randint(3, 41 if rng.rand() < .2 else 12))
    al = top * np.exp(rng.uniform(np.log(2e-3), 0, k))
    if order == 'dec':
        al = np.sort(al)[::-1]
    elif order == 'inc':
        al = np.sort(al)
    elif order == 'one':
        al = al[:1]
    elif order == 'two':
        al = al[:2]
    elif order == 'repeat':
        al = np.repeat(al, rng.randint(1, 4, k))
    elif order == 'above':
        al = rng.permutation(np.append(al, top * rng.uniform(1.01, 5, 2)))
    elif order == 'all-above':
        al = top * rng.uniform(1.01, 5, k)
    return np.array(al)


def judge(rec, what, X, y, al, coef, icpt, tol, top, hard=True):
    al = np.asarray(al, dtype=float)
    coef, icpt = np.asarray(coef), np.asarray(icpt)
    if not rec.check(coef.shape == (al.size, X.shape[1])
                     and icpt.shape == (al.size,), 'shape',
                     '%s: %r coefficients and %r intercepts for %d strengths'
                     % (what, coef.shape, icpt.shape, al.size)):
        return
    # at the default tolerance pycasso may stop after one sweep
    bound = top * (3. if tol > 1e-5 else min(
        .4, (600 if hard else 60) * np.sqrt(tol)))
    for i, a in enumerate(al):
        rec.count('strengths')
        v, r = residual(X, y, coef[i], icpt[i], a)
        rec.check(v <= bound, 'optimality', '%s: strength %d of %d (%.3g of '
                  'the null strength) is %.2g of it from optimal (allowed '
                  '%.2g)' % (what, i, al.size, a / top, v / top,
                             bound / top))
        rec.check(r <= 1e-7 * (np.abs(y).max() + top), 'intercept',
                  '%s: mean residual %.3g at strength %d' % (what, r, i))
        if a > top * (1 + 1e-6):
            rec.count('zero_solutions')
            rec.check(not coef[i].any(), 'zero', '%s: nonzero coefficients '
                      'above the null strength' % what)


def run(case, rec):
    if case['what'] == 'misuse':
        return run_misuse(case, rec)
    from pyuoi.linear_model import UoI_Lasso
    from pyuoi.linear_model.lasso import PycLasso
    rng = np.random.RandomState(case['seed'])
    tol = case['tol']
    n, p = int(rng.randint(20, 150)), int(rng.randint(1, 30))
    if case['wide']:
        n, p = int(rng.randint(12, 30)), int(rng.randint(30, 50))
    X = design(rng, n, p, case['rho'])
    b = rng.randn(p) * (rng.rand(p) < .4)
    y = X.dot(b) + .5 * rng.randn(n) + gen.pick(rng, 0., 3., -20.)
    y *= np.exp(rng.uniform(-4, 4))
    top = np.abs(X.T.dot(y - y.mean())).max() / n
    al = strengths(rng, top, case['order'])
    given = al
    if case['holder'] == 'float32':
        given = al.astype('float32')
        al = given.astype(float)
    elif case['holder'] in ('list', 'tuple'):
        given = (list if case['holder'] == 'list' else tuple)(al.tolist())
    elif case['holder'] == 'strided':
        given = np.repeat(al, 2)[::2]
    Xf = X
    if case['layout'] == 'F':
        Xf = np.asfortranarray(X)
    elif case['layout'] == 'strided':
        Xf = np.repeat(X, 2, axis=1)[:, ::2]
    elif case['layout'] == 'readonly':
        Xf = X.copy()
        Xf.flags.writeable = False
    keep = Xf.copy(), y.copy(), np.array(given)
    what = 'n=%d p=%d %s tol=%g' % (n, p, case['order'], tol)

    with quiet():
        m = PycLasso(alphas=given, tol=tol, max_iter=20000)
        r = m.fit(Xf, y)
    rec.count('paths')
    rec.count('short_lists', len(al) < 3)
    rec.count('unordered', bool(np.any(np.diff(al) > 0)))
    rec.check(r is m, 'fit', '%s: fit returned %r' % (what, type(r)))
    rec.check(np.array_equal(Xf, keep[0]) and np.array_equal(y, keep[1])
              and np.array_equal(given, keep[2]), 'input',
              '%s: the arguments changed' % what)
    judge(rec, what, X, y, al, m.coef_, m.intercept_, tol, top,
          case['rho'] > 0 or case['wide'])
    coef, icpt = np.array(m.coef_), np.array(m.intercept_)

    Z = rng.randn(int(rng.randint(1, 40)), p) * 2 + 1
    pr = np.asarray(m.predict(Z))
    rec.count('predictions')
    exp = Z.dot(coef.T) + icpt
    rec.check(pr.shape == (len(Z), len(al)) and np.allclose(
        pr, exp, rtol=1e-10, atol=1e-10 * np.abs(y).max()), 'predict',
        '%s: predictions %r' % (what, pr.shape))

    # another list of strengths for the same object, on other data
    if rng.rand() < .5:
        rec.count('refits')
        X2 = design(rng, int(rng.randint(20, 80)), int(rng.randint(1, 12)),
                    0.)
        y2 = X2.dot(rng.randn(X2.shape[1])) + rng.randn(len(X2)) + 5
        top2 = np.abs(X2.T.dot(y2 - y2.mean())).max() / len(y2)
        al2 = strengths(rng, top2, gen.pick(rng, 'dec', 'rand', 'one',
                                            'two'))
        with quiet():
            m.set_params(alphas=al2)
            m.fit(X2, y2)
        rec.count('paths')
        judge(rec, what + ' refit', X2, y2, al2, m.coef_, m.intercept_, tol,
              top2)
        Z2 = rng.randn(3, X2.shape[1])
        rec.count('predictions')
        rec.check(np.allclose(m.predict(Z2), Z2.dot(np.transpose(m.coef_)) +
                              m.intercept_, rtol=1e-9, atol=1e-9), 'predict',
                  '%s: predictions after a refit' % what)
    # one by one
    if rng.rand() < .3:
        for i in rng.permutation(len(al))[:3]:
            with quiet():
                s = PycLasso(alphas=al[i:i + 1], tol=tol, max_iter=20000)
                s.fit(X, y)
            rec.count('paths')
            rec.count('short_lists')
            judge(rec, what + ' single', X, y, al[i:i + 1], s.coef_,
                  s.intercept_, tol, top)
    # the selection sweep of UoI Lasso
    if rng.rand() < .5:
        u = UoI_Lasso(solver='pyc', tol=tol, max_iter=20000,
                      standardize=bool(rng.rand() < .5))
        with quiet():
            c = u.uoi_selection_sweep(X, y, [{'alpha': a} for a in al])
        rec.count('sweeps')
        judge(rec, what + ' sweep', X, y, al, c,
              np.full(len(al), y.mean()), tol, top)
    if coef.any():
        rec.seen(case['order'], case['tol'], case['rho'], n, p,
                 case['seed'])
    rec.sample = dict(what=what, nonzero=int(np.count_nonzero(coef)))


def raises(rec, what, f, *types):
    rec.count('misuse')
    try:
        with quiet():
            f()
    except types:
        return
    except Exception as e:
        rec.fail('misuse', '%s raised %s: %s' % (what, type(e).__name__, e))
        return
    rec.fail('misuse', '%s was accepted' % what)


def run_misuse(case, rec):
    from sklearn.exceptions import NotFittedError
    from pyuoi.linear_model import UoI_Lasso
    from pyuoi.linear_model import lasso
    PycLasso = lasso.PycLasso
    rng = np.random.RandomState(case['seed'])
    n, p = int(rng.randint(20, 60)), int(rng.randint(1, 8))
    X = design(rng, n, p, 0.)
    y = X.dot(rng.randn(p)) + rng.randn(n)
    al = np.sort(rng.uniform(.01, .5, int(rng.randint(1, 7))))[::-1]
    raises(rec, 'no intercept', lambda: PycLasso(
        alphas=al, fit_intercept=False), ValueError)
    raises(rec, 'UoI without intercept', lambda: UoI_Lasso(
        solver='pyc', fit_intercept=False), ValueError)
    m = PycLasso(alphas=al)
    raises(rec, 'predict before fit', lambda: m.predict(X), NotFittedError)
    m = PycLasso()
    raises(rec, 'predict before fit', lambda: m.predict(X), NotFittedError)
    raises(rec, 'fit without strengths', lambda: m.fit(X, y), Exception)
    raises(rec, 'predict after a refused fit', lambda: m.predict(X),
           NotFittedError)
    m.set_params(alphas=al)
    raises(rec, 'predict before fit', lambda: m.predict(X), NotFittedError)
    m.set_params(fit_intercept=False)
    raises(rec, 'fit without intercept', lambda: m.fit(X, y), ValueError)
    raises(rec, 'predict after a refused fit', lambda: m.predict(X),
           NotFittedError)
    m.set_params(fit_intercept=True)
    for name in ('alpha', 'lambdas', 'penalty', 'coef_'):
        raises(rec, 'setting %s' % name, lambda: m.set_params(**{name: al}),
               ValueError)
    raises(rec, 'a response of another length', lambda: m.fit(X, y[:-1]),
           Exception)
    raises(rec, 'predict after a failed fit', lambda: m.predict(X),
           NotFittedError)
    # the solver itself fails
    class Broken(Exception):
        pass

    def broken(*a, **k):
        raise Broken
    train = lasso.pycasso.Solver.train
    lasso.pycasso.Solver.train = broken
    try:
        try:
            with quiet():
                m.fit(X, y)
        except Broken:
            raises(rec, 'predict after the solver failed',
                   lambda: m.predict(X), NotFittedError)
    finally:
        lasso.pycasso.Solver.train = train
    # none of it keeps the object from working
    with quiet():
        m.set_params(max_iter=5000)
        m.fit(X, y)
    top = np.abs(X.T.dot(y - y.mean())).max() / n
    rec.count('paths')
    judge(rec, 'after misuse', X, y, al, m.coef_, m.intercept_, 1e-4, top)
    rec.count('predictions')
    rec.check(np.shape(m.predict(X)) == (n, len(al)), 'predict',
              'predictions %r' % (np.shape(m.predict(X)),))
    have = lasso.pycasso
    lasso.pycasso = None
    try:
        raises(rec, 'solver without pycasso', lambda: UoI_Lasso(
            solver='pyc'), ImportError)
        UoI_Lasso(solver='cd')
    finally:
        lasso.pycasso = have
    rec.seen('misuse', case['seed'])
