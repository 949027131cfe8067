import numpy as np

from harness import gen

PROPERTY = 'C18'
RULE = ('Each case fits the Poisson GLM with both solvers (penalty strength '
        'and mix, sample weights, standardization, intercept, integer '
        'designs, warm starts after other fits including degenerate ones) '
        'and evaluates the optimality conditions of the documented elastic '
        'net objective at both returned points with independently computed '
        'gradients. The two solutions, their objective values and their '
        'predictions are compared, predictions are recomputed, and constant '
        'responses must give the intercept-only model. Non-trivial: a '
        'nonzero coefficient or an exact zero under an L1 penalty.')
ASSUMPTIONS = ['Solvers are run to a tight tolerance on data whose linear '
               'predictors do not overflow.',
               'Runs in which L-BFGS announces an early stop are counted and '
               'skipped; at most 2 % of the runs may do so.']
REQUIRED = {'optima_lbfgs': 600, 'optima_cd': 600, 'pairs': 600,
            'exact_zeros': 450, 'warm_starts': 900, 'constants': 150,
            'weighted': 850, 'predictions': 120000}


def cases(tier, seed):
    t = 1 if tier == 'quick' else 14
    out = []
    for i in range(900 * t):
        rng = np.random.RandomState([seed, i, 18])
        d = dict(seed=int(rng.randint(1 << 30)), n=int(rng.randint(30, 150)),
                 p=int(rng.randint(1, 9)), strength=.8, kind='pois',
                 corr=float(gen.pick(rng, 0., .5)),
                 b0=float(rng.uniform(-1, 2)))
        std = bool(rng.rand() < .35)
        fi = bool(rng.rand() < .75)
        if rng.rand() < .4:
            d.update(loc=float(gen.pick(rng, 0., .5, 2.)) if fi else 0.,
                     scale=float(gen.pick(rng, .5, 1.5)), scale_spread=.4)
        lr = float(gen.pick(rng, 0., .2, .5, .9, 1., 1.))
        if fi and rng.rand() < .2:
            # counts in the hundreds and thousands
            d.update(b0=float(rng.uniform(3, 8)), cap=9.)
        many = i % 60 == 59
        if many:
            # dozens of features
            d.update(n=int(rng.randint(150, 220)), p=int(rng.randint(42, 60)),
                     b0=.5, corr=0., strength=.25)
            fi, lr = True, float(gen.pick(rng, 0., .1, .5))
        elif i % 60 == 29:
            d['n'] = int(rng.randint(600, 3000))
        out.append(dict(
            data=d, name='c18-%d' % i,
            params=dict(alpha=.03 if many else 0. if rng.rand() < .1 else
                        float(np.exp(rng.uniform(-6, 0))),
                        l1_ratio=lr, fit_intercept=fi, standardize=std,
                        tol=1e-9, max_iter=20000),
            sw=gen.pick(rng, None, None, 'float', 'int', 'int0', 'tiny',
                        'heavy'),
            response=gen.pick(rng, *(['counts'] * 20 + ['zeros', 'const'] * 2 +
                                     ['rates'])),
            order=gen.pick(rng, 'C', 'C', 'F', 'view'),
            ints=bool(rng.rand() < .08),
            history=gen.pick(rng, None, None, None, 'penalty', 'rows',
                             'rows', 'weights', 'zeros', 'const'),
            vseed=int(rng.randint(1 << 30))))
    return out


def kkt(A, y, sw, w, b, alpha, lr, fi):
    from harness import uoi
    f, g, gb = uoi.pois_grad(A, y, w, b, sw)
    l1, l2 = alpha * lr, alpha * (1 - lr)
    r = g + l2 * w
    r = np.where(w != 0, r + l1 * np.sign(w),
                 np.sign(r) * np.maximum(np.abs(r) - l1, 0))
    if not fi:
        gb = 0.
    F = f + l1 * np.abs(w).sum() + l2 / 2 * (w ** 2).sum()
    return r, gb, F


def fit(m, X, y, **kw):
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        m.fit(X, y, **kw)
    return not any('line-search' in str(i.message) or
                   'iterations' in str(i.message) or
                   'rounding' in str(i.message) for i in w)


def solve(case, solver, X, Xf, y, sw, rec, budget=1):
    from pyuoi.linear_model.poisson import Poisson
    P = case['params']
    alpha, lr, fi = P['alpha'], P['l1_ratio'], P['fit_intercept']
    n, h = X.shape[0], case['history']
    m = Poisson(solver=solver, warm_start=h is not None,
                **dict(P, tol=1e-7 if solver == 'lbfgs' else 1e-9,
                       max_iter=P['max_iter'] * budget))
    if h is not None:
        hr = np.random.RandomState(case['vseed'] % 1000)
        idx = np.arange(n)
        yh, kh = y, {}
        if h == 'penalty':
            m.alpha, m.l1_ratio = alpha * 2 + .05, .5
        elif h == 'rows':
            idx = hr.permutation(n)[:max(2 * n // 3, 20)]
            m.alpha = alpha + .05
        elif h == 'weights':
            kh['sample_weight'] = hr.uniform(.2, 3., n)
        elif h == 'zeros':
            yh = np.zeros(n)
        elif h == 'const':
            yh = np.full(n, 3.)
        if h != 'zeros' or fi or alpha > 0:
            fit(m, X[idx], yh[idx], **kh)
            m.alpha, m.l1_ratio = alpha, lr
            rec.count('warm_starts')
    return m, fit(m, Xf, y, **({} if sw is None else dict(sample_weight=sw)))


def run(case, rec):
    from harness import uoi
    X, y = uoi.dataset(case['data'])
    rng = np.random.RandomState(case['vseed'])
    n, p = X.shape
    if case['ints']:
        X = np.clip(np.round(X), -3, 3).astype(int)
    if case['response'] == 'zeros':
        y = np.zeros(n)
    elif case['response'] == 'const':
        y = np.full(n, float(rng.randint(1, 9)))
    elif case['response'] == 'rates':
        # responses in a large unit
        y = y * 1e-4
        case['params'].update(alpha=case['params']['alpha'] * 1e-5)
    P = case['params']
    alpha, lr, fi = P['alpha'], P['l1_ratio'], P['fit_intercept']
    if case['response'] == 'rates' and not fi:
        return
    if np.any(np.std(X, axis=0) == 0):
        return
    if not fi and (np.abs(X).max() > 8 or case['response'] == 'zeros'):
        # no optimum, or exponentials that overflow, without an intercept
        if alpha == 0 or case['response'] != 'zeros':
            return
    sw = {None: None, 'float': rng.uniform(.2, 3., n),
          'int': rng.randint(1, 4, n), 'int0': rng.randint(0, 3, n),
          'tiny': rng.uniform(.5, 2, n),
          'heavy': np.where(rng.rand(n) < .05, rng.uniform(50, 300, n), 1.)
          }[case['sw']]
    eff = np.ones(n) if sw is None else sw.astype(float)
    constant = fi and np.unique(y).size == 1
    mean, scale = np.zeros(p), np.ones(p)
    if P['standardize']:
        scale = X.std(axis=0)
        if fi:
            mean = X.mean(axis=0)
    A = (X - mean) / scale
    if not constant and p >= np.sum(eff > 0) // 3 and alpha < 1e-2:
        return
    Xf = X
    if case['order'] == 'F':
        Xf = np.asfortranarray(X)
    elif case['order'] == 'view':
        big = np.zeros((2 * n, p + 1), dtype=X.dtype)
        big[::2, 1:] = X
        Xf = big[::2, 1:]
    sols = {}
    for solver in ('lbfgs', 'cd'):
        m, ok = solve(case, solver, X, Xf, y, sw, rec)
        h = case['history']
        w, b = np.array(m.coef_, dtype=float), float(m.intercept_)
        if not rec.check(w.shape == (p,), 'shape', 'coef_ %s' % (w.shape,)):
            continue
        if constant:
            rec.count('constants')
            rec.check(np.all(w == 0), 'constant', 'nonzero coefficients',
                      coef=w)
            mu = m.predict_mean(X)
            rec.check(np.allclose(mu, y, rtol=1e-9, atol=0), 'constant',
                      'means %s for the constant %g' % (mu[:3], y[0]))
            continue
        if not fi:
            rec.check(b == 0, 'intercept', 'an intercept %g' % b)
        if not rec.check(np.all(np.isfinite(w)) and np.isfinite(b), 'finite',
                         'coef %s intercept %g, %s' % (w, b, solver),
                         history=h):
            continue
        mu = m.predict_mean(X)
        want = np.exp(X.dot(w) + b)
        rec.count('predictions', n)
        rec.check(np.allclose(mu, want, rtol=1e-9, atol=0), 'mean',
                  'means are not exp(X w + b)')
        pr = m.predict(X)
        rec.check(np.all((pr == np.floor(want)) |
                         (np.abs(want - np.round(want)) < 1e-9 * want)),
                  'mode', 'predictions are not the integer part of the mean')
        # far away, where the means are huge
        far = X * (min(60., 300 * P['fit_intercept'] + 30) /
                   (1e-9 + np.abs(X.dot(w)).max()))
        ef = far.dot(w) + b
        pf = m.predict(far)
        rec.check(np.all(np.abs(pf - np.floor(np.exp(ef))) <=
                         1 * (np.abs(np.exp(ef) - np.round(np.exp(ef))) <
                              1e-9 * np.exp(ef)) + 1e-9 * np.exp(ef)),
                  'mode', 'predictions far from the data are not the integer '
                  'part of the mean')
        rec.count('runs_%s' % solver)
        if not ok:
            rec.count('gave_up')
            continue
        wi, bi = w * scale, b + w.dot(mean)
        r, rb, F = kkt(A, y, eff, wi, bi, alpha, lr, fi)
        size = np.mean(eff * y) + np.mean(eff)
        lim = 2e-5
        if case['response'] == 'rates':
            size, lim = np.mean(eff * y), .1
        size_r = size * np.sqrt((A ** 2).mean(axis=0))
        res = max(np.max(np.abs(r) / size_r), abs(rb) / size)
        centred = P['standardize'] and fi
        if res > lim and solver == 'cd' and not centred:
            # coordinate descent stops silently at its iteration limit, which
            # features far from the origin can need: with a larger one, a run
            # which was still on its way moves on
            more, _ = solve(case, solver, X, Xf, y, sw, rec, 4)
            if np.any(more.coef_ != w) or more.intercept_ != b:
                rec.count('out_of_iterations')
                m, w, b = more, np.array(more.coef_), float(more.intercept_)
                wi, bi = w * scale, b + w.dot(mean)
                r, rb, F2 = kkt(A, y, eff, wi, bi, alpha, lr, fi)
                res2 = max(np.max(np.abs(r) / size_r), abs(rb) / size)
                rec.check(F2 <= F + 1e-9 * max(1, abs(F)) and
                          np.all(np.isfinite(w)), 'iterations',
                          'more iterations give a worse objective, %r after '
                          '%r' % (F2, F), history=h)
                if res2 > lim and res2 < .7 * res:
                    continue
                res, F = res2, F2
        rec.count('optima_' + solver)
        if sw is not None:
            rec.count('weighted')
        rec.check(res <= lim, 'optimality', 'relative residual %g, %s' % (
            res, solver), coef=r, intercept=rb, w=wi, b=bi, history=h)
        z = int(np.sum(w == 0))
        if alpha * lr > 0:
            rec.count('exact_zeros', z)
        sols[solver] = (wi, bi, F, z)
    if case['response'] == 'rates':
        rec.seen('rates', lr, P['standardize'], case['sw'])
    elif len(sols) == 2:
        a, c = sols['lbfgs'], sols['cd']
        rec.count('pairs')
        rec.check(abs(a[2] - c[2]) <= 1e-6 * max(1, abs(a[2])), 'agree',
                  'objectives %r and %r' % (a[2], c[2]))
        e = A.dot(a[0]) + a[1] - A.dot(c[0]) - c[1]
        rec.check(np.abs(e).max() <= 5e-3, 'agree', 'linear predictors '
                  'differ by %g' % np.abs(e).max())
        if a[3] or np.any(a[0]):
            rec.seen(lr, fi, P['standardize'], case['sw'], case['history'],
                     case['order'], a[3])
        rec.sample = dict(objective=a[2], coef=a[0], zeros=a[3])
    elif constant:
        rec.seen('constant', case['response'], case['history'],
                 P['standardize'])
