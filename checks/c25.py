import numpy as np

from harness import gen

PROPERTY = 'C25'
RULE = ('Every model is crossed with degenerate responses (constant, all '
        'zero, unrelated, orthogonal to every feature, a single class), '
        'degenerate features (constant, zero, duplicated, a single one, more '
        'than samples) and degenerate settings (one bootstrap, one strength, '
        'one support), solvers and options. A monitor records the learners\' '
        'fits and judges finiteness, shapes, the coefficients of constant '
        'features, and, when the recorded supports are empty, that the model '
        'is the best constant for the data it was given. Non-trivial: a '
        'distinct degenerate combination that was fitted.')
ASSUMPTIONS = ['All-zero counts fitted with an intercept are represented by '
               'an intercept of minus infinity, as the existing tests '
               'demand: the predicted mean is zero.',
               'Scores of perfect fits may be infinite, never NaN, and test '
               'sets hold at least two samples.']
REQUIRED = {'fits': 350, 'constant_models': 90, 'constant_features': 180,
            'empty_supports': 70, 'shapes': 350, 'learners': 300}
CASE_TIMEOUT = 120
CONDS = ('const', 'zeros', 'noise', 'orth', 'zero-features',
         'const-features', 'mixed', 'mixed', 'single', 'single-const',
         'single-zero', 'one-boot', 'one-all', 'wide', 'duplicate', 'null',
         'null', 'two-valued', 'nearly-const')
KINDS = ('lasso', 'pyc', 'en', 'bin', 'multi', 'pois', 'poiscd')


def cases(tier, seed):
    t = 1 if tier == 'quick' else 10
    out = []
    for cond in sorted(set(CONDS)):
        for kind in KINDS:
            for i in range((3 + 2 * (CONDS.count(cond) > 1)) * t):
                rng = np.random.RandomState(
                    [seed, i, 25, sum(map(ord, cond)), KINDS.index(kind)])
                out.append(make_case(rng, kind, cond, i))
    for i in range(12 * t):
        out.append(dict(kind='learner', seed=int(np.random.RandomState(
            [seed, i, 251]).randint(1 << 30)), name='c25learner%d' % i))
    return out


def make_case(rng, kind, cond, i):
    k = {'pyc': 'lasso', 'bin': 'logit', 'multi': 'logit',
         'poiscd': 'pois'}.get(kind, kind)
    m = gen.model_case(rng, k)
    P = m['model']['params']
    if kind == 'pyc':
        P.update(solver='pyc', fit_intercept=True, standardize=True)
    if kind in ('pois', 'poiscd'):
        P['solver'] = 'cd' if kind == 'poiscd' else 'lbfgs'
    if kind in ('bin', 'multi'):
        m['data']['kind'] = kind
        m['data']['k'] = int(rng.randint(3, 5))
        m['stratify'] = 'y'
        m['data']['n'] = max(60, m['data']['n'])
    P['n_boots_sel'] = int(rng.randint(2, 5))
    P['n_boots_est'] = int(rng.randint(2, 4))
    P['stability_selection'] = gen.stab(rng, P['n_boots_sel'])
    reg = 'n_C' if k == 'logit' else 'n_lambdas'
    P[reg] = min(P[reg], 5)
    if cond in ('one-boot', 'one-all'):
        P['n_boots_sel'] = P['n_boots_est'] = 1
        P['stability_selection'] = 1.
    if cond in ('one-all', 'null'):
        P[reg] = 1
        P['alphas'] = [1.] if k in ('en', 'pois') else None
        if P['alphas'] is None:
            del P['alphas']
    if cond == 'null':
        P['n_boots_sel'], P['stability_selection'] = 6, 1.
    m.update(kind=kind, cond=cond, seed=int(rng.randint(1 << 30)),
             name='c25%s-%s%d' % (kind, cond, i))
    return m


def data(c):
    """Features and response of a case; which features are constant."""
    from harness import uoi
    rng = np.random.RandomState(c['seed'])
    d = dict(c['data'])
    cond, kind = c['cond'], c['kind']
    X, y = uoi.dataset(d)
    X, y = np.array(X, dtype=float), np.array(y)
    n, p = X.shape
    const = np.zeros(p, dtype=bool)
    level = gen.pick(rng, 2.3, -7., 1e-3, 40., 1 / 3., 1e3)
    P = c['model']['params']
    if abs(level) > 10 and kind in ('pois', 'poiscd') and not (
            P['standardize'] and P['fit_intercept']):
        # the exponential of such a feature is beyond the solvers
        level = gen.pick(rng, 2.3, -7.)
    if cond in ('const', 'zeros'):
        if kind in ('bin', 'multi'):
            y = np.full(n, 0 if cond == 'zeros' else y.max())
        elif kind in ('pois', 'poiscd'):
            y = np.full(n, 0 if cond == 'zeros' else rng.randint(1, 9)
                        ).astype(y.dtype)
        else:
            y = np.full(n, 0. if cond == 'zeros' else level)
    elif cond in ('noise', 'null'):
        y = rng.permutation(y)
    elif cond == 'orth':
        # every row comes with its mirror image and the same response
        X = X - X.mean(axis=0)
        X = np.concatenate([X[:n // 2], -X[:n // 2]])
        y = np.concatenate([y[:n // 2]] * 2)
    elif cond == 'zero-features':
        X[:], const[:] = 0., True
    elif cond == 'const-features':
        X[:], const[:] = level, True
    elif cond == 'mixed':
        const = rng.rand(p) < .5
        const[rng.randint(p)] = True
        v = np.where(rng.rand(p) < .5, 0., level)
        X[:, const] = v[const]
    elif cond in ('single', 'single-const', 'single-zero'):
        X, const = X[:, :1], const[:1]
        if cond != 'single':
            X[:] = level if cond == 'single-const' else 0.
            const[:] = True
    elif cond == 'wide':
        q = n + int(rng.randint(1, 40))
        X = np.concatenate([X, rng.randn(n, q - p) * X.std()], axis=1)
        const = np.zeros(q, dtype=bool)
    elif cond == 'duplicate':
        X = X[:, rng.randint(p, size=p + 2)]
        const = np.zeros(p + 2, dtype=bool)
    elif cond == 'two-valued':
        X = (X > np.median(X, axis=0)).astype(float)
    elif cond == 'nearly-const' and kind not in ('bin', 'multi'):
        # all responses but one agree
        y = np.full(n, y[0])
        y[rng.randint(n)] += 1
    return X, y, const


def run(case, rec):
    if case['kind'] == 'learner':
        return run_learner(case, rec)
    from harness import uoi
    X, y, const = data(case)
    kind, cond = case['kind'], case['cond']
    P = dict(case['model']['params'])
    k = case['model']['kind']
    n, p = X.shape
    kw = {}
    if k == 'logit' and len(np.unique(y)) > 1:
        kw['stratify'] = y
    what = '%s, %s (%s)' % (kind, cond, ', '.join(
        '%s=%r' % (a, P[a]) for a in ('fit_intercept', 'standardize',
                                      'estimation_score', 'shared_support')
        if a in P))
    keep = X.copy(), y.copy()
    with uoi.quiet():
        m = uoi.make(k, **P)
        with uoi.Trace() as tr:
            r = m.fit(X, y, **kw)
    rec.count('fits')
    rec.count('learner_fits', len(tr.events))
    rec.check(r is m or r is None, 'fit', '%s: fit returned %r' % (
        what, type(r)))
    rec.check(np.array_equal(X, keep[0]) and np.array_equal(y, keep[1]),
              'input', '%s: the data changed' % what)
    classes = np.unique(y)
    K = len(classes)
    multi = k == 'logit' and (K > 2 or (K == 2 and P.get('multi_class') ==
                                        'multinomial'))
    rows = K if multi else 1
    if k == 'logit' and K == 1 and P.get('multi_class') == 'multinomial':
        rows = np.shape(m.coef_)[0]
    coef = np.asarray(m.coef_)
    icpt = np.asarray(m.intercept_, dtype=float)
    rec.count('shapes')
    rec.check(coef.shape == ((rows, p) if k == 'logit' else (p,))
              and icpt.size == rows, 'shape', '%s: coefficients %r, '
              'intercept %r' % (what, coef.shape, icpt.shape))
    zero_counts = k == 'pois' and not np.any(y) and P['fit_intercept']
    rec.check(np.isfinite(coef).all(), 'finite', '%s: coefficients %r' % (
        what, coef))
    rec.check(np.isfinite(icpt).all() or (zero_counts and icpt.size == 1 and
                                          icpt.ravel()[0] == -np.inf),
              'finite', '%s: intercept %r' % (what, icpt))
    sup = getattr(m, 'supports_', None)
    if K > 1 or (k != 'logit' and len(np.unique(y)) > 1):
        rec.check(sup is not None and len(sup) == m.n_supports_ and
                  len(sup) >= 1, 'shape', '%s: supports %r' % (
                      what, np.shape(sup)))
        S = len(sup)
        rec.check(np.shape(m.scores_) == (P['n_boots_est'], S)
                  and not np.isnan(m.scores_).any(), 'scores', '%s: scores '
                  '%r' % (what, m.scores_))
        rec.check(np.shape(m.estimates_)[:2] == (P['n_boots_est'], S)
                  and np.isfinite(m.estimates_).all(), 'estimates',
                  '%s: estimates not finite' % what)
    # features that say nothing
    C = coef.reshape(rows, p)
    if P['standardize'] and P['fit_intercept'] and const.any():
        rec.count('constant_features', const.sum())
        # up to the rounding of their centre
        rec.check(np.abs(C[:, const]).max() <= 1e-10, 'constant-feature', '%s: constant '
                  'features have coefficients %r' % (what, C[:, const]))
    zero = ~X.any(axis=0)
    if zero.any():
        rec.count('constant_features', zero.sum())
        bad = C.any(axis=0) & zero
        mech = 'zero-feature'
        if multi and not P['fit_intercept'] and not bad[:-1].any():
            mech = 'multinomial-no-intercept-last-zero-feature'
        rec.check(not bad.any(), mech, '%s: zero features have '
                  'coefficients %r' % (what, C[:, zero]))
    # nothing could be selected
    empty = sup is None or not np.any(sup)
    if empty:
        rec.count('empty_supports')
        rec.check(not coef.any(), 'empty', '%s: no support but coefficients '
                  '%r' % (what, coef))
    constant_y = len(np.unique(y)) == 1
    if constant_y:
        rec.check(not coef.any(), 'constant-response', '%s: coefficients %r '
                  'for a constant response' % (what, coef))
    if not coef.any():
        rec.count('constant_models')
        constant_model(rec, what, m, k, X, y, P, zero_counts, K)
    elif cond != 'wide':
        for f in ('predict', 'predict_mean', 'predict_proba'):
            if hasattr(m, f):
                rec.check(np.isfinite(np.asarray(
                    getattr(m, f)(X), dtype=float)).all(), 'finite',
                    '%s: %s not finite' % (what, f))
    rec.seen(kind, cond, P['fit_intercept'], P['standardize'],
             P.get('estimation_score'), rows, case['seed'])
    rec.sample = dict(what=what, nonzero=int(np.count_nonzero(coef)),
                      intercept=icpt.ravel()[:4])


def constant_model(rec, what, m, k, X, y, P, zero_counts, K):
    """Predictions of a model without coefficients."""
    Z = np.concatenate([X, X[::-1] * 3 + 1])
    pred = np.asarray(m.predict(Z))
    rec.check(pred.shape == (len(Z),) and len(np.unique(pred)) == 1,
              'constant', '%s: predictions %r' % (what, pred[:5]))
    if k in ('lasso', 'en'):
        best = y.mean() if P['fit_intercept'] else 0.
        rec.check(abs(pred[0] - best) <= 1e-9 * (1 + np.abs(y).max()),
                  'best-constant', '%s: predicts %r, not %r' % (
                      what, pred[0], best))
    elif k == 'pois':
        best = y.mean() if P['fit_intercept'] else 1.
        mu = np.asarray(m.predict_mean(Z))
        rec.check(np.allclose(mu, best, rtol=1e-4, atol=1e-9),
                  'best-constant', '%s: predicts a mean of %r, not %r' % (
                      what, mu[0], best))
        if abs(best - round(best)) > 1e-3 * (1 + best):
            rec.check(pred[0] == np.floor(best), 'best-constant', '%s: '
                      'predicts %r for a mean of %r' % (what, pred[0], best))
    elif K == 1:
        if P['fit_intercept']:
            rec.check(pred[0] == y[0], 'best-constant', '%s: predicts class '
                      '%r of the only class %r' % (what, pred[0], y[0]))
    else:
        cl, cnt = np.unique(y, return_counts=True)
        f = cnt / cnt.sum()
        prob = np.asarray(m.predict_proba(Z))
        best = f if P['fit_intercept'] else np.full(K, 1. / K)
        rec.check(prob.shape == (len(Z), K) and
                  np.allclose(prob, best, atol=1e-3), 'best-constant',
                  '%s: predicts probabilities %r, not %r' % (
                      what, prob[0], best))
        if P['fit_intercept'] and np.sort(f)[-1] - np.sort(f)[-2] > .02:
            rec.check(pred[0] == cl[f.argmax()], 'best-constant', '%s: '
                      'predicts %r, most frequent is %r' % (
                          what, pred[0], cl[f.argmax()]))


def run_learner(case, rec):
    """The learners and intercept-only fitters on their own."""
    from pyuoi.linear_model.poisson import (
        Poisson, PoissonInterceptFitterNoFeatures)
    from pyuoi.linear_model.logistic import (
        MaskedCoefLogisticRegression, LogisticInterceptFitterNoFeatures)
    from pyuoi.linear_model.base import LinearInterceptFitterNoFeatures
    rng = np.random.RandomState(case['seed'])
    for i in range(10):
        n, p = int(rng.randint(8, 50)), int(rng.randint(1, 6))
        X = rng.randn(n, p)
        sd = gen.pick(rng, True, False)
        solver = gen.pick(rng, 'lbfgs', 'cd')
        alpha = float(gen.pick(rng, 0., .05, 1.))
        l1 = float(gen.pick(rng, 1., .5, 0.))
        y = np.full(n, float(rng.randint(0, 5)))
        cond = gen.pick(rng, 'const', 'zero-col', 'const-col')
        what = 'Poisson(%s, alpha=%g, l1_ratio=%g, standardize=%s), %s' % (
            solver, alpha, l1, sd, cond)
        zcol = int(rng.randint(p))
        if cond != 'const':
            y = rng.poisson(np.exp(.4 * X[:, 0])).astype(float)
            X[:, zcol] = 0. if cond == 'zero-col' else 2.5
        m = Poisson(alpha=alpha, l1_ratio=l1, solver=solver, standardize=sd,
                    fit_intercept=True, max_iter=2000, tol=1e-6)
        m.fit(X, y)
        rec.count('learners')
        c = np.ravel(m.coef_)
        rec.check(c.shape == (p,) and np.isfinite(c).all(), 'learner',
                  '%s: coefficients %r' % (what, c))
        b = np.ravel(m.intercept_)
        if np.any(y):
            rec.check(np.isfinite(b).all(), 'learner', '%s: intercept %r' % (
                what, b))
        else:
            rec.check(not c.any() and b[0] == -np.inf, 'learner', '%s: all '
                      'zero counts give %r, %r' % (what, c, b))
        mu = np.asarray(m.predict_mean(X))
        if cond == 'const':
            rec.check(np.allclose(mu, y, rtol=.02, atol=1e-9), 'learner',
                      '%s: constant counts %r predicted as %r' % (
                          what, y[0], mu[:3]))
        elif cond == 'zero-col':
            rec.check(c[zcol] == 0, 'learner', '%s: zero feature has '
                      'coefficient %r' % (what, c[zcol]))
    for i in range(20):
        n = int(rng.randint(1, 30))
        if i % 4 == 0:
            # rare counts and classes
            n = int(rng.randint(300, 3000))
        y = rng.randn(n) * 10
        f = LinearInterceptFitterNoFeatures(y)
        rec.count('learners')
        r = f.predict(np.zeros((4, 0)))
        rec.check(np.shape(r) == (4,) and np.allclose(r, y.mean()),
                  'intercept-only', 'linear: %r' % (r,))
        yc = rng.poisson(rng.exponential() * gen.pick(rng, 1., 1., 1. / n,
                                                      1e4), n)
        f = PoissonInterceptFitterNoFeatures(yc)
        r = np.asarray(f.predict_mean(np.zeros((4, 0))))
        rec.check(np.allclose(r, yc.mean()), 'intercept-only',
                  'Poisson: %r, not %r' % (r, yc.mean()))
        r = np.asarray(f.predict(np.zeros((4, 0))))
        if abs(yc.mean() - round(yc.mean())) > 1e-9:
            rec.check(np.all(r == np.floor(yc.mean())), 'intercept-only',
                      'Poisson mode: %r for %r' % (r, yc.mean()))
        K = int(rng.randint(1, 5))
        yl = rng.randint(0, max(K, 2), n)
        if i % 4 == 0:
            yl = (max(K, 2) - 1) * (rng.rand(n) < 2. / n)
        f = LogisticInterceptFitterNoFeatures(yl, 1 if K <= 2 else K)
        pr = np.asarray(f.predict_proba(np.zeros((4, 2))))
        rec.check(np.isfinite(f.intercept_).all() and np.isfinite(pr).all(),
                  'intercept-only', 'logistic: intercepts %r for labels %r' % (
                      f.intercept_, yl))
        fr = np.array([(yl == j).mean() for j in range(max(K, 2))])
        if K <= 2:
            rec.check(pr.shape == (4,) and np.allclose(
                pr, fr[1], atol=1e-8), 'intercept-only', 'logistic: %r, not '
                '%r' % (pr, fr[1]))
        else:
            rec.check(pr.shape == (4, K) and np.allclose(pr, fr, atol=1e-8),
                      'intercept-only', 'softmax: %r, not %r' % (pr[0], fr))
        top = np.sort(fr)
        if top[-1] > top[-2] + 1e-9:
            r = np.asarray(f.predict(np.zeros((4, 2))))
            rec.check(r.shape == (4,) and np.all(r == fr.argmax()),
                      'intercept-only', 'logistic class %r, not %d' % (
                          r, fr.argmax()))
    # every coefficient masked
    for K in (2, 3):
        X = rng.randn(40, 3)
        y = np.concatenate([np.arange(K), rng.randint(0, K, 40 - K)])
        m = MaskedCoefLogisticRegression(
            penalty='l1', C=1., multi_class='auto', max_iter=500, tol=1e-8)
        m.fit(X, y, coef_mask=np.zeros(3 if K == 2 else (K, 3), dtype=bool))
        rec.count('learners')
        pr = m.predict_proba(X)
        fr = np.array([(y == j).mean() for j in range(K)])
        rec.check(not np.any(m.coef_) and np.allclose(pr, fr, atol=1e-3),
                  'all-masked', '%d classes: %r, not %r' % (K, pr[0], fr))
    rec.seen('learner', case['seed'])
