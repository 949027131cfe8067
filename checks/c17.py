import numpy as np

from harness import gen

PROPERTY = 'C17'
RULE = ('Each case fits the masked logistic regression (both penalties, two '
        'to four classes, masks, sample and class weights, standardization, '
        'sparse designs, warm starts from other solutions) and evaluates the '
        'optimality conditions of the documented objective at the returned '
        'point with independently computed gradients; coefficients outside '
        'the mask must be exactly zero, all-false masks give the '
        'intercept-only model and integer weights equal repeated rows. '
        'Non-trivial: a nonzero coefficient, a binding mask or an exact zero '
        'inside the mask.')
ASSUMPTIONS = ['Repetition keeps the penalty comparable by scaling C with '
               'the total weight.']
REQUIRED = {'optima': 280, 'masked_out': 1400, 'exact_zeros': 700,
            'repetitions': 80, 'empty_masks': 40, 'warm_starts': 80,
            'path_optima': 80}


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for i in range(640 * t):
        rng = np.random.RandomState([seed, i, 17])
        d = dict(seed=int(rng.randint(1 << 30)), n=int(rng.randint(30, 150)),
                 p=int(rng.randint(1, 10)), strength=.8,
                 kind=gen.pick(rng, 'bin', 'multi'), k=int(rng.randint(3, 5)),
                 corr=float(gen.pick(rng, 0., .5)),
                 b0=float(rng.uniform(-2, 2)))
        if rng.rand() < .4:
            d.update(loc=float(gen.pick(rng, 1., 3.)),
                     scale=float(gen.pick(rng, .3, 3.)), scale_spread=.7)
        pen = gen.pick(rng, 'l1', 'l1', 'l2')
        P = dict(penalty=pen,
                 C=float(np.exp(rng.uniform(-3, 5) if pen == 'l1' else
                                rng.uniform(-2, 6))),
                 fit_intercept=bool(rng.rand() < .7),
                 standardize=bool(rng.rand() < .4),
                 multi_class=gen.pick(rng, 'auto', 'auto', 'multinomial'),
                 warm_start=bool(rng.rand() < .3),
                 tol=float(gen.pick(rng, 1e-8, 1e-8, 1e-6)))
        if rng.rand() < .08 and pen == 'l2':
            P['C'] = None    # no penalty
        elif rng.rand() < .08 and pen == 'l2':
            P['C'] = float(np.exp(rng.uniform(-9, -2)))
        if P['standardize'] and rng.rand() < .2:
            # features in other units
            s = float(gen.pick(rng, 1e-7, 1e-6, 1e5))
            d.update(loc=3 * s, scale=s)
        if i % 20 == 13:
            # many samples, features or classes
            form = int(rng.randint(3))
            if form == 0:
                d['n'] = int(rng.randint(600, 4000))
            elif form == 1:
                d.update(n=int(rng.randint(150, 400)), corr=0., loc=0.,
                         scale=1., p=int(rng.randint(50, 140)), strength=.3)
                if P['C']:
                    P['C'] = min(P['C'], 30.)
            else:
                d.update(kind='multi', k=int(rng.randint(6, 12)),
                         n=int(rng.randint(200, 500)), b0=0.)
                d['strength'] = .4
        out.append(dict(
            data=d, params=P, name='c17-%d' % i,
            mask=gen.pick(rng, None, None, 'random', 'random', 'random',
                          'full', 'single', 'empty'),
            sw=gen.pick(rng, None, None, 'float', 'int', 'int0', 'heavy'),
            cw=gen.pick(rng, None, None, None, 'balanced', 'dict'),
            sparse=bool(rng.rand() < .15 and not (
                P['standardize'] and P['fit_intercept'])),
            labels=gen.pick(rng, None, [2, 5, 9, 11], ['a', 'b', 'c', 'd'])
            if d['kind'] == 'bin' or d['k'] < 5 else None,
            vseed=int(rng.randint(1 << 30))))
    return out


def weights(case, y, rng):
    """(fit arguments, effective weight of each row)."""
    n = len(y)
    sw = None
    if case['sw'] == 'float':
        sw = rng.uniform(.2, 3., n)
    elif case['sw'] == 'int':
        sw = rng.randint(1, 4, n)
    elif case['sw'] == 'int0':
        sw = rng.randint(0, 3, n)
        for c in np.unique(y):
            sw[np.flatnonzero(y == c)[0]] = 1
    elif case['sw'] == 'heavy':
        # a few rows carry most of the weight
        sw = np.ones(n, dtype=int)
        for j in rng.permutation(n)[:rng.randint(1, 5)]:
            sw[j] = rng.randint(20, 80)
    eff = np.ones(n) if sw is None else sw.astype(float)
    cw = None
    k = y.max() + 1
    if case['cw'] == 'balanced':
        cw = 'balanced'
        eff = eff * (n / (k * np.bincount(y)))[y]
    elif case['cw'] == 'dict':
        v = rng.uniform(.3, 3., k)
        cw = v
        eff = eff * v[y]
    return sw, cw, eff


def kkt(case, A, y, eff, W, b, mask, C, penalty, K, fit_intercept):
    """Residuals of the optimality conditions, relative to natural sizes."""
    from harness import uoi
    if K == 1:
        f, g, gb = uoi.logit_grad(A, y, W[0], b[0], eff)
        g, gb = g[None], np.atleast_1d(gb)
    else:
        f, g, gb = uoi.softmax_grad(A, y, W, b, eff)
    lam = 1. / C
    if penalty == 'l2':
        r = g + lam * W
    else:
        r = np.where(W != 0, g + lam * np.sign(W),
                     np.sign(g) * np.maximum(np.abs(g) - lam, 0))
    size = eff.mean() * np.sqrt((A ** 2).mean(axis=0)) + 1e-12
    r = np.abs(r) / size
    r[~mask] = 0.
    rb = np.abs(gb) / eff.mean() if fit_intercept else np.zeros(1)
    return max(r.max(), rb.max()), r, rb


def objective(A, y, eff, W, b, C, penalty, K):
    from harness import uoi
    if K == 1:
        f = uoi.logit_grad(A, y, W[0], b[0], eff)[0]
    else:
        f = uoi.softmax_grad(A, y, W, b, eff)[0]
    return f + (np.abs(W).sum() if penalty == 'l1' else
                .5 * (W ** 2).sum()) / C


def finished(f, *a, **kw):
    """Call; False when the solver announces that it stopped early."""
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        res = f(*a, **kw)
    return res, not any('line-search' in str(i.message) or
                   'iterations' in str(i.message) for i in w)


def run(case, rec):
    from harness import uoi
    import scipy.sparse as sps
    X, y = uoi.dataset(case['data'])
    rng = np.random.RandomState(case['vseed'])
    n, p = X.shape
    k = int(y.max()) + 1
    P = dict(case['params'])
    if P['C'] is None:
        P['C'] = np.inf
    C, pen, fi = P['C'], P['penalty'], P['fit_intercept']
    K = 1 if k == 2 and P['multi_class'] == 'auto' else k
    sw, cw, eff = weights(case, y, rng)
    mask = np.ones((K, p), dtype=bool)
    kw = {}
    if case['mask'] == 'random':
        mask = rng.rand(K, p) < .6
        mask.flat[rng.randint(mask.size)] = True
    elif case['mask'] == 'single':
        mask[:] = False
        mask.flat[rng.randint(mask.size)] = True
    elif case['mask'] == 'empty':
        mask[:] = False
    if case['mask'] is not None:
        given = mask if K > 1 else mask[0]
        form = rng.randint(3)
        if form == 1:
            given = given.astype(float)
        elif form == 2 and K > 1:
            given = given.ravel()
        kw['coef_mask'] = given
    if sw is not None:
        kw['sample_weight'] = sw if rng.rand() < .7 else sw.tolist()
    lab = np.arange(k) if case['labels'] is None else \
        np.array(case['labels'][:k])
    if cw is not None:
        P['class_weight'] = cw if isinstance(cw, str) else dict(
            zip(lab.tolist(), cw))
    m = uoi.MaskedCoefLogisticRegression(**P)
    if P['warm_start']:
        # the solution of another problem is on the object: fewer rows,
        # another strength, no weights
        i0 = rng.permutation(n)[:max(20, n // 2)]
        i0 = np.unique(np.append(i0, [np.flatnonzero(y == c)[0]
                                      for c in range(k)]))
        C0 = m.C
        m.C = 10. if not np.isfinite(C) else C / 3
        m.fit(X[i0], lab[y][i0], coef_mask=kw.get('coef_mask'))
        m.C = C0
        rec.count('warm_starts')
    Xf = sps.csr_matrix(X) if case['sparse'] else X
    _, done = finished(m.fit, Xf, lab[y], **kw)
    if not done and pen == 'l2':
        # an iteration limit may only be announced where it was used up
        # (or after the 15000 evaluations scipy allows)
        used = int(np.max(m.n_iter_))
        rec.check(used >= 700, 'gave-up', 'announced its iteration limit '
                  'after %d of %d iterations' % (used, m.max_iter))
    W = np.array(m.coef_, dtype=float)
    b = np.array(m.intercept_, dtype=float).reshape(-1)
    if not rec.check(W.shape == (K, p) and b.shape == (K,), 'shape',
                     'coef_ %s intercept_ %s' % (W.shape, b.shape)):
        return
    rec.check(np.all(np.isfinite(W)) and np.all(np.isfinite(b)), 'finite',
              'not finite')
    rec.check(np.all(W[~mask] == 0), 'mask',
              'coefficients outside the mask: %s' % W[~mask])
    rec.count('masked_out', np.sum(~mask))
    if not fi:
        rec.check(np.all(b == 0), 'intercept', 'an intercept %s' % b)
    # the model in the units the penalty sees
    mean, scale = np.zeros(p), np.ones(p)
    if P['standardize']:
        scale = X.std(axis=0)
        scale[scale < 1e-12] = 1.
        if fi:
            mean = X.mean(axis=0)
    A = (X - mean) / scale
    Wi = W * scale
    bi = b + W.dot(mean)
    if case['mask'] == 'empty' or not mask.any():
        rec.count('empty_masks')
        tot = np.array([eff[y == c].sum() for c in range(k)])
        want = tot / tot.sum()
        if fi:
            pr = m.predict_proba(X[:1])[0]
            rec.check(np.abs(pr - want).max() < 1e-5, 'empty-mask',
                      'probabilities %s, class shares %s' % (pr, want))
        rec.seen('empty', K, fi, case['sw'], case['cw'])
        return
    if np.abs(Wi).max() > 15:
        rec.count('separable')
        return
    if not done:
        rec.count('gave_up')
        return
    res, r, rb = kkt(case, A, y, eff, Wi, bi, mask, C, pen, K, fi)
    rec.count('optima')
    xn = np.sqrt((Wi ** 2).sum() + (bi ** 2).sum())
    size = eff.mean() * np.sqrt((A ** 2).mean(axis=0))
    tol = 3 * P['tol'] * max(1., xn) / min(1., size.min(), eff.mean())
    tol = max(tol, 2e-4 if pen == 'l1' else 1e-3)
    rec.check(res <= tol, 'optimality', 'relative residual %g (allowed %g), '
              '%s K=%d' % (res, tol, pen, K), coef=r, intercept=rb,
              params=str(P), sw=case['sw'], cw=case['cw'])
    zeros = int(np.sum((Wi == 0) & mask))
    if pen == 'l1':
        rec.count('exact_zeros', zeros)
    # repetition
    if case['sw'] in ('int', 'int0', 'heavy') and case['cw'] != 'balanced' and \
            np.isfinite(C):
        i = np.repeat(np.arange(n), sw)
        Q = dict(P, C=C * len(i) / float(n), standardize=False,
                 warm_start=False)
        kw2 = {q: v for q, v in kw.items() if q != 'sample_weight'}
        m2 = uoi.MaskedCoefLogisticRegression(**Q)
        if finished(m2.fit, A[i], lab[y][i], **kw2)[1]:
            rec.count('repetitions')
            pa = m2.predict_proba(A)
            pb = m.predict_proba(X)
            rec.check(np.abs(pa - pb).max() <= .05, 'repetition',
                      'probabilities differ by %g' % np.abs(pa - pb).max(),
                      pen=pen, K=K)
            W2, b2 = np.array(m2.coef_), np.atleast_1d(m2.intercept_)
            F = [objective(A, y, eff, a, c, C, pen, K)
                 for a, c in ((Wi, bi), (W2, b2))]
            rec.check(abs(F[0] - F[1]) <= 1e-4 * max(1, F[0]), 'repetition',
                      'objectives %g and %g' % tuple(F), pen=pen, K=K)
    # the path function, several strengths at once
    if case['vseed'] % 3 < 2 and pen == 'l1' and K == 1:
        path(case, rec, A, y, eff, mask if case['mask'] else None, P, K, fi)
    if np.any(W) or zeros:
        rec.seen(pen, K, fi, P['standardize'], case['mask'], case['sw'],
                 case['cw'], zeros)
    rec.sample = dict(residual=res, zeros=zeros, coef=W)


def path(case, rec, A, y, eff, mask, P, K, fi):
    """Several strengths in one call."""
    from pyuoi.linear_model import logistic as lg
    p = A.shape[1]
    Cs = P['C'] * np.array([.5, 1., 3.])
    cm = None if mask is None else (mask if K > 1 else mask[0])
    (coefs, Cs_, _), done = finished(
        lg._logistic_regression_path, A, y, Cs=Cs, fit_intercept=fi, max_iter=10000, tol=1e-8,
        penalty='l1', multi_class='multinomial' if K > 1 else 'ovr',
        sample_weight=eff, coef_mask=cm)
    if not done:
        return
    for C, c in zip(Cs, coefs):
        c = np.asarray(c).reshape(K, -1)
        W = c[:, :p]
        b = c[:, p] if fi else np.zeros(K)
        M = np.ones((K, p), dtype=bool) if mask is None else mask
        res, r, rb = kkt(case, A, y, eff, W, b, M, C, 'l1', K, fi)
        if np.abs(W).max() > 15:
            continue
        rec.count('path_optima')
        rec.check(res <= 1e-3, 'path', 'relative residual %g at C=%g' % (
            res, C), coef=r, intercept=rb)
