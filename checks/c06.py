import numpy as np

from harness import gen

PROPERTY = 'C06'
RULE = ('Each case fits a random model to a data set and to a transformed '
        'copy (features permuted, rescaled, shifted, reflected; response '
        'scaled and shifted; classes swapped) and compares the results '
        'through the transformation. Non-trivial: a nonzero coefficient and '
        'identical supports and winners, so that everything was compared.')
ASSUMPTIONS = ['Iterative solvers follow slightly different paths after a '
               'transformation; coefficients are compared to 1e-2 of their '
               'size for the iterative learners and 1e-6 for least squares. '
               'A support that differs in a borderline feature is tolerated '
               'when the reported coefficients still agree, and counted.']
REQUIRED = {'compared': 500, 'exactly_same_supports': 450}

OPS = ('perm', 'scale', 'shift', 'reflect', 'yaffine', 'swap')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 24
    out = []
    for op in OPS:
        kinds = dict(yaffine=('lasso', 'en'), swap=('logit',)).get(
            op, ('lasso', 'en', 'logit', 'pois'))
        for kind in kinds:
            m = (10 if len(kinds) > 2 else 16) * k
            for i in range(m + 2 * k):
                rng = np.random.RandomState(
                    [seed, i, 6, sum(map(ord, kind + op))])
                c = gen.model_case(rng, kind)
                if i >= m:
                    c = gen.large_case(rng, int(rng.randint(6)), kind)
                    c['model']['params'] = gen.full(c['model'])
                    if kind == 'logit':
                        c['model']['params'].setdefault('multi_class', 'auto')
                P, D = c['model']['params'], c['data']
                D['p'] = max(D['p'], 3)
                if op in ('scale', 'shift'):
                    P['standardize'] = True
                if op == 'shift':
                    P['fit_intercept'] = True
                if op == 'reflect':
                    c['cols'] = int(rng.randint(1 << 20))
                if op == 'swap':
                    D.update(kind='bin')
                    D.pop('k', None)
                    P['multi_class'] = 'auto'
                if op == 'yaffine':
                    P['standardize'] = bool(i % 3)
                if kind in ('pois', 'logit') and (
                        not P['fit_intercept'] or not P['standardize']):
                    D['loc'] = 0.
                    D['scale'] = 1.
                    D['scale_spread'] = .3
                if kind == 'pois':
                    P['tol'] = 1e-9
                    P['max_iter'] = 5000
                if kind == 'logit':
                    P['tol'] = 1e-6
                    D['strength'] = .4
                if kind in ('lasso', 'en'):
                    P['max_iter'] = 10000
                    if i % 5 == 2 and i < m:
                        # many candidate supports
                        D['p'] = int(rng.randint(10, 16))
                        D['inf'] = D['p'] - 2
                        D['corr'] = 0.
                        P['fit_intercept'] = P['standardize'] = True
                        P['n_lambdas'] = 30
                        P['n_boots_sel'] = 6
                        P['eps'] = 1e-3
                        P['stability_selection'] = [6, 4, 2]
                if kind not in ('lasso', 'en'):
                    P['eps'] = max(P.get('eps', 0.), 1e-2)
                # distinct scores leave no ties to rounding
                if P['estimation_score'] == 'acc':
                    P['estimation_score'] = 'log'
                P['warm_start'] = False
                c['op'] = op
                c['tseed'] = int(rng.randint(1 << 20))
                c['name'] = 'c06%s-%s%d%s' % (op, kind, i, c.get('large', ''))
                out.append(c)
    out.append(dict(finding='multinomial', op='perm'))
    return out


def finding(case, rec):
    """Multinomial without intercept: unpenalized coefficients."""
    from harness import uoi
    X, y = uoi.dataset(dict(n=90, p=4, seed=5, inf=4, b0=.5, kind='multi',
                            k=3, strength=.5))
    f = uoi.MaskedCoefLogisticRegression
    a = f(penalty='l2', C=np.inf, fit_intercept=False, tol=1e-8).fit(X, y)
    perm = np.array([3, 0, 2, 1])
    b = f(penalty='l2', C=np.inf, fit_intercept=False, tol=1e-8).fit(
        X[:, perm], y)
    d = np.abs(a.coef_[:, perm] - b.coef_).max()
    rec.check(d < 1e-3 * (1 + np.abs(a.coef_).max()),
              'multinomial-no-intercept-permutation',
              'coefficients of the permuted features differ by %g' % d)


def run(case, rec):
    from harness import uoi, traced
    if case.get('finding'):
        return finding(case, rec)
    X, y = uoi.dataset(case['data'])
    kind = case['model']['kind']
    P = dict(case['model']['params'])
    lin = kind in uoi.LINEAR
    K = 1
    if kind == 'logit':
        n_cls = np.unique(y).size
        if n_cls > 2 or P['multi_class'] == 'multinomial':
            K = n_cls
    if K > 1 and not P['fit_intercept']:
        rec.count('skipped_multinomial_without_intercept')
        return
    rng = np.random.RandomState(case['tseed'])
    p = X.shape[1]
    op = case['op']
    perm, mul, add = np.arange(p), np.ones(p), np.zeros(p)
    ya, yb = 1., 0.
    y2 = y
    if op == 'perm':
        perm = rng.permutation(p)
        if np.array_equal(perm, np.arange(p)):
            perm = perm[::-1]
    elif op == 'scale':
        mul = 2. ** rng.randint(-16, 17, p) * rng.uniform(.7, 1.4, p)
    elif op == 'shift':
        add = rng.uniform(-5, 5, p) * X.std(axis=0)
    elif op == 'reflect':
        mul = rng.choice([-1., 1.], p)
        mul[rng.randint(p)] = -1.
    elif op == 'yaffine':
        ya = float(rng.choice([-1, 1]) * np.exp(
            rng.uniform(-3, 3) * (5 if rng.rand() < .5 else 1)))
        if kind == 'en' and not P['standardize']:
            # the L2 penalty is not homogeneous in the response's unit
            ya = float(np.sign(ya))
        yb = float(rng.uniform(-5, 5)) if P['fit_intercept'] else 0.
        y2 = ya * y + yb
    elif op == 'swap':
        y2 = 1 - y
    X2 = (X * mul + add)[:, perm]
    kw = traced.fit_args(case, y)
    with uoi.Trace() as tr:
        m = uoi.make(kind, **P).fit(X, y, **kw)
        m2 = uoi.make(kind, **P).fit(X2, y2, **kw)
    rec.count('learner_fits', len(tr.events))
    C = np.atleast_2d(m.coef_)
    b = np.asarray(m.intercept_, dtype=float).reshape(-1)
    # map the second result back
    C2 = np.zeros_like(C)
    C2[:, perm] = np.atleast_2d(m2.coef_)
    C2 = C2 * mul
    b2 = np.asarray(m2.intercept_, dtype=float).reshape(-1)
    b2 = b2 + (C2 / mul).dot(add)
    if op == 'yaffine':
        C2 = C2 / ya
        b2 = (b2 - yb) / ya
    if op == 'swap':
        C2, b2 = -C2, -b2
    if K > 1:
        b, b2 = b - b.mean(), b2 - b2.mean()
    S = m.supports_
    S2 = np.zeros_like(m2.supports_)
    if S2.shape[1] == p:
        S2[:, perm] = m2.supports_
    else:
        S2 = m2.supports_.reshape(len(S2), K, p)
        T = np.zeros_like(S2)
        T[:, :, perm] = S2
        S2 = T.reshape(len(T), K * p)
    rec.count('compared')
    if kind == 'logit' and np.abs(m.estimates_).max() > 15:
        # (nearly) separable resamples have no finite optimum to compare
        rec.count('separable')
        return
    set1 = {tuple(s) for s in S.tolist()}
    set2 = {tuple(s) for s in S2.tolist()}
    same = set1 == set2
    rows1 = [tuple(s) for s in S.tolist()]
    rows2 = [tuple(s) for s in S2.tolist()]
    wtol = 1e-6 if lin else 1e-2
    sd = X.std(axis=0)
    scale = 1 + np.abs(C * sd).max()
    close = np.abs((C - C2) * sd).max() <= wtol * scale * (
        np.std(y) if lin else 1.)
    bclose = np.abs(b - b2).max() <= wtol * (
        1 + np.abs(b).max() + np.abs(C * X.mean(axis=0)).max()) * (
        max(1., np.std(y)) if lin else 2.)
    if same:
        rec.count('exactly_same_supports')
        order = [rows2.index(r) for r in rows1]
        sc, sc2 = m.scores_, m2.scores_[:, order]
        shift = 0.
        if op == 'yaffine' and not P['standardize'] and \
                P['estimation_score'] != 'r2':
            # information criteria of an unstandardized response
            shift = (sc - sc2)
            rec.check(np.ptp(shift) <= 1e-5 * (1 + np.abs(shift).max()),
                      op + '-scores', 'scores do not move together')
        else:
            rec.check(np.allclose(sc, sc2, rtol=1e-5 if lin else 1e-2,
                                  atol=1e-6 if lin else 2e-2 * (
                      1 if P['estimation_score'] == 'log' else len(y))),
                      op + '-scores', 'scores change by %g' %
                      np.abs(sc - sc2).max())
        win = [rows1[i] for i in m.rp_max_idx_]
        win2 = [rows2[i] for i in m2.rp_max_idx_]
        if win != win2:
            tie = [abs(sc[j, rows1.index(a)] - sc[j, rows1.index(c)])
                   for j, (a, c) in enumerate(zip(win, win2))]
            gap = 1e-6 if lin else 1e-2 * (
                1 if P['estimation_score'] == 'log' else len(y))
            rec.check(max(tie) <= gap * (1 + np.abs(sc).max()),
                      op + '-winners', 'winners change')
            rec.count('near_ties')
            return
    else:
        # borderline features: the sets differ only by few features
        rec.count('borderline')
        d = max(min(sum(x != z for x, z in zip(a, c)) for c in set2)
                for a in set1)
        d2 = max(min(sum(x != z for x, z in zip(a, c)) for c in set1)
                 for a in set2)
        if len(set1) > 12:
            # many candidates: most are the same
            rec.count('many_candidates')
            ok = max(d, d2) <= 3 and \
                len(set1 & set2) >= .7 * max(len(set1), len(set2)) - 1
        else:
            ok = lin is False and max(d, d2) <= max(2, K) or max(d, d2) <= 1
        rec.check(ok, op + '-supports', 'supports change',
                  a=S.astype(int), b=S2.astype(int), kind=kind, d=(d, d2))
        return
    rec.check(close, op + '-coef', 'coefficients do not transform', got=C2,
              want=C, kind=kind, K=K)
    if P['fit_intercept']:
        rec.check(bclose, op + '-intercept', 'intercept does not transform',
                  got=b2, want=b, kind=kind, K=K)
    if C.any():
        rec.seen(op, kind, K, P['standardize'], P['fit_intercept'], len(S))
    rec.sample = dict(coef=C, mapped=C2)
