import numpy as np

from harness import gen

PROPERTY = 'C03'
RULE = ('Random datasets, models and settings. For every estimation '
        'bootstrap and support the estimate is compared with a reference '
        'optimum computed from the recovered training rows; winners, median '
        'and units are recomputed. Non-trivial: at least two supports, and '
        'bootstraps that disagree on the winner or two or more bootstraps.')
ASSUMPTIONS = ['Iterative learners are held to their tolerance through the '
               'loss gap and gradient of the reference loss.']
REQUIRED = {'estimates_compared': 300, 'medians': 40}


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    out = gen.cases(seed, 70 * k, 'c03')
    for kind in ('lasso', 'en', 'logit', 'pois'):
        out += gen.cases(seed, 10 * k, 'c03' + kind, kind=kind)
    out += gen.cases(seed, 8 * k, 'c03i', kind='logit',
                     data=dict(kind='multi', k=3),
                     params=dict(shared_support=False))
    out += gen.cases(seed, 6 * k, 'c03m', kind='logit',
                     data=dict(kind='bin'),
                     params=dict(multi_class='multinomial'))
    for i, c in enumerate(gen.cases(seed, 14 * k, 'c03t', kind='logit')):
        # a tight tolerance tells small penalties from none
        c['model']['params'].update(tol=1e-6)
        c['data']['strength'] = .3
        out.append(c)
    out += gen.sparse_cases(seed, 10 * k, 'c03sp')
    for i, c in enumerate(gen.cases(seed, 8 * k, 'c03o')):
        c['model']['params']['n_boots_est'] = [1, 7, 9, 4][i % 4]
        out.append(c)
    for i, c in enumerate(gen.cases(seed, 6 * k, 'c03b')):
        # many estimation bootstraps
        c['model']['params'].update(n_boots_est=[12, 15, 20, 25][i % 4])
        for q in ('n_C', 'n_lambdas'):
            if q in c['model']['params']:
                c['model']['params'][q] = 3
        c['data']['p'] = min(c['data']['p'], 5)
        out.append(c)
    for i, c in enumerate(gen.cases(seed, 8 * k, 'c03e', kind='lasso')):
        # almost no noise: scores that differ in the last digits
        c['data'].update(noise=[0., 1e-9, 1e-7, 1e-5][i % 4])
        c['model']['params'].update(n_lambdas=12, eps=1e-8,
                                    estimation_score='r2')
        out.append(c)
    for i, c in enumerate(gen.cases(seed, 10 * k, 'c03u')):
        # extreme units
        rng = np.random.RandomState([seed, i, 92])
        if c['model']['kind'] not in ('lasso', 'en'):
            continue
        c['model']['params'].update(standardize=False)
        c['data'].update(loc=0., scale=float(10. ** rng.randint(-3, 9)),
                         yscale=float(10. ** rng.randint(-9, 4)))
        out.append(c)
    out += gen.large_cases(seed, 16 * k, 'c03')
    return out


def run(case, rec):
    from harness import traced, ref, uoi
    t = traced.run(case, rec)
    m = t.model
    I, kind = t.internal, t.kind
    p, K = I.p, traced.n_outputs(t)
    fi = m.fit_intercept
    S = np.asarray(m.supports_)
    E = np.asarray(m.estimates_)
    sc = np.asarray(m.scores_)
    B = m.n_boots_est
    rec.check(E.shape == (B, len(S), p * K), 'estimates-shape', E.shape)
    rec.check(sc.shape == (B, len(S)), 'scores-shape', sc.shape)
    # zero off the support
    full = np.array([np.tile(s, K) if s.size == p else s for s in S])
    rec.check(not np.any(np.where(full[None], 0, E)), 'off-support',
              'estimates are nonzero off their support')
    # winners
    best = np.argmax(sc, axis=1)
    win = np.asarray(m.rp_max_idx_)
    rec.check(np.array_equal(best, win), 'winner',
              'winners are not the first maxima of the scores',
              scores=sc, got=win)
    # median in data units
    W = E[np.arange(B), best]
    coef = np.median(W, axis=0).reshape(K, p)
    want = coef / I.scale * (I.yscale if kind in uoi.LINEAR else 1.)
    got = np.asarray(m.coef_).reshape(K, p)
    rec.count('medians')
    rec.check(np.allclose(got, want, rtol=1e-9, atol=1e-12 * (
        1 + np.abs(want).max())), 'median',
        'coefficients are not the median of the winners in data units',
        got=got, want=want)
    rec.check(np.asarray(m.coef_).shape == ((K, p) if kind == 'logit'
                                            else (p,)), 'coef-shape',
              np.asarray(m.coef_).shape)
    if not t.est:
        rec.count('unobserved')
        return
    # estimates against the reference optimum
    boots = t.est_boots
    rec.check(len(boots) == B, 'resamples', len(boots))
    if len(boots) != B:
        return
    worst = 0.
    gtol = max(10 * t.params.get('tol', 1e-3), 1e-3)
    icpt = {}
    for e in t.est:
        icpt[e['key'], tuple(traced.event_support(t, e).tolist())] = \
            np.array(e['ev'].intercept, dtype=float).reshape(-1)
    refs = {}

    def misfit(b, s):
        """How far estimate s is from the optimum on the rows of boots[b]."""
        key = boots[b]
        rows = np.array(key)
        X, y = I.X[rows], I.y[rows]
        w = E[cur, s].reshape(K, p)
        sup = S[s]
        if kind in uoi.LINEAR:
            A = X[:, sup]
            if fi:
                A = A - A.mean(axis=0)
                y = y - y.mean()
            r = refs.get((b, s))
            if r is None:
                r = refs[b, s] = np.linalg.lstsq(A, y, rcond=None)[0]
            err = np.abs(w[0, sup] - r).max()
            # sparse least squares are iterative
            size = np.abs(r).max() + 1e-3 * y.std() / A.std(axis=0).min()
            return err / ((1e-4 if case.get('sparse') else 1e-7) * size)
        b0 = icpt.get((key, tuple(sup.tolist())))
        if b0 is None:
            return np.inf
        if not fi:
            b0 = b0 * 0
        if kind == 'pois':
            r = refs.get((b, s))
            if r is None:
                r = refs[b, s] = ref.fit_pois(X[:, sup], y, fi)
            f, g, gb = uoi.pois_grad(X, y, w[0], b0[0])
            cd = t.params.get('solver') == 'cd'
            return max((f - r[1]) / (1e-4 if cd else 1e-5),
                       np.abs(g[sup]).max() / (1e-2 if cd else 2e-3),
                       (abs(gb) if fi else 0) / (1e-2 if cd else 2e-3))
        if K == 1:
            r = refs.get((b, s))
            if r is None:
                r = refs[b, s] = ref.fit_logit(X[:, sup], y, fi)
            f, g, gb = uoi.logit_grad(X, y, w[0], b0[0])
            g = g[sup]
            sep = np.abs(r[0]).max() > 6 or r[1] < .1
        else:
            r = refs.get((b, s))
            if r is None:
                if m.shared_support:
                    r = ref.fit_softmax(X[:, sup], y, K, fi)
                else:
                    r = ref.fit_softmax(X, y, K, fi, sup.reshape(K, p))
                refs[b, s] = r
            f, g, gb = uoi.softmax_grad(X, y, w, b0)
            g = g[:, sup] if m.shared_support else \
                g.ravel()[sup]
            sep = np.abs(r[0]).max() > 6 or r[1] < .1
        q = max(np.abs(g).max(), np.abs(gb).max() if fi else 0) / gtol
        if not sep:
            q = max(q, (f - r[1]) / (.1 * gtol))
        return q

    for cur in range(B):
        for s in range(len(S)):
            if not S[s].any():
                continue
            rec.count('estimates_compared')
            q = misfit(cur, s)
            if q > 1:
                # resamples may have been visited in another order
                q = min([q] + [misfit(b, s) for b in range(B)])
            worst = max(worst, q)
            rec.check(q <= 1, 'estimate',
                      'an estimate is not the unpenalized fit to its rows '
                      'and support (misfit %g)' % q, boot=cur, support=S[s],
                      estimate=E[cur, s])
    if len(S) > 1 and B > 1:
        rec.seen(kind, K, len(S), B, len(set(best.tolist())))
    rec.sample = dict(worst_misfit=worst, supports=len(S), winners=best)
