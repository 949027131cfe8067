import numpy as np

from harness import gen

PROPERTY = 'C04'
RULE = ('Random datasets and models over every metric and target; each '
        'reported score is recomputed from the recorded fit, the recovered '
        'training rows and their complement. Non-trivial: at least four '
        'scores of non-empty supports were recomputed.')
ASSUMPTIONS = ['The intercept of an estimation fit is the one its learner '
               'reports.']
REQUIRED = {'scores_recomputed': 4000, 'empty_support_scores': 400,
            'invalid_tried': 40}

METRICS = dict(lasso=('r2', 'AIC', 'AICc', 'BIC'),
               en=('r2', 'AIC', 'AICc', 'BIC'),
               logit=('acc', 'log', 'AIC', 'AICc', 'BIC'),
               pois=('log', 'AIC', 'AICc', 'BIC'))


def cases(tier, seed):
    k = 8 if tier == 'quick' else 40
    out = []
    i = 0
    for kind, ms in METRICS.items():
        for metric in ms:
            for target in (None, 'train', 'test'):
                for r in range(k):
                    i += 1
                    rng = np.random.RandomState([seed, i, 41])
                    c = gen.model_case(rng, kind)
                    P = c['model']['params']
                    P['estimation_score'] = metric
                    P.pop('estimation_target', None)
                    if target:
                        P['estimation_target'] = target
                    if r % 2 and kind in ('lasso', 'pois', 'en'):
                        # few training rows: the small-sample correction
                        c['data']['n'] = 24
                        c['data']['p'] = int(rng.randint(8, 14))
                        c['data']['inf'] = 6
                        P['estimation_frac'] = .6
                        P['selection_frac'] = .8
                        if kind == 'pois':
                            c['data']['p'] = 5
                        if c.get('stratify'):
                            c.pop('stratify')
                    if rng.rand() < .35:
                        # labels / responses unrelated: empty supports
                        c['data']['strength'] = .1
                        P['stability_selection'] = 1.
                    c['name'] = '%s-%s-%s-%d' % (kind, metric, target, r)
                    out.append(c)
    i = 0
    for kind, ms in METRICS.items():
        for metric in ms:
            for r in range(k // 4):
                i += 1
                # many scored rows
                rng = np.random.RandomState([seed, i, 43])
                c = gen.large_case(rng, 0, kind)
                P = c['model']['params']
                P.update(estimation_score=metric, estimation_frac=float(
                    gen.pick(rng, .5, .7)))
                P.pop('estimation_target', None)
                if r % 3 < 2:
                    P['estimation_target'] = ('test', 'train')[r % 3]
                c['name'] = '%s-%s-rows%d' % (kind, metric, r)
                out.append(c)
    for i in range(8 * k):
        rng = np.random.RandomState([seed, i, 42])
        c = gen.model_case(rng, 'logit', data=dict(kind='multi', k=3))
        P = c['model']['params']
        P['shared_support'] = bool(i % 2)
        P['estimation_score'] = METRICS['logit'][i % 5]
        c['data']['labels'] = [7, -3, 12, 40][:4]
        c['name'] = 'multi%d' % i
        out.append(c)
    out += gen.sparse_cases(seed, 8 * k, 'c04sp')
    out += gen.large_cases(seed, 6 * k, 'c04')
    out.append(dict(name='invalid', invalid=True))
    return out


def invalid(rec):
    from harness import uoi
    for kind in uoi.CLASSES:
        for bad in ('', 'R2', 'aic', 'accuracy', 'foo', None, 3):
            for key in ('estimation_score', 'estimation_target'):
                if key == 'estimation_target' and bad is None:
                    continue
                rec.count('invalid_tried')
                try:
                    uoi.make(kind, **{key: bad})
                except (ValueError, KeyError, TypeError):
                    continue
                rec.fail('invalid-accepted', '%s %s=%r accepted' % (
                    kind, key, bad))
        other = dict(lasso='acc', en='log', logit='r2', pois='r2')[kind]
        try:
            uoi.make(kind, estimation_score=other)
        except ValueError:
            continue
        rec.fail('invalid-accepted', '%s score %s' % (kind, other))
    rec.seen('invalid')


def run(case, rec):
    from harness import traced, uoi
    from scipy.special import xlogy, logsumexp
    if case.get('invalid'):
        return invalid(rec)
    t = traced.run(case, rec)
    m = t.model
    I, kind = t.internal, t.kind
    p, K = I.p, traced.n_outputs(t)
    S = np.asarray(m.supports_)
    sc = np.asarray(m.scores_)
    B = m.n_boots_est
    metric = gen.full(case['model'])['estimation_score']
    target = case['model']['params'].get('estimation_target') or (
        'test' if metric in ('r2', 'acc', 'log') else 'train')
    rec.check(m.estimation_score == metric, 'metric', m.estimation_score)
    boots = t.est_boots
    if S.any() and not boots:
        rec.count('unobserved')
        return
    if len(boots) != B:
        if S.any():
            rec.fail('resamples', '%d resamples for %d bootstraps' % (
                len(boots), B))
        return
    fits = {}
    for e in t.est:
        fits[e['key'], tuple(traced.event_support(t, e).tolist())] = e

    def ic(ll, k, n):
        if metric == 'BIC':
            v = k * np.log(n) - 2 * ll
        else:
            v = 2 * k - 2 * ll
            if metric == 'AICc' and n > k + 1:
                v += 2. * k * (k + 1) / (n - k - 1)
        return -v

    def score(key, s):
        tr = np.array(key)
        te = np.setdiff1d(np.arange(I.n), tr)
        rows = tr if target == 'train' else te
        X, y = I.X[rows], I.y[rows]
        n = len(rows)
        k = int(np.count_nonzero(s))
        e = fits.get((key, tuple(s.tolist())))
        if s.any():
            if e is None:
                return None
            w = traced.full_coef(t, e)
            b = np.array(e['ev'].intercept, dtype=float).reshape(-1)
            if not m.fit_intercept:
                b = np.zeros(K)
            eta = X.dot(w.T) + b
        else:
            yt = I.y[tr]
            if kind in uoi.LINEAR:
                b = np.array([yt.mean()])
            elif kind == 'pois':
                b = np.array([np.log(yt.mean())])
            elif K == 1:
                b = np.array([np.log(yt.mean() / (1 - yt.mean()))])
            else:
                with np.errstate(divide='ignore'):
                    b = np.log(np.maximum(1e-10, np.array(
                        [np.mean(yt == c) for c in range(K)])))
            eta = np.tile(b, (n, 1))
        if kind in uoi.LINEAR:
            r = y - eta[:, 0]
            if metric == 'r2':
                d = np.sum((y - y.mean()) ** 2)
                return 1 - np.sum(r ** 2) / d
            if np.mean(r ** 2) < 1e-18 * (1 + np.mean(y ** 2)):
                # an exact fit: the logarithm of rounding errors
                rec.count('exact_fits_skipped')
                return 'any'
            return ic(-n / 2. * (1 + np.log(np.mean(r ** 2))), k, n)
        if kind == 'pois':
            mu = np.exp(eta[:, 0])
            ll = np.mean(xlogy(y, mu) - mu)
            if metric == 'log':
                return ll
            return ic(n * ll, k + int(b[0] != 0), n)
        if K == 1:
            z = eta[:, 0]
            L = np.stack([-np.logaddexp(0, z), -np.logaddexp(0, -z)], axis=1)
        else:
            L = eta - logsumexp(eta, axis=1)[:, None]
        if metric == 'acc':
            top = L.max(axis=1)
            hit = L[np.arange(n), y.astype(int)] >= top - 1e-9
            tie = (L >= top[:, None] - 1e-9).sum(axis=1) > 1
            return (np.mean(hit & ~tie), np.mean(hit | tie))
        eps = np.finfo(float).eps
        L = np.maximum(L, np.log(eps))[np.arange(n), y.astype(int)]
        ll = np.mean(L)
        # rounding of tiny probabilities obtained as one minus the other
        slack[0] = 2 * np.mean(np.minimum(4 * eps / np.exp(L), 1.)) * (
            1 if metric == 'log' else 2 * n)
        if metric == 'log':
            return ll
        return ic(n * ll, k, n)

    slack = [0.]

    def agree(a, b):
        if a is None:
            return False
        if isinstance(a, str):
            return True
        if isinstance(a, tuple):
            return a[0] - 1e-9 <= b <= a[1] + 1e-9
        if np.isnan(a) or np.isinf(a):
            return (np.isnan(b) and np.isnan(a)) or a == b
        return abs(a - b) <= 1e-6 * (1 + abs(a)) + slack[0]

    nonempty = 0
    for j in range(B):
        for s in range(len(S)):
            want = score(boots[j], S[s])
            ok = agree(want, sc[j, s])
            if not ok:
                ok = any(agree(score(boots[q], S[s]), sc[j, s]) and
                         all(agree(score(boots[q], S[u]), sc[j, u])
                             for u in range(len(S))) for q in range(B))
            rec.count('scores_recomputed')
            if S[s].any():
                nonempty += 1
            else:
                rec.count('empty_support_scores')
            rec.check(ok, 'score-' + ('empty' if not S[s].any() else
                                      'value'),
                      '%s on %s rows is %r, reported %r' % (
                          metric, target, want, sc[j, s]),
                      support=S[s], kind=kind)
    if nonempty >= 4:
        rec.seen(kind, K, metric, target, len(S))
    rec.sample = dict(metric=metric, target=target, scores=sc)
