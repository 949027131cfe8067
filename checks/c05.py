import numpy as np

from harness import gen

PROPERTY = 'C05'
RULE = ('Random models on shifted and scaled raw data. The fitted model is '
        'compared with a fit of the same settings, without internal '
        'standardization, to data standardized here; the predictions, the '
        'intercept and the calibration on the training data are recomputed '
        'from coef_ and intercept_. Non-trivial: a nonzero coefficient.')
ASSUMPTIONS = ['The logistic intercept is refitted by an iterative solver; '
               'calibration is decided to 2e-4 in mean probability.']
REQUIRED = {'calibrations': 230, 'manual_units': 230, 'no_intercept': 80,
            'far_designs': 15}


def cases(tier, seed):
    k = 3 if tier == 'quick' else 20
    out = []
    for kind in ('lasso', 'en', 'logit', 'pois'):
        for i in range(36 * k):
            rng = np.random.RandomState([seed, i, 5, sum(map(ord, kind))])
            c = gen.model_case(rng, kind)
            P = c['model']['params']
            P['standardize'] = bool(i % 4)
            if P['standardize']:
                c['data']['loc'] = float(gen.pick(rng, 0., 2., 30., 300.))
                c['data']['scale'] = float(gen.pick(rng, .01, 1., 50.))
                c['data']['scale_spread'] = 1.
                if kind in ('logit', 'pois') and not P['fit_intercept']:
                    # uncentered predictors far from zero make these models
                    # degenerate
                    c['data']['loc'] = 0. if kind == 'pois' else \
                        c['data']['scale'] * float(gen.pick(rng, 0., 1.))
            elif kind in ('logit', 'pois'):
                c['data'].update(loc=float(gen.pick(rng, 0., .5)), scale=1.,
                                 scale_spread=.3)
                if P['fit_intercept'] and rng.rand() < .6:
                    # the intercept makes up for a large offset
                    c['data']['loc'] = float(gen.pick(rng, 10., 30., 60.))
                    P['eps'] = max(P['eps'], .01)
                    c['far'] = True
            if kind in ('lasso', 'en'):
                c['data']['yloc'] = float(gen.pick(rng, 0., -5., 1000.))
                c['data']['yscale'] = float(gen.pick(rng, 1., .01, 100.))
                if not P['standardize']:
                    # the strengths are relative to the data anyway
                    c['data']['yloc'] = 0.
                elif rng.rand() < .3:
                    # whole numbers far from zero
                    c['yint'] = True
                    c['data'].update(yscale=100., yloc=float(gen.pick(
                        rng, 1e3, 1e6, 1e8)))
            if kind == 'logit' and i % 3 == 1:
                # rare classes
                c['data'].update(n=int(rng.randint(250, 500)),
                                 b0=float(rng.choice([-1, 1]) *
                                          rng.uniform(1.5, 3.5)))
                if c['data']['kind'] == 'multi':
                    c['data']['b0'] /= 2
                c['stratify'] = 'y'
            c['sparse'] = bool(not P['fit_intercept'] and kind != 'pois' and
                               i % 3 == 0)
            c['name'] = 'c05%s%d' % (kind, i)
            out.append(c)
    for c in gen.large_cases(seed, 8 * k, 'c05'):
        c['model']['params'] = gen.full(c['model'])
        c['sparse'] = False
        out.append(c)
    return out


def run(case, rec):
    from harness import uoi, traced
    import scipy.sparse as sps
    from scipy.special import expit, softmax
    X, y = uoi.dataset(case['data'])
    if case.get('yint'):
        y = np.round(y).astype(np.int64)
    kind = case['model']['kind']
    P = dict(case['model']['params'])
    kw = traced.fit_args(case, y)
    m = uoi.make(kind, **P)
    Xin = sps.csr_matrix(X) if case.get('sparse') else X
    with uoi.Trace() as tr:
        try:
            m.fit(Xin, y, **kw)
        except Exception as e:
            # solvers may announce that they cannot do badly scaled problems
            if type(e).__name__ != 'LBFGSError' or not case.get('far'):
                raise
            rec.count('gave_up')
            return
    if case.get('far'):
        rec.count('far_designs')
    fi = P['fit_intercept']
    C = np.atleast_2d(np.asarray(m.coef_, dtype=float))
    b = np.asarray(m.intercept_, dtype=float).reshape(-1)
    K = C.shape[0]
    rec.check(b.size in (1, K), 'intercept-shape', b.shape)
    eta = X.dot(C.T) + b
    size = 1 + np.abs(X).max() * np.abs(C).max() + np.abs(b).max()

    # the learners see the units the documentation promises
    I = uoi.Internal(kind, X, y, P['standardize'], fi)
    if tr.events:
        bad = sum(I.rows_cols(e.X)[0] is None for e in tr.events)
        rec.count('learner_designs', len(tr.events))
        rec.check(bad == 0, 'internal-units', '%d of %d learner designs are '
                  'not rows of the %s data' % (
                      bad, len(tr.events), 'standardized' if P['standardize']
                      else 'raw'))

    # predictions are what the coefficients imply
    if kind in uoi.LINEAR:
        got = np.asarray(m.predict(Xin))
        rec.check(np.allclose(got, eta[:, 0], rtol=1e-9, atol=1e-9 * size),
                  'predict', 'predictions differ from the coefficients')
        mean, obs = eta.mean(), y.mean()
        tol = 1e-9 * (size + np.abs(y).max())
    elif kind == 'pois':
        got = np.asarray(m.predict_mean(X)).ravel()
        mu = np.exp(eta[:, 0])
        rec.check(np.allclose(got, mu, rtol=1e-8), 'predict',
                  'means differ from the coefficients')
        mean, obs = mu.mean(), y.mean()
        tol = 1e-8 * (1 + obs) * size
    else:
        got = np.asarray(m.predict_proba(Xin))
        pr = np.stack([1 - expit(eta[:, 0]), expit(eta[:, 0])], axis=1) \
            if K == 1 else softmax(eta, axis=1)
        rec.check(got.shape == pr.shape and
                  np.allclose(got, pr, atol=1e-9), 'predict',
                  'probabilities differ from the coefficients')
        mean = pr.mean(axis=0)
        obs = np.array([np.mean(y == c) for c in m.classes_])
        tol = 2e-4
    if fi:
        rec.count('calibrations')
        rec.check(np.all(np.abs(mean - obs) <= tol), 'calibration',
                  'mean prediction %s, mean response %s' % (mean, obs),
                  coef=C, intercept=b)
    else:
        rec.count('no_intercept')
        rec.check(not np.any(b), 'no-intercept',
                  'intercept without fit_intercept', intercept=b)

    # the same fit on data standardized here
    if P['standardize']:
        Q = dict(P, standardize=False)
        m2 = uoi.make(kind, **Q)
        Z = (X - I.mean) / I.scale
        y2 = (y - I.ymean) / I.yscale if kind in uoi.LINEAR else y
        if kind == 'pois' and hasattr(m2, '_selection_lm'):
            # UoI_Poisson hands its own setting to the selection learner
            m2._selection_lm.set_params(standardize=True)
        Zin = sps.csr_matrix(Z) if case.get('sparse') else Z
        m2.fit(Zin, y2, **kw)
        rec.count('manual_units')
        same = np.array_equal(m.supports_, m2.supports_) and \
            np.array_equal(m.rp_max_idx_, m2.rp_max_idx_)
        if not same:
            # rounding in the standardization may flip a borderline feature
            rec.count('manual_units_borderline')
            return finish(case, rec, m, C, K)
        C2 = np.atleast_2d(m2.coef_) / I.scale
        b2 = np.asarray(m2.intercept_, dtype=float).reshape(-1)
        if kind in uoi.LINEAR:
            C2 = C2 * I.yscale
            b2 = b2 * I.yscale
        loose = kind not in uoi.LINEAR
        wtol = 2e-2 if loose else 1e-6
        d = np.abs((C - C2) * I.scale).max()
        top = np.abs(C * I.scale).max()
        rec.check(d <= wtol * (1 + top) * (
            I.yscale if kind in uoi.LINEAR else 1.), 'units-coef',
            'coefficients differ from those of the standardized data',
            got=C, want=C2)
        e2 = X.dot(C2.T) + b2 + I.ymean - I.mean.dot(C2.T)
        if K > 1:
            eta = eta - eta.mean(axis=1, keepdims=True)
            e2 = e2 - e2.mean(axis=1, keepdims=True)
        # saturated predictors move with the solver's stopping point
        rec.check(np.abs(eta - e2).max() <= (wtol * (1 + np.abs(e2).max()) + (
            1e-8 * size)) * (I.yscale if kind in uoi.LINEAR else
                             2.), 'units-intercept',
            'predictors differ from those of the standardized data by %g' %
            np.abs(eta - e2).max(), b=b)
    finish(case, rec, m, C, K)


def finish(case, rec, m, C, K):
    if C.any():
        P = case['model']['params']
        rec.seen(case['model']['kind'], K, P['standardize'],
                 P['fit_intercept'], bool(case.get('sparse')),
                 case['data'].get('loc'), case['data'].get('scale'))
    rec.sample = dict(coef=C, intercept=m.intercept_)
