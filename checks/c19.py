import numpy as np

from harness import gen

PROPERTY = 'C19'
RULE = ('Each case fits a model for a grid size, ratio, mixing list and '
        'intercept setting, twice on different data with one object. The '
        'path on the object is judged: counts per mixing value, even log '
        'spacing, ratio of the ends, decreasing order, and the first '
        'strength against the null-model gradient computed independently '
        'from the internal data. Learners of the same configuration are '
        'then fitted just above and clearly below the first strength, and '
        'the strengths every bootstrap was given in the trace are compared '
        'with the path. Non-trivial: an informative null gradient.')
ASSUMPTIONS = ['With a single strength either end of the range is accepted.',
               'The first strength is that of the data the model works on '
               '(standardized if requested).']
REQUIRED = {'paths': 370, 'null_probes': 520, 'active_probes': 520,
            'traced_boots': 550, 'mixes': 540, 'refits': 120,
            'unit_paths': 50}


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for i in range(500 * t):
        rng = np.random.RandomState([seed, i, 19])
        kind = gen.pick(rng, 'lasso', 'en', 'logit', 'logit', 'pois', 'pois')
        c = gen.model_case(rng, kind)
        P = c['model']['params']
        P.update(n_boots_sel=int(rng.randint(1, 3)), n_boots_est=1,
                 stability_selection=1.)
        key = 'n_C' if kind == 'logit' else 'n_lambdas'
        P[key] = int(gen.pick(rng, 1, 2, 3, 5, 9, 16))
        P['eps'] = float(gen.pick(rng, 1e-3, 1e-2, .1, .5, rng.uniform(
            2e-3, .9)))
        if rng.rand() < .05:
            P[key] = int(rng.randint(17, 40))
        if rng.rand() < .1:
            # a wide range
            P['eps'] = float(np.exp(-rng.uniform(7, 20)))
            P[key] = int(rng.randint(1, 5))
            P['max_iter'] = 300
        if kind in ('en', 'pois') and rng.rand() < .8:
            P['alphas'] = [round(float(a), 3) for a in
                           rng.uniform(.05, 1., rng.randint(1, 4))]
            if rng.rand() < .3:
                P['alphas'][0] = 1.
            elif rng.rand() < .15:
                P['alphas'][0] = float(gen.pick(rng, .001, .01, .03))
        if kind == 'lasso' and P['standardize'] and rng.rand() < .3:
            P.update(solver='pyc', fit_intercept=True)
        if kind in ('lasso', 'en', 'logit') and rng.rand() < .12:
            c['sparse'] = True
            P['standardize'] = False
            P.pop('solver', None)
        c['data'].update(p=min(c['data']['p'], 6))
        if P.get('solver') != 'pyc' and rng.rand() < .12:
            # predictors in tiny or huge units: only the path is judged
            P['standardize'] = False
            c['unit'] = float(10. ** gen.pick(rng, -9, -7, -5, -3)
                              if kind == 'pois' else
                              10. ** gen.pick(rng, -9, -7, -5, -3, 4, 7))
            P['max_iter'] = 200
        if i % 12 == 7:
            # many strengths, samples or features
            form = int(rng.randint(3))
            if form == 0:
                P[key] = int(rng.randint(40, 160 if kind in ('lasso', 'en')
                                         else 90))
                P['eps'] = max(P['eps'], .01)
            elif form == 1:
                c['data']['n'] = int(rng.randint(800, 3000))
                P[key] = min(P[key], 6)
            else:
                c['data'].update(p=int(rng.randint(40, 200)), corr=0.,
                                 loc=0., n=int(rng.randint(120, 300)))
                P[key] = min(P[key], 4)
                P['eps'] = max(P['eps'], .1)
        c['two'] = bool(rng.rand() < .5)
        c['stratify'] = 'y' if kind == 'logit' else None
        c['name'] = 'c19%s%d' % (kind, i)
        out.append(c)
    return out


def null_gradient(I, P, kind):
    """Largest gradient entry of the mean loss at the null model."""
    X, y, n = I.X, I.y, I.n
    fi = P['fit_intercept']
    if kind in ('lasso', 'en'):
        if fi:
            X, y = X - X.mean(axis=0), y - y.mean()
        return np.abs(X.T.dot(y)).max() / n
    if kind == 'pois':
        return np.abs(X.T.dot(y - (y.mean() if fi else 1.))).max() / n
    k = I.classes.size
    Y = np.eye(k)[y]
    if k == 2 and P.get('multi_class', 'auto') == 'auto':
        Y = Y[:, 1:]
        null = Y.mean(axis=0) if fi else .5
    else:
        null = Y.mean(axis=0) if fi else 1. / k
    return np.abs(X.T.dot(Y - null)).max() / n


def strength(r, kind):
    return 1. / r['C'] if kind == 'logit' else r['alpha']


def judge(case, rec, m, P, kind, data):
    """The path m has after a fit of data."""
    from harness import uoi
    X, y = data
    I = uoi.Internal(kind, X, y, P['standardize'], P['fit_intercept'])
    num = P['n_C' if kind == 'logit' else 'n_lambdas']
    rp = m.reg_params_
    mixes = [None]
    if kind in ('en', 'pois'):
        mixes = [float(a) for a in m.alphas]
        if 'alphas' in P:
            rec.check(mixes == [float(a) for a in P['alphas']], 'mixing',
                      'alphas became %s' % mixes)
    rec.check(len(rp) == num * len(mixes), 'count',
              '%d strengths for %d mixes of %d' % (len(rp), len(mixes), num))
    g = null_gradient(I, P, kind)
    size = np.sqrt((I.X ** 2).mean(axis=0)).max()
    if g < 1e-6 * size:
        return None
    rec.count('paths')
    for q, mix in enumerate(mixes):
        part = [r for r in rp if mix is None or r['l1_ratio'] == mix]
        want = num * sum(1 for a in mixes if a == mix)
        if not rec.check(len(part) == want, 'mixing',
                         '%d strengths for mixing value %s' % (len(part),
                                                               mix)):
            continue
        part = part[:num]
        s = np.array([strength(r, kind) for r in part])
        rec.count('mixes')
        top = g / (1. if mix is None else mix)
        if num > 1:
            rec.check(np.all(np.diff(s) < 0), 'order', 'strengths %s' % s)
            rec.check(abs(s[-1] / s[0] / P['eps'] - 1) < 1e-8, 'ratio',
                      'ratio %r, asked for %r' % (s[-1] / s[0], P['eps']))
            d = np.diff(np.log(s))
            rec.check(np.ptp(d) < 1e-8 * max(1, np.abs(d).max()), 'spacing',
                      'log steps %s' % d)
            first = s[0]
        else:
            first = s[0] if abs(s[0] / top - 1) < abs(
                s[0] / top / P['eps'] - 1) else s[0] / P['eps']
        rec.check(abs(first / top - 1) < 1e-7, 'start', 'first strength '
                  '%r, null gradient gives %r' % (first, top), mix=mix)
        # what learners of the same configuration make of it
        if 'unit' in case:
            rec.count('unit_paths')
            continue
        if P.get('solver') == 'pyc':
            probe_pyc(rec, I, top)
            continue
        probe(case, rec, m, I, kind, mix, top, P)
    rec.seen(kind, num, P['eps'], len(mixes), P['fit_intercept'],
             P['standardize'])
    return g


def probe_pyc(rec, I, top):
    from pyuoi.linear_model.lasso import PycLasso
    m = PycLasso(alphas=np.array([top * 1.001, top * .9, top * .8]))
    m.fit(I.X, I.y)
    rec.count('null_probes')
    rec.check(np.abs(m.coef_[0]).max() <= 1e-6, 'null-probe',
              'coefficients %s' % m.coef_[0])
    rec.count('active_probes')
    rec.check(np.any(m.coef_[1]), 'active-probe', 'no coefficient')


def probe(case, rec, m, I, kind, mix, top, P):
    import copy
    import warnings
    for f, mech in ((1 + 1e-6, 'null'), (.9, 'active')):
        lm = copy.deepcopy(m._selection_lm)
        st = dict(C=1. / (top * f)) if kind == 'logit' else \
            dict(alpha=top * f)
        if mix is not None:
            st['l1_ratio'] = mix
        st.update(tol=1e-9, max_iter=20000, warm_start=False)
        lm.set_params(**st)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            lm.fit(I.X, I.y)
        c = np.asarray(lm.coef_)
        rec.count(mech + '_probes')
        if mech == 'null':
            unit = 1. / np.sqrt((I.X ** 2).mean(axis=0))
            rec.check(np.all(np.abs(c) <= 1e-4 * unit), 'null-probe',
                      'coefficients %s at the first strength' % c, mix=mix)
        else:
            rec.check(np.any(c), 'active-probe',
                      'no coefficient at 0.9 of the first strength')


def run(case, rec):
    from harness import uoi
    import scipy.sparse as sps
    kind = case['model']['kind']
    P = dict(case['model']['params'])
    data = [uoi.dataset(case['data'])]
    if case['two']:
        d2 = dict(case['data'], seed=case['data']['seed'] + 1,
                  n=case['data']['n'] + 7)
        X2, y2 = uoi.dataset(d2)
        data.append((3. * X2 if P['standardize'] else .6 * X2, y2))
    if 'unit' in case:
        data = [(case['unit'] * a, b) for a, b in data]
    m = uoi.make(kind, **P)
    prev = None
    for X, y in data:
        kw = {}
        if case['stratify'] == 'y':
            kw['stratify'] = y
        with uoi.Trace(keep_data=True) as tr:
            m.fit(sps.csr_matrix(X) if case.get('sparse') else X, y, **kw)
        g = judge(case, rec, m, P, kind, (X, y))
        if prev is not None:
            rec.count('refits')
        prev = g
        # every bootstrap saw the whole path
        want = sorted(tuple(sorted(r.items())) for r in m.reg_params_)
        boots = {}
        for ev in tr.events:
            if ev.role != 'sel':
                continue
            key = uoi.dense(ev.X).tobytes()
            if ev.cls == 'PycLasso':
                got = [(('alpha', float(a)),) for a in ev.params['alphas']]
            else:
                got = [tuple((q, ev.params[q]) for q in ('C', 'alpha',
                                                         'l1_ratio')
                             if m.reg_params_ and q in m.reg_params_[0])]
            boots.setdefault(key, []).extend(got)
        for got in boots.values():
            rec.count('traced_boots')
            ok = len(got) == len(want)
            if ok:
                ok = np.allclose([[v for _, v in r] for r in sorted(got)],
                                 [[v for _, v in r] for r in want],
                                 rtol=1e-12, atol=0)
            rec.check(ok, 'trace', 'a bootstrap was fitted at %d strengths, '
                      'the path has %d' % (len(got), len(want)),
                      got=got[:4], want=want[:4])
    rec.sample = dict(null=prev, first=m.reg_params_[0])
