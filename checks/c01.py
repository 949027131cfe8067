import numpy as np

from harness import gen

PROPERTY = 'C01'
RULE = ('Random datasets, models, grids, bootstrap numbers and stability '
        'settings; every selection fit is recorded at the learner and the '
        'candidate supports are recomputed from the recorded coefficients. '
        'Non-trivial: at least two distinct supports.')
ASSUMPTIONS = ['Selection fits go through the fit method of the learner '
               'classes.']
REQUIRED = {'supports_compared': 1100, 'learner_fits': 12000}


def cases(tier, seed):
    n = 280 if tier == 'quick' else 1800
    out = gen.cases(seed, n, 'c01')
    k = 56 if tier == 'quick' else 240
    out += gen.cases(seed, k, 'c01e', kind='logit',
                     data=dict(kind='multi', k=3), params=dict(
                         shared_support=False))
    out += gen.cases(seed, k, 'c01s', kind='logit',
                     data=dict(kind='multi', k=4), params=dict(
                         shared_support=True))
    for i in range(k):
        rng = np.random.RandomState([seed, i, 77])
        c = gen.model_case(rng, 'lasso')
        c['model']['params'].update(solver='pyc', fit_intercept=True)
        c['name'] = 'pyc%d' % i
        out.append(c)
    # coefficients of any magnitude: extreme units, not standardized
    for i in range(k):
        rng = np.random.RandomState([seed, i, 78])
        c = gen.model_case(rng, ['lasso', 'en'][i % 2])
        c['model']['params'].update(standardize=False, max_iter=20000)
        c['data'].update(loc=0., scale=float(10. ** rng.randint(-4, 10)),
                         yscale=float(10. ** rng.randint(-9, 4)),
                         scale_spread=2.)
        c['name'] = 'units%d' % i
        out.append(c)
    out += gen.sparse_cases(seed, k, 'c01sp')
    # more features than fit in a machine word
    for i in range(k // 2):
        rng = np.random.RandomState([seed, i, 79])
        c = gen.model_case(rng, ['lasso', 'en', 'logit'][i % 3])
        c['data'].update(n=int(rng.randint(60, 120)),
                         p=int(rng.randint(65, 140)), inf=12, loc=0.)
        c['model']['params'].update(
            n_boots_sel=2, n_boots_est=2,
            stability_selection=[1., .5, [1, 2], [.5, 1.]][i % 4])
        c['name'] = 'wide%d' % i
        out.append(c)
    # many classes
    for i in range(k // 2):
        rng = np.random.RandomState([seed, i, 80])
        c = gen.model_case(rng, 'logit')
        c['data'].update(kind='multi', k=int(rng.randint(5, 8)), loc=0.,
                         n=int(rng.randint(150, 250)), inf=2, same=False)
        c['data']['p'] = max(4, c['data']['p'])
        c['model']['params'].update(shared_support=i % 4 > 0, n_boots_est=2,
                                    max_iter=300)
        c['name'] = 'classes%d' % i
        out.append(c)
    for i in range(k):
        out.append(dict(helper=True, seed=[seed, i, 81],
                        name='helper%d' % i))
    # many bootstraps, several thresholds as an array
    for i, c in enumerate(gen.cases(seed, k, 'c01b')):
        B = 12
        c['model']['params'].update(
            n_boots_sel=B, stability_selection=[[4, 8, 12], [1, 12],
                                                [.55, .8, 1.],
                                                [.3]][i % 4])
        c['array'] = True
        out.append(c)
    out += gen.large_cases(seed, 48 if tier == 'quick' else 240, 'c01')
    return out


def helper(case, rec):
    """The intersection of given coefficients."""
    from pyuoi.linear_model.utils import intersection
    rng = np.random.RandomState(case['seed'])
    B, L = int(rng.randint(1, 9)), int(rng.randint(1, 120))
    p = int(rng.choice([1, 2, 5, 31, 33, 63, 65, 70, 130, 200]))
    if rng.rand() < .2:
        # hundreds of resamples, or of strengths
        if rng.rand() < .6:
            B, L, p = int(rng.randint(100, 600)), int(rng.randint(1, 8)), \
                min(p, 33)
        else:
            L = int(rng.randint(120, 700))
    C = np.zeros((B, L, p))
    # each strength has one or a few features of its own
    for j in range(L):
        f = rng.randint(p, size=rng.randint(0, 4))
        q = .8 if B < 9 else rng.choice([.3, .8, .99, 1.])
        for b in range(B):
            keep = f[rng.rand(f.size) < q]
            C[b, j, keep] = rng.randn(keep.size) * 10. ** rng.randint(
                -300, 300, keep.size)
    th = np.sort(rng.randint(1, B + 1, size=rng.randint(1, 6)))
    C0 = C.copy()
    if rng.rand() < .2:
        S = np.asarray(intersection(C))
        th = [B]
    else:
        S = np.asarray(intersection(C, th if rng.rand() < .5 else list(th)))
    n = (C != 0).sum(axis=0)
    want = {tuple((row >= q).tolist()) for row in n for q in th}
    rec.count('helper_supports', len(want))
    rec.check(np.array_equal(C, C0), 'helper-modified', 'coefficients')
    rec.check(S.dtype == bool and S.ndim == 2 and S.shape[1] == p,
              'helper-shape', (S.dtype, S.shape))
    got = [tuple(r) for r in S.tolist()]
    rec.check(len(set(got)) == len(got), 'duplicates',
              'a support is listed twice')
    rec.check(set(got) == want, 'supports',
              'intersection() gives %d supports, not %d' % (len(set(got)),
                                                            len(want)),
              thresholds=th)
    rec.seen('helper', p, len(want))


def run(case, rec):
    if case.get('helper'):
        return helper(case, rec)
    from harness import traced, uoi
    spec = gen.full(case['model'])['stability_selection']
    if case.get('array'):
        case['model']['params']['stability_selection'] = np.array(spec)
    t = traced.run(case, rec)
    m = t.model
    K, p = traced.n_outputs(t), t.internal.p
    B = m.n_boots_sel
    th = uoi.thresholds(spec, B)
    S = np.asarray(m.supports_)
    rec.check(S.dtype == bool, 'dtype', S.dtype)
    rec.check(S.ndim == 2 and S.shape[1] == (p if m.shared_support or K == 1
                                             else p * K),
              'shape', S.shape)
    rec.check(len({tuple(r) for r in S.tolist()}) == len(S), 'duplicates',
              'a support is listed twice', supports=S)
    rec.check(m.n_supports_ == len(S), 'count', m.n_supports_)
    if not t.sel:
        rec.count('unobserved')
        return
    rec.check(t.unmatched == 0, 'foreign-rows',
              '%d fits saw rows that are not in the data' % t.unmatched)
    pyc = case['model']['params'].get('solver') == 'pyc'
    # coefficients per (resample, strength)
    table = {}
    for e in t.sel:
        if pyc:
            for a, c in zip(e['ev'].params['alphas'], np.asarray(
                    e['ev'].coef)):
                full = np.zeros((1, p))
                full[0, e['cols']] = c
                table.setdefault((e['key'], (float(a),)), []).append(full)
        else:
            table.setdefault((e['key'], traced.reg_key(
                e['ev'].params, t.kind)), []).append(traced.full_coef(t, e))
    regs = list(dict.fromkeys(k[1] for k in table))
    P = gen.full(case['model'])
    nreg = P.get('n_C') or P['n_lambdas']
    nreg *= len(case['model']['params'].get('alphas', [0]))
    rec.check(len(t.sel_boots) == B, 'boots',
              'selection used %d resamples, not %d' % (len(t.sel_boots), B))
    rec.check(len(regs) == nreg, 'strengths',
              '%d strengths were fitted, not %d' % (len(regs), nreg))
    miss = [1 for b in t.sel_boots for r in regs if (b, r) not in table]
    rec.check(not miss, 'missing-fits', '%d selection fits missing'
              % len(miss))
    if miss:
        return
    counts = np.array([sum((table[b, r][-1] != 0).astype(int)
                           for b in t.sel_boots) for r in regs])
    want = set()
    for q in th:
        for c in counts:
            s = c >= q
            if m.shared_support or K == 1:
                want.add(tuple(s.any(axis=0).tolist()))
            else:
                want.add(tuple(s.ravel().tolist()))
    got = {tuple(r) for r in S.tolist()}
    rec.count('supports_compared', len(want))
    rec.check(want == got, 'supports',
              'candidate supports differ from the intersections',
              missing=[np.flatnonzero(s).tolist() for s in want - got],
              extra=[np.flatnonzero(s).tolist() for s in got - want],
              thresholds=th)
    if len(want) > 1:
        rec.seen(t.kind, K, len(want), tuple(sorted(
            sum(map(int, w)) for w in want)))
    rec.sample = dict(supports=len(want), strengths=len(regs), boots=B,
                      thresholds=th)
