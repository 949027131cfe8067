import numpy as np

from harness import gen

PROPERTY = 'C02'
RULE = ('Random datasets, fractions, bootstrap numbers, stratifications and '
        'models; the rows every learner fit received are recovered by value. '
        'Non-trivial: at least two selection and two estimation resamples '
        'were recovered.')
ASSUMPTIONS = ['Learners receive the internally standardized (or raw) data.']
REQUIRED = {'fits_matched': 14000, 'resamples': 3500}


def cases(tier, seed):
    k = 4 if tier == 'quick' else 24
    out = gen.cases(seed, 60 * k, 'c02')
    for i in range(30 * k):
        rng = np.random.RandomState([seed, i, 3])
        fr = [float(np.round(rng.uniform(.3, .95), 3)) for _ in range(2)]
        c = gen.model_case(rng, params=dict(
            selection_frac=fr[0], estimation_frac=fr[1]))
        c['name'] = 'frac%d' % i
        out.append(c)
    for i in range(30 * k):
        rng = np.random.RandomState([seed, i, 4])
        c = gen.model_case(rng, kind=gen.pick(rng, 'lasso', 'en', 'logit',
                                              'pois'))
        c['stratify'] = 'y' if c['model']['kind'] == 'logit' else 'groups'
        c['data']['n'] = int(rng.randint(80, 200))
        c['name'] = 'strat%d' % i
        out.append(c)
    for i in range(16 * k):
        rng = np.random.RandomState([seed, i, 5])
        c = gen.model_case(rng, params=dict(n_boots_sel=12, n_boots_est=14,
                                            stability_selection=.5))
        if c['model']['kind'] == 'logit':
            c['model']['params']['n_C'] = 3
        c['name'] = 'many%d' % i
        out.append(c)
    out += gen.sparse_cases(seed, 12 * k, 'c02sp')
    for i, c in enumerate(gen.cases(seed, 12 * k, 'c02l')):
        # stratification vectors of any array-like kind
        c['stratify'] = 'y' if c['model']['kind'] == 'logit' else 'groups'
        c['stratify_as'] = ['list', 'str', 'float', 'series'][i % 4]
        c['data']['n'] = max(c['data']['n'], 80)
        out.append(c)
    for i in range(8 * k):
        # resamples which coincide now and then are rare
        rng = np.random.RandomState([seed, i, 6])
        c = gen.model_case(rng, kind=['lasso', 'en'][i % 2], params=dict(
            n_boots_sel=80, n_boots_est=80, stability_selection=.5,
            n_lambdas=2, selection_frac=.5, estimation_frac=.5))
        c['data']['p'] = min(c['data']['p'], 3)
        c['name'] = 'hundreds%d' % i
        out.append(c)
    out += gen.large_cases(seed, 12 * k, 'c02')
    return out


def check_boots(rec, t, evs, boots, B, frac, what):
    I = t.internal
    n = I.n
    rec.count('resamples', len(boots))
    rec.check(len(boots) == B, what + '-number',
              '%d distinct %s resamples, %d requested' % (len(boots), what,
                                                          B))
    for k in boots:
        rec.check(len(set(k)) == len(k), what + '-replacement',
                  'a resample repeats rows')
        rec.check(abs(len(k) - frac * n) < 1 + 1e-9, what + '-size',
                  '%d rows of %d for fraction %g' % (len(k), n, frac))
        if t.stratify is not None:
            g = np.asarray(t.stratify)
            for u in np.unique(g):
                tot = np.sum(g == u)
                got = np.sum(g[list(k)] == u)
                rec.check(abs(got - tot * len(k) / n) <= 1.5,
                          what + '-stratify',
                          'group %r: %d of %d rows in %d of %d' % (
                              u, got, tot, len(k), n))
    sizes = {len(k) for k in boots}
    rec.check(len(sizes) <= 1, what + '-size', 'sizes differ %s' % sizes)
    for e in evs:
        rec.count('fits_matched')
        ye = np.asarray(e['ev'].y).ravel().astype(float)
        yr = I.y[e['rows']]
        ok = np.allclose(ye, yr, rtol=1e-8,
                         atol=1e-8 * (1 + np.abs(I.y).max()))
        if not ok and t.kind == 'logit':
            # a learner may also be given the original labels
            ok = np.array_equal(np.asarray(e['ev'].y), t.y[e['rows']])
        rec.check(ok, what + '-pairing', 'responses do not belong to rows')


def run(case, rec):
    from harness import traced
    t = traced.run(case, rec)
    m = t.model
    if not t.observed:
        rec.count('unobserved')
        return
    rec.check(t.unmatched == 0, 'foreign-rows',
              '%d fits saw rows that are not in the data' % t.unmatched)
    check_boots(rec, t, t.sel, t.sel_boots, m.n_boots_sel, m.selection_frac,
                'selection')
    S = np.asarray(m.supports_)
    nonempty = int(S.any(axis=1).sum())
    if nonempty:
        check_boots(rec, t, t.est, t.est_boots, m.n_boots_est,
                    m.estimation_frac, 'estimation')
    both = set(t.sel_boots) & set(t.est_boots)
    rec.check(not both, 'shared-resamples',
              'selection and estimation reuse %d resamples' % len(both))
    # every strength and every support once per resample
    regs = {}
    for e in t.sel:
        if 'alphas' in e['ev'].params:
            key = tuple(e['ev'].params['alphas'])
        else:
            key = traced.reg_key(e['ev'].params, t.kind)
        regs.setdefault(e['key'], []).append(key)
    sets = {frozenset(v) for v in regs.values()}
    rec.check(len(sets) <= 1, 'selection-strengths',
              'resamples were fitted with different strengths')
    for v in regs.values():
        rec.check(len(v) == len(set(v)), 'selection-repeat',
                  'a strength was fitted twice on a resample')
    sup = {}
    for e in t.est:
        sup.setdefault(e['key'], []).append(
            tuple(traced.event_support(t, e).tolist()))
    want = {tuple(s.tolist()) for s in S if s.any()}
    for v in sup.values():
        rec.check(set(v) == want and len(v) == len(want),
                  'estimation-supports',
                  'a resample was not used for every support once',
                  got=len(v), want=len(want))
    if len(t.sel_boots) > 1 and len(t.est_boots) > 1:
        rec.seen(t.kind, len(t.sel_boots), len(t.est_boots),
                 len(t.sel_boots[0]), len(t.est_boots[0]), I_n(t),
                 t.stratify is not None)
    rec.sample = dict(selection=len(t.sel_boots), estimation=len(t.est_boots),
                      rows=I_n(t), train=len(t.sel_boots[0]))


def I_n(t):
    return t.internal.n
