import hashlib

import numpy as np

from harness import gen

PROPERTY = 'C13'
RULE = ('Each case takes one object through a history of fits on data of '
        'different shapes, class structure and formats, failing fits (bad '
        'input, or a learner made to fail at a chosen call), predictions and '
        'work with other objects, then compares its next fit with that of a '
        'fresh object with the same settings and generator state, bitwise. '
        'Results held from other objects are digested before and after. '
        'Non-trivial: the history had at least one earlier fit and the last '
        'fit has a nonzero coefficient or component.')
ASSUMPTIONS = ['Stand-alone learners are compared without warm starts, which '
               'are a documented dependence on history.']
REQUIRED = {'compared': 150, 'failed_fits': 60, 'injected_failures': 15,
            'histories_with_shape_change': 80, 'held_results': 100,
            'after_constant': 8, 'to_constant': 8}
KINDS = ('lasso', 'pyc', 'en', 'logit', 'pois', 'nmf', 'nmfbase', 'cur',
         'ucur', 'mlr', 'poisson')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    out = []
    for kind in KINDS:
        for i in range((44 if kind in KINDS[:5] else 24) * k):
            rng = np.random.RandomState([seed, i, 13, sum(map(ord, kind))])
            steps = []
            for _ in range(int(rng.randint(1, 5))):
                steps.append(dict(
                    what=gen.pick(rng, 'fit', 'fit', 'fit', 'bad', 'inject',
                                  'other', 'predict', 'constant',
                                  'weak'),
                    seed=int(rng.randint(1 << 30))))
            if not any(s['what'] == 'fit' for s in steps):
                steps[0]['what'] = 'fit'
            c = dict(kind=kind, steps=steps, seed=int(rng.randint(1 << 30)),
                     last=gen.pick(rng, 'fit', 'fit', 'fit', 'same',
                                   'constant'),
                     name='c13%s%d' % (kind, i))
            if kind in KINDS[:5]:
                m = gen.model_case(rng, 'lasso' if kind == 'pyc' else kind)
                if i % 11 == 5:
                    m = gen.large_case(rng, int(rng.randint(6)),
                                       'lasso' if kind == 'pyc' else kind)
                    m['model']['params'] = gen.full(m['model'])
                P = m['model']['params']
                P.pop('random_state')
                if kind == 'pyc':
                    P.update(solver='pyc', fit_intercept=True,
                             standardize=True)
                if kind == 'logit':
                    P['shared_support'] = bool(rng.rand() < .8)
                if rng.rand() < .2:
                    # few features selected, in few resamples
                    P['n_C' if kind == 'logit' else 'n_lambdas'] = int(
                        rng.randint(1, 3))
                    P['eps'] = .9
                    P['n_boots_sel'] = 6
                    P['stability_selection'] = gen.pick(rng, 6, [6, 4], 5)
                c['params'] = P
            out.append(c)
    return out


def data(kind, seed, params=None, constant=False, weak=False):
    """A data set for a kind: (args, kwargs) of fit."""
    from harness import uoi
    import scipy.sparse as sps
    rng = np.random.RandomState(seed)
    if kind in ('nmf', 'nmfbase'):
        n, p = rng.randint(8, 25), rng.randint(5, 9)
        X = rng.gamma(1., size=(n, 3)).dot(rng.gamma(.5, size=(3, p))) + .01
        return (X,), {}
    if kind in ('cur', 'ucur'):
        n, p = rng.randint(12, 30), rng.randint(8, 30)
        X = rng.randn(n, p) * np.exp(rng.randn(p) * .5)
        if kind == 'ucur':
            return (X,), dict(cs=float(p / 2.))
        return (X,), dict(c=float(p / 2.))
    d = dict(seed=int(seed), n=int(rng.randint(45, 110)),
             p=int(rng.randint(2, 8)), corr=.3, strength=.6,
             loc=float(rng.choice([0., .5])))
    if weak:
        d['strength'] = 0.
    if kind in ('lasso', 'pyc', 'en'):
        d.update(kind='lin', strength=float(not weak))
    elif kind in ('pois', 'poisson'):
        d.update(kind='pois')
        if params and not params.get('fit_intercept', True):
            d['loc'] = 0.
    else:
        d.update(kind='bin', n=int(rng.randint(80, 120)))
        if rng.rand() < .5:
            d.update(kind='multi', k=int(rng.randint(3, 5)))
        form = rng.randint(4)
        k = d.get('k', 2)
        if form == 1:
            d['labels'] = ['a', 'b', 'cc', 'd'][:k]
        elif form == 2:
            d['labels'] = [-3, 5, 11, 12][:k]
    X, y = uoi.dataset(d)
    kw = {}
    if kind in ('logit',):
        kw['stratify'] = y
    if constant:
        y = np.full(len(y), y[0])
        kw = {}
    sparse_ok = kind in ('logit', 'lasso', 'en') and params and not \
        params.get('fit_intercept', True)
    if sparse_ok and rng.rand() < .4:
        X = sps.csr_matrix(X)
    return (X, y), kw


def make(kind, rs, c):
    from harness import uoi
    from pyuoi import decomposition as dec
    if kind in KINDS[:5]:
        return uoi.make('lasso' if kind == 'pyc' else kind,
                        random_state=rs, **c['params'])
    s = np.random.RandomState(c['seed'])
    if kind == 'nmf':
        return dec.UoI_NMF(n_boots=3, ranks=[None, 3, [2, 3]][s.randint(3)],
                           db_eps=.9, db_min_samples=1, nmf_max_iter=40,
                           use_dissimilarity=bool(s.randint(2)),
                           random_state=rs, logger=uoi.silent_logger())
    if kind == 'nmfbase':
        from sklearn.cluster import DBSCAN
        return dec.UoI_NMF_Base(n_boots=3, ranks=[2, 3],
                                cluster=DBSCAN(eps=1.2, min_samples=1),
                                use_dissimilarity=bool(s.randint(2)),
                                random_state=rs, logger=uoi.silent_logger())
    if kind == 'cur':
        return dec.CUR(max_k=int(s.randint(1, 6)), random_state=rs)
    if kind == 'ucur':
        return dec.UoI_CUR(3, int(s.randint(1, 6)), .7,
                           stability_selection=.5, random_state=rs)
    if kind == 'mlr':
        return uoi.MaskedCoefLogisticRegression(
            penalty=['l1', 'l2'][s.randint(2)], C=float(np.exp(s.randn())),
            fit_intercept=bool(s.randint(2)), standardize=bool(s.randint(2)),
            warm_start=False, multi_class='auto')
    return uoi.Poisson(alpha=float(s.choice([0., .05])), l1_ratio=.7,
                       standardize=bool(s.randint(2)),
                       solver=['lbfgs', 'cd'][s.randint(2)],
                       warm_start=False)


def bad_fit(m, kind, rng, c):
    """A fit that must fail; returns whether it did."""
    args, kw = data(kind, rng.randint(1 << 30), c.get('params'))
    args = list(args)
    how = rng.randint(4)
    if kind in ('nmf', 'nmfbase'):
        args[0] = -args[0] if how < 2 else args[0][0]
    elif kind in ('cur', 'ucur'):
        if how < 2 and kind == 'ucur':
            kw['ks'] = [100]
        else:
            args[0] = args[0][:, :1]
            args[0] = np.full_like(args[0], np.nan)
    else:
        X = args[0].toarray() if hasattr(args[0], 'toarray') else args[0]
        if how == 0:
            X = X.copy()
            X[3, 0] = np.nan
        elif how == 1:
            args[1] = args[1][:-3]
        elif how == 2:
            X = X[:, :, None]
        elif kind in KINDS[:5]:
            kw['stratify'] = np.arange(len(args[1]))
        else:
            args[1] = args[1][:-1]
        args[0] = X
    try:
        m.fit(*args, **kw)
    except Exception:
        return True
    return False


def injected(m, kind, rng, c):
    """A fit during which a learner fails at a chosen call."""
    from harness import uoi
    args, kw = data(kind, rng.randint(1 << 30), c.get('params'))
    try:
        with uoi.inject(int(rng.choice([1, 2, 5, 12, 25]))):
            m.fit(*args, **kw)
    except uoi.Boom:
        return True
    return False


def held(m):
    """References to the arrays a fitted object exposes, and digests."""
    out = []
    for k, v in sorted(vars(m).items()):
        if isinstance(v, np.ndarray) and k.endswith('_'):
            out.append((k, v, hashlib.sha1(
                np.ascontiguousarray(v).tobytes()).hexdigest()))
    return out


def run(case, rec):
    from harness import uoi
    kind, P = case['kind'], case.get('params')
    rs = np.random.RandomState(case['seed'])
    refs = []
    last = None
    fits = 0
    with uoi.quiet():
        m = make(kind, rs, case)
        bystander = make(kind, np.random.RandomState(1), case)
        args, kw = data(kind, case['seed'] + 1, P)
        bystander.fit(*args, **kw)
        refs += held(bystander)
        for st in case['steps']:
            rng = np.random.RandomState(st['seed'])
            w = st['what']
            if w == 'bad':
                rec.count('failed_fits', bad_fit(m, kind, rng, case))
            elif w == 'inject':
                if injected(m, kind, rng, case):
                    rec.count('failed_fits')
                    rec.count('injected_failures')
            elif w == 'other':
                other = make(kind, np.random.RandomState(2), case)
                a, k = data(kind, st['seed'] + 5, P)
                other.fit(*a, **k)
                refs += held(other)
            elif w == 'predict':
                if fits:
                    f = getattr(m, 'predict', None) or m.transform
                    try:
                        f(last[0][0])
                    except Exception:
                        # after a failed fit
                        rec.count('predict_failed')
            elif w == 'constant' and kind in ('lasso', 'pyc', 'en', 'pois'):
                a, k = data(kind, st['seed'], P, constant=True)
                m.fit(*a, **k)
                rec.count('after_constant')
            else:
                last = data(kind, st['seed'], P, weak=w == 'weak')
                m.fit(*last[0], **last[1])
                fits += 1
        if case['last'] == 'same' and last is not None:
            final = last
        elif case['last'] == 'constant' and kind in ('lasso', 'pyc', 'en',
                                                     'pois'):
            final = data(kind, case['seed'] + 2, P, constant=True)
            rec.count('to_constant')
        else:
            final = data(kind, case['seed'] + 2, P)
        if last is not None and last[0][0].shape[1] != \
                final[0][0].shape[1]:
            rec.count('histories_with_shape_change')
        rs2 = np.random.RandomState()
        rs2.set_state(rs.get_state())
        m.fit(*final[0], **final[1])
        fresh = make(kind, rs2, case)
        fresh.fit(*final[0], **final[1])
        a, b = snapshot(m, kind, final), snapshot(fresh, kind, final)
    rec.count('compared')
    bad = uoi.same_attrs(b, a)
    rec.check(not bad, 'refit', '%s after %s: %s' % (
        kind, [s['what'] for s in case['steps']], bad),
        fresh=b.get('coef_', b.get('components_')),
        refit=a.get('coef_', a.get('components_')))
    rec.check(np.array_equal(rs.get_state()[1], rs2.get_state()[1]) and
              rs.get_state()[2:] == rs2.get_state()[2:], 'generator',
              'the refit draws differently')
    for name, v, h in refs:
        rec.count('held_results')
        rec.check(hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()
                  == h, 'held', 'an earlier result of another object '
                  'changed: %s' % name)
    main = b.get('coef_', b.get('components_'))
    if fits and main is not None and np.any(main):
        rec.seen(kind, tuple(s['what'] for s in case['steps']), case['last'])
    rec.sample = dict(steps=[s['what'] for s in case['steps']], result=main)


def snapshot(m, kind, final):
    from harness import uoi
    out = uoi.attrs(m)
    X = final[0][0]
    if kind in ('nmf', 'nmfbase', 'cur', 'ucur'):
        out['transform'] = np.array(m.transform(X))
    elif 'coef_' in out:
        out['predict'] = np.array(m.predict(X))
    return out
