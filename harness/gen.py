"""Generators of cases (plain JSON) for the regression models."""
import numpy as np


def pick(rng, *options):
    return options[rng.randint(len(options))]


def stab(rng, B):
    """A stability setting whose meaning is unambiguous."""
    def frac(k):
        # safely inside [k / B, (k + 1) / B)
        return float((k + rng.uniform(.15, .6)) / B) if k < B else 1.
    form = rng.randint(5)
    if form == 0:
        return 1.
    if form == 1:
        return int(rng.randint(1, B + 1))
    if form == 2:
        return frac(int(rng.randint(1, B + 1)))
    ks = sorted(set(int(k) for k in rng.randint(1, B + 1,
                                                size=rng.randint(1, 4))))
    if rng.rand() < .3:
        ks = ks[::-1]
    if form == 3:
        return ks
    return [frac(k) for k in ks]


def model_case(rng, kind=None, big=False, **over):
    kind = kind or pick(rng, 'lasso', 'en', 'logit', 'logit', 'pois')
    n = int(rng.randint(45, 140))
    p = int(rng.randint(2, 9))
    if big:
        n, p = int(rng.randint(100, 400)), int(rng.randint(5, 25))
    d = dict(n=n, p=p, seed=int(rng.randint(1 << 30)),
             inf=int(rng.randint(1, p + 1)),
             corr=float(pick(rng, 0., 0., .3, .7)),
             b0=float(rng.uniform(-.7, .7)))
    B = int(rng.randint(2, 7))
    m = dict(n_boots_sel=B, n_boots_est=int(rng.randint(2, 6)),
             selection_frac=float(pick(rng, .5, .7, .8, .9)),
             estimation_frac=float(pick(rng, .5, .7, .8, .9)),
             stability_selection=stab(rng, B),
             fit_intercept=bool(rng.rand() < .75),
             standardize=bool(rng.rand() < .7),
             random_state=int(rng.randint(1 << 20)))
    nreg = int(rng.randint(2, 9))
    if kind in ('lasso', 'en'):
        d['kind'] = 'lin'
        d['noise'] = float(pick(rng, .2, 1., 3.))
        m['n_lambdas'] = nreg
        m['eps'] = float(pick(rng, 1e-1, 1e-2, 1e-3))
        m['estimation_score'] = pick(rng, 'r2', 'AIC', 'AICc', 'BIC')
        m['warm_start'] = bool(rng.rand() < .6)
        if kind == 'en':
            m['alphas'] = pick(rng, [.5], [1.], [.3, .8], [.9, .5, .2])
    elif kind == 'logit':
        d['kind'] = pick(rng, 'bin', 'bin', 'multi')
        m['n_C'] = nreg
        m['eps'] = float(pick(rng, 1e-1, 1e-2, 1e-3))
        m['estimation_score'] = pick(rng, 'acc', 'log', 'AIC', 'AICc', 'BIC')
        m['multi_class'] = pick(rng, 'auto', 'auto', 'multinomial')
        m['shared_support'] = bool(rng.rand() < .6) or d['kind'] == 'bin'
        m['warm_start'] = bool(rng.rand() < .3)
        d['strength'] = .6
        d['n'] = max(n, 70)
        if d['kind'] == 'multi':
            d['k'] = int(rng.randint(3, 5))
            d['same'] = bool(rng.rand() < .5)
    else:
        d['kind'] = 'pois'
        m['n_lambdas'] = nreg
        m['eps'] = float(pick(rng, 1e-1, 1e-2, 1e-3))
        m['estimation_score'] = pick(rng, 'log', 'AIC', 'AICc', 'BIC')
        m['solver'] = pick(rng, 'lbfgs', 'lbfgs', 'cd')
        m['warm_start'] = bool(rng.rand() < .5)
        if rng.rand() < .4:
            m['alphas'] = pick(rng, [1.], [.5], [.9, .4])
    if m['estimation_score'] not in ('acc',) and rng.rand() < .5:
        m['estimation_target'] = pick(rng, 'train', 'test')
    if rng.rand() < .6:
        d['loc'] = float(pick(rng, 1., 3., 10.))
    if rng.rand() < .6:
        d['scale_spread'] = 1.
        d['scale'] = float(pick(rng, .3, 1., 3.))
    if not m['standardize'] and kind in ('pois', 'logit'):
        # keep the linear predictor in range without standardization
        d['scale'] = 1.
        d['scale_spread'] = .3
        d['loc'] = float(pick(rng, 0., .5))
    if not m['fit_intercept'] and kind == 'pois':
        d['loc'] = 0.
    if not m['fit_intercept'] and kind == 'logit':
        # far from zero without centering is only slow
        d['loc'] = min(1., d.get('loc', 0.))
    c = dict(data=d, model=dict(kind=kind, params=m))
    if kind == 'logit' and rng.rand() < .6:
        c['stratify'] = 'y'
    elif rng.rand() < .25:
        c['stratify'] = 'groups'
    for k, v in over.items():
        if k in ('data',):
            d.update(v)
        elif k == 'params':
            m.update(v)
        else:
            c[k] = v
    return c


def cases(seed, n, tag, **kw):
    out = []
    for i in range(n):
        rng = np.random.RandomState([seed, i, sum(map(ord, tag))])
        c = model_case(rng, **kw)
        c['name'] = '%s%d' % (tag, i)
        out.append(c)
    return out


def sparse_cases(seed, n, tag, **kw):
    """Cases handed over as sparse matrices, which cannot be centered."""
    out = []
    for i in range(n):
        rng = np.random.RandomState([seed, i, 7, sum(map(ord, tag))])
        c = model_case(rng, pick(rng, 'lasso', 'en', 'logit'), **kw)
        c['model']['params']['fit_intercept'] = False
        c['data']['loc'] = min(1., c['data'].get('loc', 0.))
        c['sparse'] = pick(rng, 'csr', 'csc', 'coo')
        c['name'] = '%s%d' % (tag, i)
        out.append(c)
    return out


DIMS = ('n', 'p', 'reg', 'boots', 'default', 'thresholds')


def large_case(rng, i, kind=None):
    """A case with one dimension far larger than usual, or all settings that
    have defaults at their defaults."""
    kind = kind or ('lasso', 'en', 'logit', 'pois')[(i // len(DIMS)) % 4]
    dim = DIMS[i % len(DIMS)]
    c = model_case(rng, kind)
    d, m = c['data'], c['model']['params']
    m['n_boots_sel'] = min(m['n_boots_sel'], 4)
    m['n_boots_est'] = min(m['n_boots_est'], 3)
    m['stability_selection'] = stab(rng, m['n_boots_sel'])
    reg = 'n_C' if kind == 'logit' else 'n_lambdas'
    fast = kind in ('lasso', 'en')
    if not fast:
        d['loc'] = min(d.get('loc', 0.), .5)
        m['eps'] = max(m['eps'], 1e-2)
    if dim == 'n':
        d['n'] = int(rng.randint(1000, 4000))
    elif dim == 'p':
        d['p'] = int(rng.randint(70, 260) if fast else rng.randint(66, 110))
        d['inf'] = min(d['inf'], 8)
        d['loc'] = 0.
        d['scale'], d['scale_spread'] = 1., .3
        d['n'] = int(rng.randint(300, 500))
        d['corr'] = 0.
        m[reg] = min(m[reg], 4)
        m['eps'] = max(m['eps'], .1)
        if kind == 'pois':
            d['strength'] = .3
    elif dim == 'reg':
        m[reg] = int(rng.randint(40, 100) if fast else rng.randint(20, 60))
    elif dim == 'boots':
        B = int(rng.randint(25, 110) if fast else rng.randint(25, 50))
        m['n_boots_sel'] = B
        m['n_boots_est'] = int(rng.randint(24, 60))
        m['stability_selection'] = stab(rng, B)
        m[reg] = min(m[reg], 4)
    elif dim == 'thresholds':
        B = 20
        m['n_boots_sel'] = B
        m['stability_selection'] = [int(q) for q in rng.permutation(
            np.arange(1, B + 1))[:rng.randint(8, B)]]
        m[reg] = min(m[reg], 5)
    else:
        keep = ('random_state', 'standardize', 'fit_intercept')
        c['model']['params'] = {q: v for q, v in m.items() if q in keep}
        if rng.rand() < .5:
            c['model']['params'] = dict(random_state=m['random_state'])
        d['p'] = min(d['p'], 6)
        d['corr'] = 0.
        d['strength'] = .4
        if not c['model']['params'].get('standardize', fast) or \
                not c['model']['params'].get('fit_intercept', True):
            d.update(loc=0., scale=1., scale_spread=.3)
    if d['kind'] == 'multi' and dim in ('p', 'boots', 'default'):
        d['kind'] = 'bin'
        m['shared_support'] = True
        if dim == 'default':
            c['model']['params'].pop('shared_support', None)
        d.pop('k', None)
    c['large'] = dim
    return c


def large_cases(seed, n, tag, kinds=('lasso', 'en', 'logit', 'pois')):
    out = []
    for i in range(n):
        rng = np.random.RandomState([seed, i, 11, sum(map(ord, tag))])
        c = large_case(rng, i, kinds[(i // len(DIMS)) % len(kinds)])
        c['name'] = '%slarge%s%d' % (tag, c['large'], i)
        out.append(c)
    return out


def full(model):
    """The settings of a case's model, with the documented defaults."""
    kind = model['kind']
    d = dict(n_boots_sel=24, n_boots_est=24, stability_selection=1.,
             estimation_score=dict(logit='acc', pois='log').get(kind, 'r2'),
             fit_intercept=True, standardize=True)
    d['n_C' if kind == 'logit' else 'n_lambdas'] = 48
    d.update(model['params'])
    return d
