"""Seeded operations over the whole library: plain-JSON cases and their
execution."""
import numpy as np

from . import gen

MODELS = ('lasso', 'pyc', 'en', 'logit', 'pois')
OPS = MODELS + ('nmf', 'nmfbase', 'cur', 'ucur', 'colsel', 'dlin', 'dcls',
                'dpois')


def make_case(rng, op):
    c = dict(op=op, seed=int(gen.pick(rng, 0, 1, 7, rng.randint(1 << 31))),
             dseed=int(rng.randint(1 << 30)), salt=int(rng.randint(1 << 30)))
    big = rng.rand() < .25
    if op in MODELS:
        kind = 'lasso' if op == 'pyc' else op
        m = gen.model_case(rng, kind)
        if rng.rand() < .15:
            m = gen.large_case(rng, int(rng.randint(6)), kind)
            m.pop('large')
        P = m['model']['params']
        if op == 'pyc':
            P.update(solver='pyc', fit_intercept=True, standardize=True)
        if rng.rand() < .3:
            P['selection_frac'] = .9
        elif rng.rand() < .12:
            # many samples
            m['data']['n'] = int(rng.randint(450, 1100))
            P.update(n_boots_sel=2, stability_selection=1.)
        c['m'] = m
    elif op in ('nmf', 'nmfbase'):
        c.update(n=int(rng.randint(12, 30)), p=int(rng.randint(4, 8)),
                 boots=int(rng.randint(2, 5)),
                 diss=bool(rng.rand() < .5),
                 solver=gen.pick(rng, 'mu', 'cd'),
                 init=gen.pick(rng, 'random', 'nndsvdar', 'random'),
                 ranks=gen.pick(rng, 3, [2, 3], [2]))
        if big:
            c.update(n=int(rng.randint(50, 120)), p=int(rng.randint(20, 50)))
    elif op in ('cur', 'ucur', 'colsel'):
        c.update(n=int(rng.randint(20, 40)), p=int(rng.randint(15, 40)),
                 k=int(rng.randint(2, 6)), boots=int(rng.randint(2, 6)),
                 frac=float(gen.pick(rng, .6, .8, 1)),
                 algorithm=gen.pick(rng, 'randomized', 'arpack'))
        if big:
            c.update(n=int(rng.randint(60, 150)), p=int(rng.randint(80, 200)),
                     k=int(rng.randint(4, 15)))
        c['c'] = float(rng.uniform(.3, .6) * c['p'])
    else:
        c.update(n=int(rng.randint(10, 60)), p=int(rng.randint(4, 12)),
                 inf=int(rng.randint(1, 4)), k=int(rng.randint(2, 5)),
                 shared=bool(rng.rand() < .5))
        if big:
            c.update(n=int(rng.randint(300, 3000)),
                     p=int(rng.randint(20, 120)),
                     k=int(rng.randint(2, 12)))
        c['icpt'] = bool(rng.rand() < .5)
    return c


def perform(c, seed, trace=True, logger=None, verbose=None):
    """The operation of a case with a seed: a dict of arrays.

    trace: record the learners (process wide); logger: None for a silent one,
    'default' for the library's own; verbose: passed to fit.
    """
    from harness import uoi
    if logger is None:
        logger = uoi.silent_logger()
    elif isinstance(logger, str):
        logger = None
    vb = {} if verbose is None else dict(verbose=verbose)
    op = c['op']
    rng = np.random.RandomState(c['dseed'])
    if op in MODELS:
        from harness import traced
        m = c['m']
        X, y = uoi.dataset(m['data'])
        P = dict(m['model']['params'], random_state=seed, logger=logger)
        kw = dict(traced.fit_args(m, y), **vb)
        if not trace:
            mod = uoi.make(m['model']['kind'], **P)
            mod.fit(X, y, **kw)
            out = uoi.attrs(mod)
            out['_predict'] = np.asarray(mod.predict(X))
            return out
        with uoi.quiet():
            mod = uoi.make(m['model']['kind'], **P)
            with uoi.Trace() as tr:
                mod.fit(X, y, **kw)
        out = uoi.attrs(mod)
        out['_draws'] = np.concatenate(
            [np.asarray(e.X.sum(axis=0)).ravel()
             for e in tr.events if e.role == 'sel'][:60] or [np.zeros(1)])
        return out
    if op in ('nmf', 'nmfbase'):
        from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
        X = rng.gamma(1., size=(c['n'], 3)).dot(
            rng.gamma(.5, size=(3, c['p']))) + .01
        kw = dict(n_boots=c['boots'], ranks=c['ranks'], random_state=seed,
                  use_dissimilarity=c['diss'], logger=logger)
        if op == 'nmf':
            mod = UoI_NMF(nmf_solver=c['solver'], nmf_init=c['init'],
                          nmf_beta_loss='frobenius' if c['solver'] == 'cd'
                          else 'kullback-leibler', nmf_max_iter=60,
                          db_eps=.9, db_min_samples=1, **kw)
        else:
            mod = UoI_NMF_Base(**kw)
        mod.fit(X, **vb)
        W = mod.transform(X)
        out = uoi.attrs(mod)
        out['W'] = W
        out['_draws'] = out['bootstraps_'].ravel()
        return out
    if op in ('cur', 'ucur'):
        from pyuoi.decomposition import CUR, UoI_CUR
        X = rng.randn(c['n'], c['p']) * np.exp(rng.randn(c['p']) * .3)
        if op == 'cur':
            mod = CUR(max_k=c['k'], algorithm=c['algorithm'],
                      random_state=seed)
            mod.fit(X, c=c['c'])
        else:
            mod = UoI_CUR(c['boots'], c['k'], c['frac'],
                          stability_selection=.5 if c['boots'] > 1 else 1.,
                          algorithm=c['algorithm'], random_state=seed)
            mod.fit(X, cs=c['c'])
        out = uoi.attrs(mod)
        out['_draws'] = out['column_indices_']
        return out
    if op == 'colsel':
        from pyuoi.decomposition.utils import column_select
        V = np.linalg.qr(rng.randn(c['p'], c['k']))[0]
        r = column_select(V, c['c'], random_state=seed)
        return dict(cols=r, _draws=r)
    from pyuoi import datasets as ds
    kw = dict(n_samples=c['n'], n_features=c['p'], n_informative=c['inf'],
              include_intercept=c.get('icpt', False), random_state=seed)
    if op == 'dlin':
        r = ds.make_linear_regression(**kw)
    elif op == 'dcls':
        r = ds.make_classification(n_classes=c['k'],
                                   shared_support=c['shared'], **kw)
    else:
        r = ds.make_poisson_regression(**kw)
    out = {'r%d' % i: np.array(v) for i, v in enumerate(r)}
    out['_draws'] = out['r0'].ravel()
    return out
