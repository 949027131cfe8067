"""Fits a case under the trace and reconstructs what the fit did."""
import numpy as np
import scipy.sparse as sps

from . import uoi


class Traced:
    pass


def fit_args(case, y):
    kw = {}
    st = case.get('stratify')
    if st == 'y':
        kw['stratify'] = y
    elif st == 'groups':
        rng = np.random.RandomState(case['data']['seed'] % 9973)
        g = rng.choice([1, 2, 3], size=len(y), p=[.5, .3, .2])
        g[:15] = np.repeat([1, 2, 3], 5)
        kw['stratify'] = rng.permutation(g)
    if case['model']['kind'] == 'logit' and st != 'y':
        # a resample without one of the classes is outside the domain
        if np.unique(y, return_counts=True)[1].min() < 15:
            kw['stratify'] = y
    form = case.get('stratify_as')
    if form and 'stratify' in kw:
        g = np.asarray(kw['stratify'])
        if form == 'list':
            kw['stratify'] = g.tolist()
        elif form == 'str':
            kw['stratify'] = np.array(['g%s' % v for v in g])
        elif form == 'float':
            kw['stratify'] = np.unique(g, return_inverse=True)[1] * .5
        else:
            kw['stratify'] = tuple(g.tolist())
    return kw


def run(case, rec):
    t = Traced()
    X, y = uoi.dataset(case['data'])
    Xin = X
    if case.get('sparse'):
        Xin = getattr(sps, case['sparse'] + '_matrix')(X)
        rec.count('sparse_fits')
    kind = case['model']['kind']
    params = dict(case['model']['params'])
    t.kind, t.params = kind, params
    t.X, t.y = X, y
    t.model = uoi.make(kind, **params)
    kw = fit_args(case, y)
    t.stratify = kw.get('stratify')
    t.internal = uoi.Internal(kind, X, y, t.model.standardize,
                              t.model.fit_intercept)
    with uoi.Trace() as tr:
        t.model.fit(Xin, y, **kw)
    t.events = tr.events
    rec.count('fits')
    rec.count('learner_fits', len(tr.events))
    I = t.internal
    t.sel, t.est = [], []
    bad = 0
    for ev in tr.events:
        rows, cols = I.rows_cols(ev.X)
        if rows is None:
            bad += 1
            continue
        ev_ = dict(ev=ev, rows=rows, cols=cols, key=tuple(sorted(rows)))
        (t.sel if ev.role == 'sel' else t.est).append(ev_)
    t.unmatched = bad
    t.observed = len(tr.events) > 0
    # resamples in order of first appearance
    t.sel_boots = list(dict.fromkeys(e['key'] for e in t.sel))
    t.est_boots = list(dict.fromkeys(e['key'] for e in t.est))
    return t


def reg_key(params, kind):
    if kind == 'lasso':
        return (float(params['alpha']),)
    if kind in ('en', 'pois'):
        return (float(params['alpha']), float(params['l1_ratio']))
    return (float(params['C']),)


def n_outputs(t):
    if t.kind != 'logit':
        return 1
    k = t.internal.classes.size
    if k == 2 and t.params.get('multi_class', 'auto') == 'auto':
        return 1
    return k


def event_support(t, e):
    """The candidate support an estimation event belongs to."""
    p, K = t.internal.p, n_outputs(t)
    shared = t.model.shared_support
    if shared:
        s = np.zeros(p, dtype=bool)
        s[e['cols']] = True
        return s
    m = e['ev'].mask
    if m is None:
        return np.ones(p * K, dtype=bool)
    return np.asarray(m).astype(bool).ravel()


def full_coef(t, e):
    """An event's coefficients as (outputs, features)."""
    p, K = t.internal.p, n_outputs(t)
    c = np.atleast_2d(e['ev'].coef)
    out = np.zeros((K, p))
    out[:, e['cols']] = c.reshape(K, -1)
    return out
