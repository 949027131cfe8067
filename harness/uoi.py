"""Workloads, event recording and reference computations shared by checks.

Imported in workers only (it imports pyuoi).
"""
import contextlib
import io
import logging
import sys
import threading

import numpy as np
import scipy.sparse as sps
from scipy.special import expit, logsumexp, xlogy

import sklearn.linear_model as sklm
import sklearn.linear_model._coordinate_descent as skcd
from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic,
                                UoI_Poisson)
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson
import pyuoi.linear_model.lasso as _lasso_mod
import pyuoi.linear_model.logistic as _log_mod
import pyuoi.linear_model.poisson as _pois_mod

PycLasso = _lasso_mod.PycLasso

CLASSES = dict(lasso=UoI_Lasso, en=UoI_ElasticNet, logit=UoI_L1Logistic,
               pois=UoI_Poisson)
LINEAR = ('lasso', 'en')


def silent_logger(name='verif-silent'):
    lg = logging.getLogger(name)
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())
    lg.propagate = False
    return lg


def make(kind, **kw):
    kw.setdefault('logger', silent_logger())
    if 'alphas' in kw and isinstance(kw['alphas'], list):
        kw['alphas'] = np.array(kw['alphas'])
    return CLASSES[kind](**kw)


# --------------------------------------------------------------------------
# data

def dataset(d):
    """A data set from a JSON description.

    kind: lin, bin, multi, pois; n, p, seed; loc, scale: feature location and
    scale; corr: strength of a shared factor; inf: informative features;
    noise; k: classes; strength; yloc, yscale; labels.
    """
    rng = np.random.RandomState(d['seed'])
    n, p = d['n'], d['p']
    Z = rng.randn(n, p)
    corr = d.get('corr', 0.)
    if corr:
        Z = np.sqrt(1 - corr) * Z + np.sqrt(corr) * rng.randn(n, 1)
    loc = d.get('loc', 0.)
    scale = d.get('scale', 1.)
    locs = loc * (1. + rng.rand(p)) * rng.choice([-1, 1], p) if loc else \
        np.zeros(p)
    scales = np.exp(rng.uniform(-1, 1, p) * d.get('scale_spread', 0.)) * scale
    X = locs + scales * Z
    inf = min(d.get('inf', max(1, p // 2)), p)
    beta = np.zeros(p)
    idx = rng.permutation(p)[:inf]
    beta[idx] = rng.uniform(.5, 2., inf) * rng.choice([-1, 1], inf)
    beta *= d.get('strength', 1.)
    kind = d['kind']
    eta = Z.dot(beta)
    b0 = d.get('b0', 0.3)
    if kind == 'lin':
        y = b0 + eta + d.get('noise', .5) * rng.randn(n)
        y = d.get('yloc', 0.) + d.get('yscale', 1.) * y
    elif kind == 'bin':
        pr = expit(b0 + eta)
        y = (rng.rand(n) < pr).astype(int)
        if np.unique(y).size < 2:
            y[:2] = [0, 1]
    elif kind == 'multi':
        k = d.get('k', 3)
        W = np.zeros((k, p))
        for c in range(k):
            ii = idx if d.get('same', False) else rng.permutation(p)[:inf]
            W[c, ii] = rng.randn(inf) * 1.5 * d.get('strength', 1.)
        E = Z.dot(W.T) + b0 * np.arange(k)[::-1]
        P = np.exp(E - logsumexp(E, axis=1)[:, None])
        y = np.array([rng.choice(k, p=q / q.sum()) for q in P])
        for c in range(k):
            while np.sum(y == c) < 4:
                big = np.argmax(np.bincount(y, minlength=k))
                y[rng.choice(np.flatnonzero(y == big))] = c
    elif kind == 'pois':
        y = rng.poisson(np.exp(np.clip(b0 + .4 * eta, -5, d.get('cap', 4.))))
        if np.unique(y).size == 1:
            y[0] += 1
        y = y.astype(float)
    if 'labels' in d:
        y = np.array(d['labels'])[y]
    return X, y


KIND2DATA = dict(lasso='lin', en='lin', logit='bin', pois='pois')


# --------------------------------------------------------------------------
# event recording at the learners' public boundary

class Event:
    __slots__ = ('cls', 'role', 'X', 'y', 'params', 'coef', 'intercept',
                 'mask', 'obj', 'thread', 'sw')


_tls = threading.local()


class Trace:
    """Records every fit of a selection or estimation learner.

    Wraps fit of the learners' classes (scikit-learn's Lasso, ElasticNet and
    LinearRegression, MaskedCoefLogisticRegression, Poisson, PycLasso) for
    the time of a with block. Nothing in the library is replaced.
    """

    def __init__(self, keep_data=True):
        self.events = []
        self.keep = keep_data

    def _wrap(self, cls, name='fit'):
        orig = cls.__dict__.get(name)
        inherited = getattr(cls, name)
        tr = self

        def fit(self_, X, y, *a, **k):
            depth = getattr(_tls, 'depth', 0)
            if depth or type(self_) in CLASSES.values():
                return inherited(self_, X, y, *a, **k)
            _tls.depth = 1
            try:
                ev = Event()
                ev.cls = type(self_).__name__
                ev.X = X.copy() if tr.keep else None
                ev.y = np.array(y, copy=True) if tr.keep else None
                ev.mask = k.get('coef_mask')
                ev.sw = k.get('sample_weight')
                if ev.mask is not None:
                    ev.mask = np.array(ev.mask, copy=True)
                r = inherited(self_, X, y, *a, **k)
            finally:
                _tls.depth = 0
            ev.obj = id(self_)
            ev.thread = threading.get_ident()
            ev.params = {q: getattr(self_, q) for q in
                         ('alpha', 'l1_ratio', 'C', 'penalty', 'alphas',
                          'fit_intercept', 'tol', 'max_iter', 'standardize',
                          'warm_start', 'solver')
                         if hasattr(self_, q)}
            if isinstance(ev.params.get('alphas'), np.ndarray):
                ev.params['alphas'] = ev.params['alphas'].copy()
            ev.coef = np.array(self_.coef_, copy=True)
            ev.intercept = np.array(self_.intercept_, copy=True)
            ev.role = role(ev)
            tr.events.append(ev)
            return r
        setattr(cls, name, fit)
        self._undo.append((cls, name, orig))

    def __enter__(self):
        self._undo = []
        for cls in (sklm.ElasticNet, sklm.LinearRegression,
                    MaskedCoefLogisticRegression, Poisson, PycLasso):
            self._wrap(cls)
        return self

    def __exit__(self, *a):
        for cls, name, orig in self._undo:
            if orig is None:
                delattr(cls, name)
            else:
                setattr(cls, name, orig)


def role(ev):
    if ev.cls in ('Lasso', 'ElasticNet', 'PycLasso'):
        return 'sel'
    if ev.cls == 'LinearRegression':
        return 'est'
    if ev.cls == 'MaskedCoefLogisticRegression':
        return 'sel' if ev.params['penalty'] == 'l1' else 'est'
    if ev.cls == 'Poisson':
        return 'sel' if ev.params['alpha'] else 'est'
    return '?'


def dense(X):
    return X.toarray() if sps.issparse(X) else np.asarray(X)


class Internal:
    """The data as the learners should see them, computed independently."""

    def __init__(self, kind, X, y, standardize, fit_intercept):
        X = dense(X).astype(float)
        self.kind = kind
        self.n, self.p = X.shape
        self.mean = np.zeros(self.p)
        self.scale = np.ones(self.p)
        if standardize:
            mu = X.mean(axis=0)
            sd = np.sqrt(((X - mu) ** 2).mean(axis=0))
            self.scale = np.where(sd > 10 * np.finfo(float).eps *
                                  np.maximum(np.abs(mu), 1e-300), sd, 1.)
            if fit_intercept:
                self.mean = mu
        self.X = (X - self.mean) / self.scale
        self.ymean, self.yscale = 0., 1.
        self.classes = None
        if kind in LINEAR:
            y = np.asarray(y, dtype=float).reshape(-1)
            if standardize:
                if fit_intercept:
                    self.ymean = y.mean()
                self.yscale = np.sqrt(np.mean((y - y.mean()) ** 2)) or 1.
            self.y = (y - self.ymean) / self.yscale
        elif kind == 'logit':
            self.classes, self.y = np.unique(y, return_inverse=True)
        else:
            self.y = np.asarray(y, dtype=float).reshape(-1)
        self._build()

    def _build(self):
        self.tol = (1e-8 * np.abs(self.X).max(axis=0) +
                    1e-12 * (1 + np.abs(self.mean / self.scale)))
        self.order = np.argsort(self.X, axis=0, kind='stable')
        self.sorted = np.take_along_axis(self.X, self.order, axis=0)

    def match_col(self, v, j):
        """Rows of feature j with the values v, or None."""
        s = self.sorted[:, j]
        i = np.clip(np.searchsorted(s, v), 0, self.n - 1)
        lo = np.clip(i - 1, 0, self.n - 1)
        pick = np.where(np.abs(s[lo] - v) < np.abs(s[i] - v), lo, i)
        if np.any(np.abs(s[pick] - v) > self.tol[j]):
            return None
        return self.order[pick, j]

    def rows_cols(self, Xe):
        """(rows, columns) of the data an event's design consists of."""
        Xe = dense(Xe)
        cols = []
        rows = None
        for c in range(Xe.shape[1]):
            hit = None
            for j in range(self.p):
                if j in cols:
                    continue
                r = self.match_col(Xe[:, c], j)
                if r is not None and (rows is None or
                                      np.array_equal(r, rows)):
                    hit = j
                    if rows is None:
                        rows = r
                    break
                if r is not None and rows is not None:
                    # ties in the column: accept if the values agree
                    if np.all(np.abs(self.X[rows, j] - Xe[:, c]) <=
                              self.tol[j]):
                        hit = j
                        break
            if hit is None:
                return None, None
            cols.append(hit)
        return rows, cols


def attrs(m):
    """Everything a user can read off a fitted model."""
    out = {}
    for a in ('coef_', 'intercept_', 'supports_', 'estimates_', 'scores_',
              'rp_max_idx_', 'classes_', 'n_supports_', 'components_',
              'column_indices_', 'bases_samples_', 'bases_samples_labels_',
              'bootstraps_', 'dissimilarity_', 'reconstruction_err_'):
        v = getattr(m, a, None)
        if v is not None:
            out[a] = np.array(v, copy=True)
    rp = getattr(m, 'reg_params_', None)
    if rp is not None:
        out['reg_params_'] = np.array([[float(r[k]) for k in sorted(r)]
                                       for r in rp])
    return out


def same_attrs(a, b, rtol=0., atol=0., skip=()):
    """Names of the attributes in which two results differ."""
    bad = []
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        if k not in a or k not in b:
            bad.append(k + ' (missing)')
            continue
        u, v = a[k], b[k]
        if u.shape != v.shape:
            bad.append('%s shape %s != %s' % (k, u.shape, v.shape))
        elif u.dtype.kind in 'fc' and v.dtype.kind in 'fc':
            if rtol == 0 and atol == 0:
                if not np.array_equal(u, v, equal_nan=True):
                    bad.append('%s differs by %g' % (
                        k, np.nanmax(np.abs(u - v))))
            elif not np.allclose(u, v, rtol=rtol, atol=atol, equal_nan=True):
                bad.append('%s differs by %g' % (k, np.nanmax(np.abs(u - v))))
        elif not np.array_equal(u, v):
            bad.append('%s differs' % k)
    return bad


# --------------------------------------------------------------------------
# reference losses (mean negative log-likelihoods) and gradients

def logit_grad(X, y01, w, b, sw=None):
    sw = np.ones(len(y01)) if sw is None else sw
    z = X.dot(w) + b
    loss = np.mean(sw * (np.logaddexp(0, z) - y01 * z))
    r = sw * (expit(z) - y01) / len(y01)
    return loss, X.T.dot(r), r.sum()


def softmax_grad(X, y, W, b, sw=None):
    n, k = len(y), W.shape[0]
    sw = np.ones(n) if sw is None else sw
    E = X.dot(W.T) + b
    L = E - logsumexp(E, axis=1)[:, None]
    Y = np.eye(k)[y]
    loss = -np.mean(sw * (L * Y).sum(axis=1))
    R = sw[:, None] * (np.exp(L) - Y) / n
    return loss, R.T.dot(X), R.sum(axis=0)


def pois_grad(X, y, w, b, sw=None):
    sw = np.ones(len(y)) if sw is None else sw
    eta = X.dot(w) + b
    mu = np.exp(eta)
    loss = np.mean(sw * (mu - y * eta))
    r = sw * (mu - y) / len(y)
    return loss, X.T.dot(r), r.sum()


def thresholds(spec, n_boots):
    """Bootstrap counts a stability setting denotes."""
    a = np.atleast_1d(np.asarray(spec))
    if a.dtype.kind == 'f':
        a = a * n_boots
    return a.astype(int)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


# --------------------------------------------------------------------------
# fault injection and input monitoring

class Boom(Exception):
    pass


@contextlib.contextmanager
def inject(at, exc=Boom):
    """The at-th fit of an inner learner raises. Yields a one-item list with
    the calls left (0 once it has fired)."""
    import sklearn.decomposition as skd
    left = [at]
    undo = []
    for cls in (sklm.ElasticNet, sklm.LinearRegression, PycLasso,
                MaskedCoefLogisticRegression, Poisson, skd.NMF,
                skd.TruncatedSVD):
        name = 'fit_transform' if cls in (skd.NMF, skd.TruncatedSVD) else \
            'fit'
        orig = getattr(cls, name)
        own = cls.__dict__.get(name)

        def f(self, *a, _o=orig, **k):
            if type(self) in CLASSES.values():
                return _o(self, *a, **k)
            left[0] -= 1
            if left[0] == 0:
                raise exc('injected')
            return _o(self, *a, **k)
        setattr(cls, name, f)
        undo.append((cls, name, own))
    try:
        yield left
    finally:
        for cls, name, own in undo:
            if own is None:
                delattr(cls, name)
            else:
                setattr(cls, name, own)


def fingerprint(o):
    """What an object a caller holds consists of, down to the bytes."""
    if isinstance(o, np.ndarray):
        base = o
        while isinstance(base.base, np.ndarray):
            base = base.base
        return ('nd', o.dtype.str, o.shape, o.strides, o.flags.writeable,
                repr(o.tolist()) if o.dtype.kind == 'O' else o.tobytes(),
                b'' if base.dtype.kind == 'O' else base.tobytes())
    if sps.issparse(o):
        out = ['sp', o.format, o.shape]
        for a in ('data', 'indices', 'indptr', 'row', 'col'):
            if hasattr(o, a):
                out += [a, fingerprint(getattr(o, a))]
        return tuple(out)
    if isinstance(o, dict):
        return ('dict', tuple((repr(k), fingerprint(v))
                              for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fingerprint(v) for v in o))
    if isinstance(o, np.random.RandomState) or hasattr(o, 'handlers'):
        return 'opaque'
    return repr(o)


class Guard:
    """Fingerprints of named objects, compared after a call."""

    def __init__(self, **objs):
        self.objs = objs
        self.before = {k: fingerprint(v) for k, v in objs.items()}

    def changed(self):
        return [k for k, v in self.objs.items()
                if fingerprint(v) != self.before[k]]
