import numpy as np

from harness import gen

PROPERTY = 'C16'
RULE = ('Each case fits a logistic model with labels 0..k-1 and again with '
        'order-preserving names for them (negative, large, boolean, float, '
        'string, bytes, object, date labels), compares every result bitwise '
        'and checks the predictions and probabilities of both at ordinary, '
        'extreme and boundary points against the coefficients. Non-trivial: '
        'a nonzero coefficient.')
ASSUMPTIONS = []
REQUIRED = {'renamed_fits': 150, 'probability_rows': 60000,
            'predicted_labels': 60000, 'boundary_rows': 900, 'frequency_models': 400}


def names(kind, k, rng):
    """k increasing labels."""
    if kind == 'neg':
        return np.array([-7, -3, 0, 5, 11][:k])
    if kind == 'large':
        return np.array([10 ** 6, 2 ** 40, 2 ** 53 + 1, 2 ** 60][:k])
    if kind == 'bool' and k == 2:
        return np.array([False, True])
    if kind == 'float':
        return np.array([-1.5, .25, .5, 3.75][:k])
    if kind == 'str':
        return np.array(['B', 'a', 'aa', 'ab'][:k])
    if kind == 'longstr':
        return np.array(['negative-outcome-1', 'negative-outcome-2',
                         'positive', 'positive-outcome-long'][:k])
    if kind == 'close':
        # different only in the last bits
        return 1. + np.arange(k) * np.finfo(float).eps
    if kind == 'bytes':
        return np.array([b'B', b'a', b'aa', b'ab'][:k])
    if kind == 'object':
        return np.array(['no', 'yes, but', 'zz', 'zzz'][:k], dtype=object)
    if kind == 'objint':
        return np.array([3, 10, 20, 1000][:k], dtype=object)
    if kind == 'date':
        return np.array(['1999-01-01', '2000-02-29', '2020-01-01',
                         '2021-01-01'][:k], dtype='datetime64[D]')
    if kind == 'uint8':
        return np.array([0, 1, 200, 255][4 - k:], dtype=np.uint8)
    if kind == 'one-based':
        return np.arange(1, k + 1)
    if kind == 'pm' and k == 2:
        return np.array([-1, 1])
    return np.arange(k) * 2 - 1


LABELS = ('neg', 'large', 'bool', 'float', 'str', 'bytes', 'object', 'objint',
          'date', 'uint8', 'one-based', 'pm', 'longstr', 'close')


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []
    for i in range(130 * t):
        rng = np.random.RandomState([seed, i, 16])
        c = gen.model_case(rng, 'logit')
        if i % 13 == 5:
            c = gen.large_case(rng, int(rng.randint(6)), 'logit')
            c['model']['params'] = gen.full(c['model'])
        c['labels'] = LABELS[i % len(LABELS)]
        c['sparse'] = bool(rng.rand() < .15)
        c['name'] = 'c16uoi%d' % i
        c['what'] = 'uoi'
        out.append(c)
    for i in range(90 * t):
        rng = np.random.RandomState([seed, i, 161])
        out.append(dict(
            what='mlr', name='c16mlr%d' % i, labels=LABELS[i % len(LABELS)],
            data=dict(seed=int(rng.randint(1 << 30)), n=int(
                rng.randint(40, 120)), p=int(rng.randint(1, 7)),
                kind=gen.pick(rng, 'bin', 'multi'), k=int(rng.randint(3, 5)),
                strength=.7, b0=float(rng.uniform(-2, 2))),
            params=dict(penalty=gen.pick(rng, 'l1', 'l2'),
                        C=float(np.exp(rng.uniform(-1, 4))),
                        fit_intercept=bool(rng.rand() < .7),
                        standardize=bool(rng.rand() < .5),
                        multi_class=gen.pick(rng, 'auto', 'multinomial')),
            weights=gen.pick(rng, None, 'balanced', 'dict', 'sample'),
            mask=bool(rng.rand() < .5), mseed=int(rng.randint(1 << 30))))
    for i in range(10 * t):
        rng = np.random.RandomState([seed, i, 162])
        out.append(dict(what='nofeat', name='c16nofeat%d' % i,
                        seed=int(rng.randint(1 << 30))))
    return out


def nofeat(case, rec):
    """Without features the probabilities are the class frequencies."""
    from pyuoi.linear_model.logistic import LogisticInterceptFitterNoFeatures
    rng = np.random.RandomState(case['seed'])
    for i in range(40):
        k = int(rng.randint(2, 7))
        n = int(rng.randint(3, 60))
        two = k == 2 and rng.rand() < .5
        # some classes may be missing from a resample
        here = np.sort(rng.permutation(k)[:rng.randint(1, k + 1)])
        y = rng.choice(here, n, p=rng.dirichlet(np.ones(len(here))))
        fr = np.array([(y == j).mean() for j in range(k)])
        f = LogisticInterceptFitterNoFeatures(y, 1 if two else k)
        rec.count('frequency_models')
        P = np.asarray(f.predict_proba(np.zeros((5, 3))))
        want = fr[1] if two else fr
        rec.check(P.shape == ((5,) if two else (5, k)) and
                  np.allclose(P, want, atol=1e-8), 'frequencies',
                  '%r, the frequencies are %r' % (P[0], want), y=y)
        lab = np.asarray(f.predict(np.zeros((5, 3))))
        rec.check(lab.shape == (5,) and
                  np.all(fr[lab] >= fr.max() - 1e-9), 'labels',
                  'without features predicts %r at frequencies %r' % (
                      lab[0], fr))
    rec.seen('nofeat', case['seed'])


def check_model(rec, m, X, classes, ynames, tag):
    """Predictions and probabilities against the coefficients."""
    from scipy.special import expit, logsumexp
    from harness import uoi
    k = len(classes)
    rec.check(m.classes_.shape == classes.shape and
              np.array_equal(m.classes_, classes) and
              m.classes_.dtype.kind == np.asarray(ynames).dtype.kind,
              'classes', '%s: classes_ is %r, labels are %r' % (
                  tag, m.classes_, classes))
    coef = np.atleast_2d(np.asarray(m.coef_, dtype=float))
    b = np.asarray(m.intercept_, dtype=float).reshape(-1)
    K = coef.shape[0]
    if not rec.check(K == (1 if K == 1 and k == 2 else k) and
                     coef.shape[1] == X.shape[1] and b.size == K, 'shape',
                     '%s: coef_ %s, intercept_ %s for %d classes' % (
                         tag, coef.shape, b.shape, k)):
        return
    Xd = uoi.dense(X)
    eta = Xd.dot(coef.T) + b
    if K == 1:
        want = np.hstack([expit(-eta), expit(eta)])
    else:
        want = np.exp(eta - logsumexp(eta, axis=1)[:, None])
    P = np.asarray(m.predict_proba(X))
    rec.count('probability_rows', len(Xd))
    if not rec.check(P.shape == want.shape, 'proba', '%s: predict_proba has '
                     'shape %s' % (tag, P.shape)):
        return
    rec.check(np.all(P >= 0) and np.all(P <= 1) and
              np.allclose(P.sum(axis=1), 1, atol=1e-12), 'proba',
              '%s: not a distribution' % tag, P=P)
    # rounding of eta is amplified by its size
    tol = 1e-10 + 1e-14 * np.abs(eta).max(axis=1, keepdims=True)
    tol = tol + 1e-14 * (np.abs(Xd).dot(np.abs(coef.T))).max(
        axis=1, keepdims=True)
    rec.check(np.all(np.abs(P - want) <= tol), 'proba',
              '%s: probabilities are off by %g' % (
                  tag, np.abs(P - want).max()), coef=coef, b=b)
    with np.errstate(divide='ignore'):
        L = np.asarray(m.predict_log_proba(X))
        ok = np.isclose(L, np.log(P)) | (L == np.log(P))
    rec.check(np.all(ok), 'proba', '%s: predict_log_proba' % tag)
    pred = np.asarray(m.predict(X))
    rec.count('predicted_labels', len(pred))
    if not rec.check(pred.shape == (len(Xd),) and
                     np.all(np.isin(pred, classes)), 'labels',
                     '%s: predicts %r' % (tag, np.unique(pred))):
        return
    idx = np.searchsorted(classes, pred)
    got = P[np.arange(len(P)), idx]
    rec.check(np.all(got >= P.max(axis=1) - 2 * tol.ravel()), 'labels',
              '%s: predicts a label that is not the most probable' % tag)
    D = np.asarray(m.decision_function(X)).reshape(len(Xd), -1)
    rec.check(D.shape[1] == K and np.all(np.abs(D - eta) <= 1e-9 * (
        1 + np.abs(eta))), 'decision', '%s: decision_function' % tag)


def points(X, rng, coef, b):
    """Where predictions are examined."""
    out = [X, 1e3 * X, 1e6 * X, np.zeros((1, X.shape[1]))]
    w = coef[0] - (coef[1] if len(coef) > 1 else 0)
    c = b[0] - (b[1] if len(b) > 1 else 0)
    n2 = w.dot(w)
    if n2 > 1e-12:
        # on the boundary of the first two classes
        Z = X[:10]
        out.append(Z - np.outer((Z.dot(w) + c) / n2, w))
    return out


def run(case, rec):
    if case['what'] == 'nofeat':
        return nofeat(case, rec)
    from harness import uoi, traced
    import scipy.sparse as sps
    X, y = uoi.dataset(case['data'])
    k = len(np.unique(y))
    rng = np.random.RandomState(case['data']['seed'] % 1000003)
    lab = names(case['labels'], k, rng)
    yn = lab[y]
    kw, kwn = {}, {}
    if case['what'] == 'uoi':
        P = case['model']['params']
        if case['sparse'] and not (P['standardize'] and P['fit_intercept']):
            X = sps.csr_matrix(X)
        kw = kwn = traced.fit_args(case, y)

        def make(names=None):
            return uoi.make('logit', **P)
    else:
        P = dict(case['params'])
        ms = np.random.RandomState(case['mseed'])
        K = 1 if k == 2 and P['multi_class'] == 'auto' else k
        if case['mask']:
            mask = ms.rand(K, X.shape[1]) < .7
            mask.flat[ms.randint(mask.size)] = True
            kw['coef_mask'] = mask if K > 1 else mask[0]
        w = ms.uniform(.5, 3., k)
        if case['weights'] == 'sample':
            kw['sample_weight'] = ms.uniform(.5, 2., len(y))
        kwn = kw

        def make(names=None):
            Q = dict(P)
            if case['weights'] == 'balanced':
                Q['class_weight'] = 'balanced'
            if case['weights'] == 'dict':
                keys = np.arange(k) if names is None else names
                Q['class_weight'] = dict(zip(keys.tolist(), w)) if \
                    keys.dtype.kind != 'M' else dict(zip(keys, w))
            return uoi.MaskedCoefLogisticRegression(**Q)
    a = make().fit(X, y, **kw)
    b = make(lab).fit(X, yn, **kwn)
    rec.count('renamed_fits')
    A, B = uoi.attrs(a), uoi.attrs(b)
    bad = uoi.same_attrs(A, B, skip=('classes_',))
    rec.check(not bad, 'renaming', '%s labels %r: %s' % (
        case['what'], lab, bad), a=A['coef_'], b=B['coef_'])
    coef = np.atleast_2d(a.coef_)
    ic = np.asarray(a.intercept_).reshape(-1)
    Xd = uoi.dense(X)
    for Z in points(Xd, rng, coef, ic):
        if len(Z) == 10:
            rec.count('boundary_rows', len(Z))
        check_model(rec, a, Z, np.unique(y), y, case['what'])
        check_model(rec, b, Z, lab, yn, case['what'] + ' renamed')
        pa, pb = np.asarray(a.predict(Z)), np.asarray(b.predict(Z))
        rec.check(np.array_equal(lab[pa], pb), 'renaming',
                  'predictions do not translate')
    if sps.issparse(X):
        check_model(rec, b, X, lab, yn, 'sparse')
    sa, sb = a.score(X, y), (np.mean(np.asarray(b.predict(X)) == yn))
    rec.check(abs(sa - sb) < 1e-12, 'score', 'accuracy %g, renamed %g' % (
        sa, sb))
    if np.any(coef):
        rec.seen(case['what'], case['labels'], k, coef.shape[0],
                 P['standardize'], P['fit_intercept'])
    rec.sample = dict(labels=lab.astype(str).tolist(), coef=coef,
                      proba=b.predict_proba(Xd[:2]))
