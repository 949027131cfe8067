import numpy as np

from harness import gen

PROPERTY = 'C15'
RULE = ('Each case fits a model on a dense design with many zeros and on the '
        'equal sparse matrix in row, column and coordinate format (unsorted '
        'indices, duplicate coordinate entries, stored zeros, empty rows and '
        'columns, 64-bit indices) with the same settings and compares '
        'supports, scores, estimates, coefficients, intercepts and '
        'predictions; requests that need centering must be refused, and the '
        'rows of the learners\' sparse designs are compared with the dense '
        'ones. Non-trivial: a nonzero coefficient.')
ASSUMPTIONS = ['The Poisson models and the path-wise Lasso wrapper do not '
               'accept sparse designs.']
REQUIRED = {'compared': 220, 'refused': 100, 'sparse_predictions': 220,
            'inner_designs': 3000}
FORMATS = ('csr', 'csc', 'coo')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 14
    out = []
    for kind in ('lasso', 'en', 'logit', 'mlr', 'cur', 'ucur'):
        for i in range((60 if kind in ('lasso', 'en', 'logit') else 24) * k):
            rng = np.random.RandomState([seed, i, 15, sum(map(ord, kind))])
            c = dict(kind=kind, seed=int(rng.randint(1 << 30)),
                     density=float(gen.pick(rng, .15, .3, .6)),
                     name='c15%s%d' % (kind, i))
            if kind in ('lasso', 'en', 'logit'):
                m = gen.model_case(rng, kind)
                P = m['model']['params']
                P['tol'] = 1e-9 if kind != 'logit' else 1e-6
                if kind != 'logit':
                    P['max_iter'] = 20000
                if kind == 'logit':
                    # a feature present in a row or two of a resample has no
                    # finite optimum
                    c['density'] = max(c['density'], .4)
                if P['estimation_score'] == 'acc':
                    P['estimation_score'] = 'log'
                c['params'] = P
                c['data'] = m['data']
                c['data'].update(loc=0., n=int(rng.randint(80, 140)))
                c['data']['scale'] = 1.
            out.append(c)
    return out


def sparse_design(rng, X, form, case):
    import scipy.sparse as sps
    S = getattr(sps, form + '_matrix')(X)
    odd = rng.randint(4)
    if form == 'csr' and odd == 0:
        for r in range(S.shape[0]):
            s = slice(S.indptr[r], S.indptr[r + 1])
            S.indices[s] = S.indices[s][::-1]
            S.data[s] = S.data[s][::-1]
        S.has_sorted_indices = False
    elif form == 'coo' and odd < 2:
        # an entry given in two parts, and entries out of order
        row = np.r_[S.row, S.row[:5]]
        col = np.r_[S.col, S.col[:5]]
        data = np.r_[S.data, .25 * S.data[:5]]
        data[:5] *= .75
        p = rng.permutation(len(row))
        S = sps.coo_matrix((data[p], (row[p], col[p])), shape=S.shape)
    elif odd == 2:
        # stored zeros
        S = S.tolil().tocsr() if form == 'csr' else S
        if form != 'coo':
            keep = S.data.copy()
            S = S.copy()
            i = rng.randint(len(S.data), size=3)
            X = X.copy()
            S.data[i] = 0.
            X = S.toarray()
            case['stored_zeros'] = True
            del keep
    elif odd == 3 and form != 'coo':
        S.indices = S.indices.astype(np.int64)
        S.indptr = S.indptr.astype(np.int64)
    return S, X


def run(case, rec):
    from harness import uoi, traced
    from harness.compare import agree
    from pyuoi import decomposition as dec
    kind = case['kind']
    rng = np.random.RandomState(case['seed'])
    if kind in ('cur', 'ucur'):
        n, p = rng.randint(15, 40), rng.randint(8, 25)
        X = rng.randn(n, p) * (rng.rand(n, p) < .6) * np.exp(
            .5 * rng.randn(p))
        for form in ('csr', 'csc'):
            S, Xd = sparse_design(rng, X, form, case)
            rs = int(rng.randint(1000))
            if kind == 'cur':
                def make():
                    return dec.CUR(3, random_state=rs)
                kw = dict(c=p / 2.)
            else:
                def make():
                    return dec.UoI_CUR(4, 3, .7, stability_selection=.5,
                                       random_state=rs)
                kw = dict(cs=p / 2.)
            a = make().fit(Xd, **kw)
            b = make().fit(S, **kw)
            rec.count('compared')
            rec.check(np.array_equal(a.column_indices_, b.column_indices_),
                      'cur', '%s %s selects other columns' % (kind, form),
                      dense=a.column_indices_, sparse=b.column_indices_)
            if a.column_indices_.size:
                rec.seen(kind, form, tuple(a.column_indices_))
                rec.check(np.array_equal(a.components_,
                                         uoi.dense(b.components_)), 'cur',
                          'components differ')
        return
    if kind == 'mlr':
        d = dict(seed=case['seed'], n=int(rng.randint(80, 120)),
                 p=int(rng.randint(3, 8)), strength=.7,
                 kind=gen.pick(rng, 'bin', 'multi'), k=3)
        X, y = uoi.dataset(d)
        P = dict(penalty=gen.pick(rng, 'l1', 'l2'),
                 C=float(np.exp(rng.uniform(1, 4))),
                 fit_intercept=bool(rng.rand() < .6),
                 standardize=bool(rng.rand() < .4), tol=1e-7)
        kw = {}
        if rng.rand() < .5:
            K = 1 if d['kind'] == 'bin' else 3
            kw['coef_mask'] = rng.rand(K, d['p']) < .7
            if K == 1:
                kw['coef_mask'] = kw['coef_mask'][0]
            if not kw['coef_mask'].any():
                kw = {}
        if rng.rand() < .4:
            kw['sample_weight'] = rng.uniform(.5, 2., len(y))

        def make():
            return uoi.MaskedCoefLogisticRegression(**P)
    else:
        X, y = uoi.dataset(case['data'])
        P = case['params']
        kw = traced.fit_args(dict(case, stratify=gen.pick(
            rng, None, 'groups') if kind != 'logit' else 'y',
            model=dict(kind='x')), y)

        def make():
            return uoi.make(kind, **P)
    X = X * (rng.rand(*X.shape) < case['density'])
    if kind != 'mlr' and rng.rand() < .5:
        # keep the responses related to what is left of the design
        if kind in uoi.LINEAR:
            y = X.dot(np.arange(1, X.shape[1] + 1)) + .5 * rng.randn(len(y))
    X[rng.randint(len(X))] = 0.
    if rng.rand() < .3 and X.shape[1] > 2:
        X[:, rng.randint(X.shape[1])] = 0.
    if rng.rand() < .3:
        X = np.round(2 * X)
    centering = P['standardize'] and P['fit_intercept']
    for form in FORMATS:
        S, Xd = sparse_design(rng, X, form, case)
        if rng.rand() < .2 and np.all(S.data == np.round(S.data)):
            S = S.astype(np.int64)
        if centering:
            m = make()
            try:
                m.fit(S, y, **kw)
                ok = False
            except ValueError:
                ok = True
            rec.check(ok, 'refusal', '%s centers (or does not) a sparse %s '
                      'design without an error' % (kind, form))
            rec.count('refused')
            rec.check(not hasattr(m, 'coef_'), 'refusal',
                      'a refused fit left coefficients')
            rec.seen(kind, form, 'refused')
            continue
        if kind == 'mlr' and form == 'coo' and P['standardize']:
            # the scaler accepts rows or columns
            S = S.tocsr()
        a = make()
        b = make()
        with uoi.Trace() as ta:
            a.fit(Xd, y, **kw)
        with uoi.Trace() as tb:
            b.fit(S, y, **kw)
        if kind == 'mlr':
            A, B = uoi.attrs(a), uoi.attrs(b)
        else:
            A, B = uoi.attrs(a), uoi.attrs(b)
            if A.get('supports_') is not None and len(A['supports_']) == \
                    len(B['supports_']):
                rec.check(len(ta.events) == len(tb.events), 'inner',
                          'the number of inner fits differs')
                for u, v in zip(ta.events, tb.events):
                    rec.count('inner_designs')
                    if u.X.shape == v.X.shape and not rec.check(
                            np.abs(uoi.dense(u.X) - uoi.dense(v.X)).max()
                            <= 1e-9 * (1 + np.abs(uoi.dense(u.X)).max())
                            if u.X.size else True, 'inner',
                            'the learners see other designs'):
                        break
        tols = dict(lasso=2e-4, en=2e-4, logit=1e-2, mlr=2e-3)
        ok = agree(rec, kind, A, B, form, tols, 'sparse', 4.)
        Sp, _ = sparse_design(rng, Xd, form, dict())
        names = ['predict'] + (['predict_proba'] if kind in
                               ('logit', 'mlr') else [])
        for name in names:
            rec.count('sparse_predictions')
            f = getattr(b, name)
            u, v = np.asarray(f(Sp.toarray())), np.asarray(f(Sp))
            rec.check(u.shape == v.shape and np.allclose(
                u, v, rtol=1e-10, atol=1e-12), 'prediction',
                '%s of a sparse design' % name)
        if ok and np.any(A['coef_']):
            rec.seen(kind, form, P['standardize'], P['fit_intercept'],
                     A.get('supports_', np.zeros(1)).shape)
        rec.sample = dict(dense=A['coef_'], sparse=B['coef_'])
