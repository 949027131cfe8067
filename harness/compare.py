"""Comparison of the results of two fits that should agree."""
import numpy as np

TOLS = dict(lasso=1e-7, en=1e-7, pyc=1e-7, cur=1e-7, ucur=1e-7, logit=2e-3,
            pois=2e-3, mlr=2e-3, poisson=2e-3, nmf=1e-2, nmfbase=1e-2)


def agree(rec, kind, a, b, how, tols=None, mech='variant', sep=15.):
    """Compares two results up to rounding.

    Features at the edge of a support and tied scores are recognised.
    Returns whether everything was compared and agreed.
    """
    rec.count('compared')
    if kind == 'logit' and np.abs(a['estimates_']).max() > sep:
        rec.count('separable')
        return False
    exact = ('supports_', 'rp_max_idx_', 'column_indices_', 'bootstraps_',
             'bases_samples_labels_', 'classes_')
    for k in exact:
        if k in a and not (a[k].shape == b[k].shape and
                           np.array_equal(a[k], b[k])):
            if k == 'supports_':
                sa = {tuple(s) for s in a[k].tolist()}
                sb = {tuple(s) for s in b[k].tolist()}
                d = max(max(min(sum(x != z for x, z in zip(u, v))
                                for v in q) for u in p)
                        for p, q in ((sa, sb), (sb, sa)))
                rec.count('borderline')
                return rec.check(d <= 2, mech, '%s %s supports differ' %
                                 (kind, how), a=a[k], b=b[k])
            if k == 'rp_max_idx_':
                s = a['scores_']
                i = np.arange(len(s))
                gap = np.abs(s[i, a[k]] - s[i, b[k]]).max()
                rec.count('near_ties')
                return rec.check(gap <= 1e-2 * (1 + np.abs(s).max()),
                                 mech, '%s %s winners differ' %
                                 (kind, how))
            return rec.check(False, mech, '%s %s: %s differs' % (
                kind, how, k), a=a[k], b=b[k])
    for k in ('estimates_', 'scores_', 'coef_', 'intercept_', 'components_',
              'transform', 'inverse', 'predict_mean', 'predict_proba'):
        if k in a and np.size(a[k]):
            u = np.asarray(a[k], dtype=float)
            v = np.asarray(b[k], dtype=float)
            if u.shape == v.shape and not np.array_equal(np.isfinite(u),
                                                         np.isfinite(v)):
                return rec.check(False, mech, '%s %s: %s is not finite' % (
                    kind, how, k), a=u, b=v)
            u, v = (np.where(np.isfinite(w), w, 0) for w in (u, v))
            tol = (tols or TOLS)[kind]
            if not rec.check(u.shape == v.shape and np.all(
                    np.abs(u - v) <= tol * (1 + np.abs(u).max())),
                    mech, '%s %s: %s differs by %s' % (
                        kind, how, k, np.abs(u - v).max()
                        if u.shape == v.shape else (u.shape, v.shape)),
                    a=u, b=v):
                return False
    return True
