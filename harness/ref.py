"""Reference optimizers (damped Newton) for the unpenalized models."""
import numpy as np
from scipy.special import expit, logsumexp


def newton(fgh, x, iters=200, tol=1e-11):
    f, g, H = fgh(x)
    for _ in range(iters):
        if not np.isfinite(f):
            break
        gn = np.abs(g).max()
        if gn < tol:
            break
        reg = 1e-12 * (1 + np.trace(H) / len(x))
        try:
            d = -np.linalg.solve(H + reg * np.eye(len(x)), g)
        except np.linalg.LinAlgError:
            d = -np.linalg.lstsq(H, g, rcond=None)[0]
        s = 1.
        slope = g.dot(d)
        if slope >= 0:
            d = -g
            slope = -g.dot(g)
        while True:
            f2, g2, H2 = fgh(x + s * d)
            if np.isfinite(f2) and f2 <= f + 1e-4 * s * slope + 1e-15:
                break
            s *= .5
            if s < 1e-14:
                return x, f, g
        x, f, g, H = x + s * d, f2, g2, H2
        if np.abs(x).max() > 1e3:
            break
    return x, f, g


def design(X, intercept):
    return np.hstack([X, np.ones((len(X), 1))]) if intercept else X


def fit_logit(X, y, intercept, sw=None):
    A = design(X, intercept)
    n = len(y)
    sw = np.ones(n) if sw is None else sw

    def fgh(w):
        z = A.dot(w)
        p = expit(z)
        f = np.mean(sw * (np.logaddexp(0, z) - y * z))
        g = A.T.dot(sw * (p - y)) / n
        H = (A * (sw * p * (1 - p))[:, None]).T.dot(A) / n
        return f, g, H
    return newton(fgh, np.zeros(A.shape[1]))


def fit_softmax(X, y, k, intercept, mask=None):
    """Minimal mean loss (coefficients are not unique)."""
    A = design(X, intercept)
    n, q = A.shape
    Y = np.eye(k)[y]
    M = np.ones((k, q), dtype=bool)
    if mask is not None:
        M[:, :X.shape[1]] = mask
    ii = np.flatnonzero(M.ravel())

    def fgh(v):
        w = np.zeros(k * q)
        w[ii] = v
        W = w.reshape(k, q)
        E = A.dot(W.T)
        L = E - logsumexp(E, axis=1)[:, None]
        P = np.exp(L)
        f = -np.mean((L * Y).sum(axis=1))
        g = ((P - Y).T.dot(A) / n).ravel()
        H = np.zeros((k, q, k, q))
        for a in range(k):
            for b in range(k):
                wt = P[:, a] * ((a == b) - P[:, b])
                H[a, :, b, :] = (A * wt[:, None]).T.dot(A) / n
        H = H.reshape(k * q, k * q)
        return f, g[ii], H[np.ix_(ii, ii)]
    return newton(fgh, np.zeros(len(ii)))


def fit_pois(X, y, intercept, sw=None):
    A = design(X, intercept)
    n = len(y)
    sw = np.ones(n) if sw is None else sw

    def fgh(w):
        eta = A.dot(w)
        mu = np.exp(np.minimum(eta, 50))
        f = np.mean(sw * (mu - y * eta))
        g = A.T.dot(sw * (mu - y)) / n
        H = (A * (sw * mu)[:, None]).T.dot(A) / n
        return f, g, H
    x0 = np.zeros(A.shape[1])
    if intercept:
        x0[-1] = np.log(max(np.average(y, weights=sw), 1e-3))
    return newton(fgh, x0)
