"""Smooth convex objectives for the minimizer (value and gradient)."""
import numpy as np
from scipy.special import expit, logsumexp

KINDS = ('quad', 'logistic', 'poisson', 'lse', 'cosh', 'quartic', 'huber')


def make(kind, n, rng, cond=10.):
    """(f, scale): f(x flat) -> (value, gradient); strictly convex."""
    if kind == 'quad':
        Q, _ = np.linalg.qr(rng.randn(n, n))
        ev = np.exp(rng.uniform(0, np.log(cond), n))
        A = (Q * ev).dot(Q.T)
        b = rng.randn(n) * 2

        def f(x):
            Ax = A.dot(x)
            return .5 * x.dot(Ax) - b.dot(x), Ax - b
    elif kind == 'logistic':
        N = 5 * n + 10
        Z = rng.randn(N, n)
        y = (rng.rand(N) < expit(Z.dot(rng.randn(n)))).astype(float)

        def f(x):
            z = Z.dot(x)
            return (np.mean(np.logaddexp(0, z) - y * z) + .005 * x.dot(x),
                    Z.T.dot(expit(z) - y) / N + .01 * x)
    elif kind == 'poisson':
        N = 5 * n + 10
        Z = rng.randn(N, n) * .5
        y = rng.poisson(np.exp(np.clip(Z.dot(rng.randn(n)), -3, 3)))

        def f(x):
            z = Z.dot(x)
            mu = np.exp(z)
            return (np.mean(mu - y * z) + .005 * x.dot(x),
                    Z.T.dot(mu - y) / N + .01 * x)
    elif kind == 'lse':
        N = 3 * n + 5
        Z = rng.randn(N, n)
        c = rng.randn(N)

        def f(x):
            z = Z.dot(x) + c
            v = logsumexp(z)
            return (v + .05 * x.dot(x), Z.T.dot(np.exp(z - v)) + .1 * x)
    elif kind == 'cosh':
        t = rng.randn(n) * 3
        s = np.exp(rng.uniform(-1, 1, n))

        def f(x):
            u = (x - t) * s
            return (np.sum(np.logaddexp(u, -u)), s * np.tanh(u))
    elif kind == 'quartic':
        t = rng.randn(n)
        Z = rng.randn(n, n) / np.sqrt(n)

        def f(x):
            u = Z.dot(x - t)
            return (.25 * np.sum(u ** 4) + .5 * np.sum((x - t) ** 2),
                    Z.T.dot(u ** 3) + (x - t))
    elif kind == 'huber':
        N = 4 * n + 4
        Z = rng.randn(N, n)
        y = Z.dot(rng.randn(n)) + rng.standard_cauchy(N)

        def f(x):
            r = np.sqrt(1 + (Z.dot(x) - y) ** 2)
            return (np.mean(r) + .005 * x.dot(x),
                    Z.T.dot((Z.dot(x) - y) / r) / N + .01 * x)
    else:
        raise ValueError(kind)
    return f


def pseudo_gradient(x, g, c, lo, hi):
    """Minimal-norm subgradient of f + c * |x[lo:hi]|_1."""
    pg = g.copy()
    for i in range(lo, hi):
        if x[i] > 0:
            pg[i] = g[i] + c
        elif x[i] < 0:
            pg[i] = g[i] - c
        elif g[i] + c < 0:
            pg[i] = g[i] + c
        elif g[i] - c > 0:
            pg[i] = g[i] - c
        else:
            pg[i] = 0.
    return pg
