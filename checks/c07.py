import numpy as np

PROPERTY = 'C07'
RULE = ('Random convex objectives (quadratic, logistic, Poisson, '
        'log-sum-exp, log-cosh, quartic, pseudo-Huber) of 1 to 60 variables '
        'in one to three dimensions, with every line search, L1 ranges, '
        'memory sizes and tolerances; every callback is monitored and the '
        'returned point is tested for (sub)gradient optimality with an '
        'independently computed gradient. Non-trivial: a converged run of '
        'at least two iterations.')
ASSUMPTIONS = ['Runs that end in a documented warning or error are only '
               'checked for descent, except on well-scaled problems, where '
               'giving up counts as a violation.']
REQUIRED = {'converged_smooth': 300, 'converged_l1': 300, 'iterations': 5000,
            'exact_zeros': 300}


def cases(tier, seed):
    k = 64 if tier == 'quick' else 1500
    return [dict(seed=[seed, i], n=20, name='c07-%d' % i) for i in range(k)]


def run(case, rec):
    rng = np.random.RandomState(case['seed'] + [7])
    for j in range(case['n']):
        one(rng, rec, j)


def one(rng, rec, j):
    import warnings
    from harness import objectives as ob
    from pyuoi.lbfgs import fmin_lbfgs
    kind = ob.KINDS[rng.randint(len(ob.KINDS))]
    shape = [(), (1,), (int(rng.randint(2, 30)),),
             (int(rng.randint(1, 8)), int(rng.randint(1, 8))),
             (2, int(rng.randint(1, 4)), 3)][rng.choice(5, p=[
                 .05, .1, .45, .25, .15])]
    if rng.rand() < .06:
        shape = [(60,), (65,), (130,), (200,), (11, 13)][rng.randint(5)]
    n = int(np.prod(shape)) if shape else 1
    hard = rng.rand() < .2
    cond = 1e5 if hard else 30.
    f = ob.make(kind, n, rng, cond)
    start = rng.choice(['zero', 'rand', 'far', 'int', 'list', 'strided',
                        'f32', 'fortran'])
    x0 = rng.randn(*shape) * (8. if start == 'far' else 1.)
    if kind in ('poisson', 'quartic'):
        x0 = np.clip(x0, -2, 2)
    x0 = np.asarray(x0)
    if start == 'zero':
        x0 = np.zeros(shape)
    elif start == 'int':
        x0 = np.round(x0).astype(int)
    elif start == 'f32':
        x0 = x0.astype(np.float32)
    elif start == 'strided' and x0.ndim:
        big = np.repeat(x0, 2, axis=0)
        x0 = big[::2]
    elif start == 'fortran':
        x0 = np.asfortranarray(x0)
    want_shape = np.atleast_1d(x0).shape
    arg = x0.tolist() if start == 'list' else x0
    keep = np.array(x0, copy=True)
    l1 = rng.rand() < .5
    par = dict(m=int(rng.choice([1, 2, 3, 5, 10, 20])),
               epsilon=float(10. ** -rng.randint(2, 8)))
    if rng.rand() < .08:
        # only an exact optimum is reached without a warning
        par.update(epsilon=0., max_iterations=300)
    c, lo, hi = 0., 0, n
    if l1:
        c = float(np.exp(rng.uniform(-5, 1)))
        if kind in ('logistic', 'poisson', 'huber'):
            c *= .1
        par['orthantwise_c'] = c
        form = rng.randint(4)
        if form:
            lo = int(rng.randint(0, n))
            par['orthantwise_start'] = lo
        if form > 1:
            hi = int(rng.randint(lo + 1, n + 1))
            if rng.rand() < .12:
                # nothing is penalized
                hi = int(rng.randint(0, lo + 1))
            par['orthantwise_end'] = hi
        if rng.rand() < .3:
            par['line_search'] = 'wolfe'
    else:
        par['line_search'] = str(rng.choice(
            ['default', 'morethuente', 'armijo', 'wolfe', 'strongwolfe']))
        if rng.rand() < .3:
            # without a weight the range means nothing
            par['orthantwise_end'] = n
    hard = hard or par['epsilon'] < 1e-6 or (
        kind not in ('quad', 'quartic'))
    extra = tuple(rng.rand(rng.randint(0, 3)))
    desc = dict(kind=kind, shape=shape, start=str(start), par=par, n=n)
    bad = []
    calls = [0]
    log = []

    def F(x):
        v, g = f(x)
        return v + c * np.abs(x[lo:hi]).sum(), g

    def fun(x, g, *a):
        calls[0] += 1
        if x.shape != want_shape or g.shape != want_shape:
            bad.append(('callback-shape', x.shape))
        if len(a) != len(extra) or any(p != q for p, q in zip(a, extra)):
            bad.append(('args', a))
        v, gr = f(x.ravel())
        g[...] = gr.reshape(want_shape)
        return v

    since = [0]

    def progress(x, g, fx, xn, gn, step, k, ls, *a):
        xf, gf = x.ravel().copy(), g.ravel().copy()
        v, gr = F(xf)
        tol = 1e-10 * (1 + abs(v))
        if x.shape != want_shape or g.shape != want_shape:
            bad.append(('progress-shape', x.shape))
        if abs(fx - v) > tol:
            bad.append(('reported-value', (fx, v)))
        if abs(xn - np.linalg.norm(xf)) > 1e-10 * (1 + xn):
            bad.append(('reported-xnorm', (xn, np.linalg.norm(xf))))
        pg = ob.pseudo_gradient(xf, gr, c, lo, hi) if l1 else gr
        if abs(gn - np.linalg.norm(pg)) > 1e-8 * (1 + gn):
            bad.append(('reported-gnorm', (gn, np.linalg.norm(pg))))
        if not np.allclose(gf, gr, rtol=1e-9, atol=1e-9 * (
                1 + np.abs(gr).max())):
            bad.append(('reported-gradient', np.abs(gf - gr).max()))
        if k != len(log) + 1:
            bad.append(('iteration-number', (k, len(log) + 1)))
        if ls != calls[0] - since[0]:
            bad.append(('evaluation-count', (ls, calls[0] - since[0])))
        since[0] = calls[0]
        if not step > 0:
            bad.append(('step', step))
        prev = log[-1][0] if log else v0
        if v > prev + 1e-12 * (1 + abs(prev)):
            bad.append(('descent', (prev, v)))
        if len(a) != len(extra) or any(p != q for p, q in zip(a, extra)):
            bad.append(('progress-args', a))
        log.append((v, xf))

    xs = np.atleast_1d(np.asarray(x0, dtype=float)).ravel()
    v0 = F(xs)[0]
    since[0] = 1
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            x = fmin_lbfgs(fun, arg, progress=progress, args=extra, **par)
            err = None
        except Exception as e:
            x, err = None, e
    ws = [str(w.message) for w in ws if issubclass(w.category, UserWarning) and
          'line_search' not in str(w.message)]
    rec.count('runs')
    rec.count('iterations', len(log))
    rec.count('evaluations', calls[0])
    for mech, what in bad[:2]:
        rec.fail(mech, what, **desc)
    rec.count('oracle_evaluations', 9 * len(log))
    rec.check(np.array_equal(keep, np.asarray(arg)), 'start-modified', '',
              **desc)
    if err is not None:
        rec.count('errors')
        rec.check(type(err).__name__ == 'LBFGSError', 'error-type',
                  repr(err), **desc)
        rec.check(hard, 'gives-up', 'well-scaled problem: %r' % err, **desc)
        return
    rec.check(isinstance(x, np.ndarray) and x.shape == want_shape,
              'returned-shape', getattr(x, 'shape', type(x)), **desc)
    if not isinstance(x, np.ndarray) or x.size != n:
        return
    xf = np.array(x, dtype=float).ravel()
    v, g = F(xf)
    rec.check(v <= v0 + 1e-12 * (1 + abs(v0)), 'final-value',
              'returned value %g is above the start %g' % (v, v0), **desc)
    if log:
        rec.check(v <= log[-1][0] + 1e-12 * (1 + abs(v)), 'final-point',
                  'the returned point is worse than the last report', **desc)
    if ws:
        rec.count('warnings')
        rec.check(hard, 'gives-up', 'well-scaled problem: %s' % ws[0], **desc)
        return
    pg = ob.pseudo_gradient(xf, g, c, lo, hi) if l1 else g
    lim = par['epsilon'] * max(1., np.linalg.norm(xf)) * (1 + 1e-6)
    gn = np.linalg.norm(pg)
    rec.check(gn <= lim, 'optimality', '(sub)gradient norm %g > %g' % (
        gn, lim), x=xf, **desc)
    if l1:
        rec.count('converged_l1')
        z = xf[lo:hi] == 0
        rec.count('exact_zeros', z.sum())
        inside = np.abs(g[lo:hi])[z] <= c + lim
        rec.check(inside.all(), 'zero-kkt', 'a zero is not held by the '
                  'penalty', **desc)
        # strictly held coordinates are exactly zero
        held = np.abs(g[lo:hi]) < c - lim - 1e-9
        rec.check(np.all(xf[lo:hi][held] == 0), 'exact-zero',
                  'a held coordinate is not exactly zero', **desc)
    else:
        rec.count('converged_smooth')
    if len(log) >= 2:
        rec.seen(kind, shape, l1, lo > 0, hi < n,
                 par.get('line_search', ''), par['m'])
    rec.sample = dict(desc, iterations=len(log), gnorm=gn)
