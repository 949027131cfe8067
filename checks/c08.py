import numpy as np

PROPERTY = 'C08'
RULE = ('Recorded minimizations (every evaluation and every progress report) '
        'of random convex objectives are checked against the documented '
        'meaning of each setting: rejection before evaluation, iteration and '
        'line-search limits, the delta test, the Armijo and Wolfe conditions '
        'of each accepted step, the number of corrections (directions '
        'recomputed from the last m recorded pairs), cancellation values, '
        'exceptions raised at chosen calls, interrupted runs before later '
        'runs, nested runs and non-finite objectives. Non-trivial: a run '
        'with at least three iterations or a rejected / interrupted run.')
ASSUMPTIONS = ['Objectives are deterministic.']
REQUIRED = {'steps_checked': 1500, 'directions_checked': 700,
            'rejections': 200, 'cancellations': 100, 'exceptions': 150,
            'delta_stops': 30, 'iteration_limits': 60,
            'linesearch_limits': 10, 'rerun_identical': 100}


def cases(tier, seed):
    k = 60 if tier == 'quick' else 3000
    out = []
    for kind in ('steps', 'reject', 'limits', 'cancel', 'raise', 'history',
                 'nan', 'setget'):
        for i in range(k):
            out.append(dict(kind=kind, seed=[seed, i], name=kind + str(i)))
    return out


class Run:
    """One recorded minimization."""

    def __init__(self, f, x0, args=(), hook=None, api='fmin', opt=None,
                 eval_hook=None, **par):
        import warnings
        from pyuoi.lbfgs import fmin_lbfgs
        self.evals = []
        self.its = []
        shape = np.atleast_1d(x0).shape
        self.shapes_ok = True

        def fun(x, g, *a):
            self.shapes_ok &= x.shape == shape and g.shape == shape
            self.args = a
            if eval_hook is not None:
                r = eval_hook(len(self.evals) + 1, x, g)
                if r is not None:
                    self.evals.append((x.ravel().copy(), None, r))
                    return r
            v, gr = f(x.ravel())
            g[...] = gr.reshape(shape)
            self.evals.append((x.ravel().copy(), gr, v))
            return v

        def progress(x, g, fx, xn, gn, step, k, ls, *a):
            self.shapes_ok &= x.shape == shape and g.shape == shape
            self.pargs = a
            self.its.append((x.ravel().copy(), g.ravel().copy(), fx, step, k,
                             ls))
            if hook is not None:
                return hook(k)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if opt is not None:
                    self.x = opt.minimize(fun, x0, progress, args)
                else:
                    self.x = fmin_lbfgs(fun, x0, progress, args, **par)
                self.err = None
            except BaseException as e:
                self.x, self.err = None, e
        self.warn = [str(w.message) for w in ws
                     if issubclass(w.category, UserWarning)]

    def key(self):
        """Everything observable, for exact comparison."""
        return (None if self.x is None else self.x.tobytes(),
                type(self.err).__name__, str(self.err), tuple(self.warn),
                tuple(e[0].tobytes() + np.float64(e[2]).tobytes()
                      for e in self.evals),
                tuple(i[0].tobytes() + np.float64(i[2]).tobytes()
                      for i in self.its))


def problem(rng, kinds=('quad', 'logistic', 'lse', 'quartic', 'huber'),
            nmax=14, cond=40.):
    from harness import objectives as ob
    n = int(rng.randint(1, nmax))
    kind = kinds[rng.randint(len(kinds))]
    return kind, n, ob.make(kind, n, rng, cond), rng.randn(n) * 2


LS = ('default', 'morethuente', 'armijo', 'wolfe', 'strongwolfe')


def run(case, rec):
    rng = np.random.RandomState(case['seed'] + [8, len(case['kind']),
                                                ord(case['kind'][0])])
    for _ in range(dict(steps=8, reject=1, limits=8, cancel=3,
                        history=4, nan=3, setget=1).get(case['kind'], 3)):
        globals()['do_' + case['kind']](rng, rec)


def two_loop(g, pairs):
    q = g.copy()
    al = []
    for s, y in reversed(pairs):
        a = s.dot(q) / y.dot(s)
        q = q - a * y
        al.append(a)
    s, y = pairs[-1]
    q = q * (y.dot(s) / y.dot(y))
    for (s, y), a in zip(pairs, reversed(al)):
        b = y.dot(q) / y.dot(s)
        q = q + (a - b) * s
    return -q


def do_steps(rng, rec):
    from harness import objectives as ob
    kind, n, f, x0 = problem(rng)
    c, lo, hi = 0., 0, n
    par = dict(m=int(rng.choice([1, 2, 3, 4, 7, 30])), epsilon=1e-5,
               max_iterations=40,
               ftol=float(rng.choice([1e-4, 1e-2, .1, .3])))
    if rng.rand() < .4:
        c = float(np.exp(rng.uniform(-4, 0)))
        par['orthantwise_c'] = c
        if n > 1:
            lo = int(rng.randint(0, n))
            hi = int(rng.randint(lo + 1, n + 1))
            par.update(orthantwise_start=lo, orthantwise_end=hi)
        ls = 'owlqn'
    else:
        ls = par['line_search'] = str(rng.choice(LS))
    par['wolfe'] = float(rng.choice([.5, .9, .99]))
    par['gtol'] = float(rng.choice([.4, .9]))
    r = Run(f, x0, **par)
    v, g = f(x0)
    xs, gs, fs = [x0], [g], [v + c * np.abs(x0[lo:hi]).sum()]
    for x, gg, fx, step, k, nls in r.its:
        v, g = f(x)
        xs.append(x)
        gs.append(g)
        fs.append(v + c * np.abs(x[lo:hi]).sum())
    desc = dict(kind=kind, n=n, par=par, ls=ls)
    for k in range(1, len(xs)):
        dx = xs[k] - xs[k - 1]
        step = r.its[k - 1][3]
        tol = 1e-9 * (1 + abs(fs[k]))
        if np.linalg.norm(dx) < 1e-9 * (1 + np.linalg.norm(xs[k])):
            continue
        rec.count('steps_checked')
        rec.count('oracle_evaluations')
        gk = gs[k - 1]
        if ls == 'owlqn':
            pg = ob.pseudo_gradient(xs[k - 1], gk, c, lo, hi)
            if fs[k] > fs[k - 1] + par['ftol'] * pg.dot(dx) + tol:
                rec.fail('sufficient-decrease', 'step %d' % k, **desc)
        else:
            slope, slope1 = gk.dot(dx), gs[k].dot(dx)
            st = 1e-9 * (abs(slope) + np.linalg.norm(dx))
            if fs[k] > fs[k - 1] + par['ftol'] * slope + tol:
                rec.fail('sufficient-decrease', 'step %d of %s' % (k, ls),
                         **desc)
            if ls == 'wolfe' and slope1 < par['wolfe'] * slope - st:
                rec.fail('curvature', 'step %d of %s' % (k, ls), **desc)
            if ls == 'strongwolfe' and abs(slope1) > -par['wolfe'] * slope + \
                    st:
                rec.fail('curvature', 'step %d of %s' % (k, ls), **desc)
            if ls in ('default', 'morethuente') and \
                    abs(slope1) > -par['gtol'] * slope + st:
                rec.fail('curvature', 'step %d of %s' % (k, ls), **desc)
        # the direction follows from the last m pairs
        if ls == 'owlqn':
            base = ob.pseudo_gradient(xs[k - 1], gk, c, lo, hi)
        else:
            base = gk
        pairs = [(xs[i] - xs[i - 1], gs[i] - gs[i - 1])
                 for i in range(1, k)][-par['m']:]
        if any(y.dot(s) <= 1e-10 * np.linalg.norm(s) * np.linalg.norm(y) or
               np.linalg.norm(s) < 1e-7 for s, y in pairs):
            continue
        d = two_loop(base, pairs) if pairs else -base
        if ls == 'owlqn':
            if pairs:
                z = np.arange(n)
                d = np.where((z >= lo) & (z < hi) & (d * base >= 0), 0., d)
            to = xs[k - 1] + step * d
            orth = np.where(xs[k - 1] == 0, -base, xs[k - 1])
            z = np.arange(n)
            inside = (z >= lo) & (z < hi)
            to = np.where(inside & (to * orth <= 0), 0., to)
            d = to - xs[k - 1]
        else:
            d = step * d
        rec.count('directions_checked')
        rec.count('oracle_evaluations')
        err = np.abs(dx - d).max()
        if err > 1e-4 * np.abs(d).max() + 1e-9 * (1 + np.abs(xs[k]).max()):
            rec.fail('direction', 'the step does not follow the last m '
                     'corrections (off by %g of %g)' % (
                         err, np.abs(d).max()), it=k, **desc)
            break
    rec.check(r.shapes_ok, 'callback-shape', '', **desc)
    # with enough memory for all corrections, more changes nothing
    if par['m'] >= len(r.its):
        r2 = Run(f, x0, **dict(par, m=par['m'] + 9))
        rec.check(r2.key() == r.key(), 'memory', 'unused memory matters',
                  **desc)
    if len(r.its) >= 3:
        rec.seen('steps', kind, ls, par['m'], par['ftol'])
    rec.sample = dict(desc, iterations=len(r.its))


BAD = [dict(epsilon=-1e-9), dict(past=-1), dict(delta=-1e-9),
       dict(min_step=-1.), dict(min_step=2., max_step=1.), dict(ftol=-1e-9),
       dict(line_search='wolfe', wolfe=1.), dict(line_search='wolfe',
                                                 wolfe=1e-4),
       dict(line_search='strongwolfe', wolfe=1.5),
       dict(line_search='wolfe', ftol=.95), dict(gtol=-1e-3),
       dict(xtol=-1e-30), dict(max_linesearch=0), dict(max_linesearch=-3),
       dict(orthantwise_c=-.1), dict(orthantwise_c=.1, orthantwise_start=-1),
       dict(orthantwise_c=.1, orthantwise_start=99),
       dict(orthantwise_c=.1, orthantwise_end=99),
       dict(orthantwise_start=-1), dict(orthantwise_end=99),
       dict(m=0), dict(m=-4), dict(line_search='newton'),
       dict(line_search=None), dict(m='x'), dict(epsilon='x'), dict(m=None),
       dict(max_iterations='y'), dict(m=2 ** 40), dict(past=2 ** 35)]


def do_reject(rng, rec):
    from pyuoi.lbfgs import LBFGS, fmin_lbfgs
    from harness import objectives as ob
    for i, bad in enumerate(BAD):
        n = int(rng.randint(1, 9))
        f = ob.make('quad', n, rng)
        r = Run(f, rng.randn(n), **bad)
        rec.count('rejections')
        rec.check(r.err is not None and isinstance(r.err, Exception) and
                  not r.evals, 'invalid-accepted',
                  '%r: error %r after %d evaluations' % (
                      bad, r.err, len(r.evals)))
    # a setting is wrong with every line search and weight
    for i in rng.choice(len(BAD), 8, replace=False):
        bad = BAD[i]
        if 'line_search' in bad or 'orthantwise_c' in bad:
            continue
        n = int(rng.randint(1, 9))
        f = ob.make('quad', n, rng)
        for ls in LS + ('owlqn',):
            par = dict(orthantwise_c=.1) if ls == 'owlqn' else dict(
                line_search=ls)
            if bad.get('ftol') == .95 or (ls == 'owlqn' and 'gtol' in bad):
                continue
            r = Run(f, rng.randn(n), **dict(par, **bad))
            rec.count('rejections')
            rec.check(r.err is not None and not r.evals, 'invalid-accepted',
                      '%r with %s: error %r after %d evaluations' % (
                          bad, ls, r.err, len(r.evals)))
    for what in ('f', 'progress', 'empty', 'strings', 'object'):
        n = 3
        f = ob.make('quad', n, rng)
        seen = []

        def fun(x, g):
            seen.append(1)
            v, gr = f(x)
            g[:] = gr
            return v
        try:
            if what == 'f':
                fmin_lbfgs(3, np.zeros(3))
            elif what == 'progress':
                fmin_lbfgs(fun, np.zeros(3), progress=[])
            elif what == 'empty':
                fmin_lbfgs(fun, np.zeros(0))
            elif what == 'strings':
                fmin_lbfgs(fun, ['a', 'b', 'c'])
            else:
                fmin_lbfgs(fun, [object()] * 3)
            err = None
        except Exception as e:
            err = e
        rec.count('rejections')
        rec.check(err is not None and not seen, 'invalid-accepted', what)
    # an L1 weight is only combined with the supported line search
    for name in ('armijo', 'strongwolfe', 'morethuente', 'default'):
        f = ob.make('quad', 4, rng)
        opt = LBFGS()
        opt.orthantwise_c = .1
        opt.linesearch = name
        r = Run(f, np.zeros(4), opt=opt)
        rec.count('rejections')
        rec.check(r.err is not None and not r.evals, 'l1-line-search',
                  '%s accepted with an L1 weight' % name)
        r = Run(f, np.ones(4), orthantwise_c=.1, line_search=name)
        ref = Run(f, np.ones(4), orthantwise_c=.1, line_search='wolfe')
        rec.check(r.err is None and np.array_equal(r.x, ref.x) and
                  (name == 'default' or any('OWL-QN' in w for w in r.warn)),
                  'l1-line-search', '%s does not fall back to wolfe' % name)
    # however small the weight
    for w in (1e-6, 1e-14, 1e-300):
        f = ob.make('quad', 4, rng)
        r = Run(f, np.ones(4), orthantwise_c=w)
        ref = Run(f, np.ones(4), orthantwise_c=w, line_search='wolfe')
        rec.check(r.err is None and r.key() == ref.key(), 'l1-line-search',
                  'weight %g: no fall-back to wolfe: %r' % (w, r.err))
    rec.seen('reject', tuple(rng.randint(9, size=3)))


def do_limits(rng, rec):
    kind, n, f, x0 = problem(rng, cond=500.)
    c = float(np.exp(rng.uniform(-4, -1))) if rng.rand() < .3 else 0.
    base = dict(epsilon=1e-6, orthantwise_c=c)
    if not c:
        base['line_search'] = str(rng.choice(LS))
    full = Run(f, x0, max_iterations=400, **base)
    N = len(full.its)
    desc = dict(kind=kind, n=n, par=base, total=N)
    if N >= 2:
        k = int(rng.randint(1, N))
        r = Run(f, x0, max_iterations=k, **base)
        rec.count('iteration_limits')
        rec.check(len(r.its) == k, 'iteration-limit', '%d iterations for a '
                  'limit of %d' % (len(r.its), k), **desc)
        rec.check(r.err is None and r.x is not None and
                  any('maximum number of iterations' in w for w in r.warn),
                  'iteration-limit', 'no warning or no point: %r %r' % (
                      r.err, r.warn), **desc)
        if len(r.its) == k and r.x is not None:
            rec.check(np.array_equal(r.x, full.its[k - 1][0]) and
                      np.array_equal(r.its[-1][0], full.its[k - 1][0]),
                      'iteration-limit-point', 'not the point reached '
                      'within the limit', **desc)
        rec.seen('limit', kind, n, k, bool(c))
    if full.err is None and not full.warn:
        r = Run(f, x0, max_iterations=N, **base) if N else full
        rec.check(r.err is None and np.array_equal(r.x, full.x) and
                  not r.warn, 'iteration-limit-exact', 'a limit equal to the '
                  'needed iterations warns or changes the result', **desc)
    # line-search limit
    for lim in (1, 2, 3):
        r = Run(f, x0, max_linesearch=lim, max_iterations=200, **base)
        worst = max([i[5] for i in r.its] or [0])
        rec.check(worst <= lim, 'linesearch-limit', '%d evaluations in one '
                  'iteration, limit %d' % (worst, lim), **desc)
        rec.check(len(r.evals) <= 1 + sum(i[5] for i in r.its) + lim,
                  'linesearch-limit', 'extra evaluations', **desc)
        if r.err is not None:
            rec.check(type(r.err).__name__ == 'LBFGSError', 'error-type',
                      repr(r.err), **desc)
        elif any('line-search' in w or 'rounding' in w for w in r.warn):
            rec.count('linesearch_limits')
            last = r.its[-1][0] if r.its else x0
            rec.check(np.array_equal(r.x, last), 'linesearch-limit-point',
                      'not the best point reached', **desc)
    # delta test
    past = int(rng.choice([1, 2, 3, 5]))
    delta = float(10. ** rng.uniform(-6, -1))
    r = Run(f, x0, past=past, delta=delta, max_iterations=400, **base)
    F = [f(x0)[0] + c * np.abs(x0).sum()] + [i[2] for i in r.its]
    stop = None
    for k in range(past, len(F)):
        rate = abs(F[k - past] - F[k]) / abs(F[k]) if F[k] else np.inf
        if abs(rate - delta) < 1e-9 * delta:
            return
        if rate < delta:
            stop = k
            break
    if stop is not None:
        rec.count('delta_stops')
        rec.check(len(r.its) == stop, 'delta-test', 'stops after %d '
                  'iterations, the test holds after %d' % (
                      len(r.its), stop), past=past, delta=delta, **desc)
        rec.check(r.err is None and r.x is not None and not r.warn and
                  np.array_equal(r.x, r.its[-1][0]), 'delta-test-point',
                  'error or not the current point: %r %r' % (r.err, r.warn),
                  **desc)
    else:
        rec.check(r.key() == full.key(), 'delta-test', 'stops although the '
                  'test never holds', past=past, delta=delta, **desc)


def do_cancel(rng, rec):
    kind, n, f, x0 = problem(rng, cond=100.)
    x0 = x0 + 3
    base = dict(line_search=str(rng.choice(LS))) if rng.rand() < .7 else \
        dict(orthantwise_c=.05)
    full = Run(f, x0, **base)
    N = len(full.its)
    if N < 2:
        return
    go = [None, 0, False, 0., np.int64(0), np.float64(0.)]
    r = Run(f, x0, hook=lambda k: go[k % len(go)], **base)
    rec.check(r.key() == full.key(), 'continue-value',
              'a zero or None return changes the run', kind=kind)
    for val in (1, -1, True, 2, 17, -1021, 1000, .5, np.int32(3),
                np.float64(-.25), 'stop', 2 ** 31, 2 ** 32, -2 ** 40, '', (),
                [], {}, 1e-300, np.nan):
        at = int(rng.randint(1, N))
        r = Run(f, x0, hook=lambda k: val if k == at else 0, **base)
        rec.count('cancellations')
        ok = type(r.err).__name__ == 'LBFGSError' and len(r.its) == at
        rec.check(ok, 'cancel', 'value %r at iteration %d: %d iterations, '
                  'error %r' % (val, at, len(r.its), r.err), kind=kind)
        rec.check('cancel' in str(r.err).lower(), 'cancel-message',
                  repr(r.err))
    r = Run(f, x0, hook=lambda k: -2048 if k == 1 else 0, **base)
    rec.check(type(r.err).__name__ == 'AllZeroLBFGSError', 'cancel-all-zero',
              repr(r.err))
    rec.seen('cancel', kind, n, N)
    again = Run(f, x0, **base)
    rec.count('rerun_identical')
    rec.check(again.key() == full.key(), 'later-run',
              'a cancelled run changes a later run', kind=kind)


class Oops(Exception):
    pass


def do_raise(rng, rec):
    kind, n, f, x0 = problem(rng, cond=100.)
    x0 = x0 + 3
    base = dict(line_search=str(rng.choice(LS))) if rng.rand() < .6 else \
        dict(orthantwise_c=.05)
    full = Run(f, x0, **base)
    N, M = len(full.its), len(full.evals)
    if N < 2:
        return
    for exc in (Oops('a'), KeyboardInterrupt('b'), SystemExit(3),
                StopIteration(), MemoryError('c'), GeneratorExit()):
        at = int(rng.randint(1, N))

        def hook(k):
            if k == at:
                raise exc
        r = Run(f, x0, hook=hook, **base)
        rec.count('exceptions')
        rec.check(r.err is exc and len(r.its) == at, 'progress-exception',
                  '%r at iteration %d: %r after %d' % (
                      exc, at, r.err, len(r.its)), kind=kind)
        at = int(rng.choice([1, 2, M, rng.randint(1, M + 1)]))
        count = [0]

        def ehook(k, x, g):
            count[0] += 1
            if k == at or count[0] >= at:
                raise exc
        r = Run(f, x0, eval_hook=ehook, **base)
        rec.count('exceptions')
        rec.check(r.err is exc, 'objective-exception', '%r at evaluation %d: '
                  '%r' % (exc, at, r.err), kind=kind)
        rec.check(count[0] == at, 'objective-after-exception',
                  '%d evaluations after the exception' % (count[0] - at))
    for ret in (None, 'x', [1, 2], object()):
        def ehook(k, x, g):
            return ret if k == 2 else None
        import pyuoi.lbfgs as L

        def fun(x, g, k=[0]):
            k[0] += 1
            v, gr = f(x)
            g[:] = gr
            return ret if k[0] == 2 else v
        try:
            L.fmin_lbfgs(fun, x0, **base)
            err = None
        except Exception as e:
            err = e
        rec.count('exceptions')
        rec.check(isinstance(err, TypeError) or isinstance(err, ValueError),
                  'objective-type', 'objective returning %r: %r' % (ret, err))
    rec.seen('raise', kind, n, N)
    again = Run(f, x0, **base)
    rec.count('rerun_identical')
    rec.check(again.key() == full.key(), 'later-run',
              'a failed run changes a later run', kind=kind)


def do_history(rng, rec):
    from pyuoi.lbfgs import LBFGS, fmin_lbfgs
    kind, n, f, x0 = problem(rng)
    args = tuple(object() for _ in range(rng.randint(0, 4)))
    base = dict(orthantwise_c=.1) if rng.rand() < .5 else {}
    first = Run(f, x0, args=args, **base)
    if first.its:
        rec.check(len(first.args) == len(first.pargs) == len(args) and
                  all(a is b for a, b in zip(first.args, args)) and
                  all(a is b for a, b in zip(first.pargs, args)),
                  'extra-arguments', 'not handed through')
    # a random history of other runs
    for _ in range(rng.randint(1, 6)):
        what = rng.randint(7)
        _, n2, f2, y0 = problem(rng)
        if what == 0:
            Run(f2, y0, **BAD[rng.randint(len(BAD))])
        elif what == 1:
            Run(f2, y0, hook=lambda k: 5)
        elif what == 2:
            Run(f2, y0, m=2, past=3, delta=.1, ftol=.2, gtol=.3,
                max_iterations=3, max_linesearch=4, epsilon=.3)
        elif what == 3:
            def boom(k, x, g):
                raise Oops()
            Run(f2, y0, eval_hook=boom)
        elif what == 4:
            Run(f2, y0, orthantwise_c=.7, orthantwise_start=0,
                orthantwise_end=1)
        elif what == 5:
            opt = LBFGS()
            opt.max_iterations = 1
            opt.orthantwise_c = .3
            opt.linesearch = 'wolfe'
            Run(f2, y0, opt=opt)
        else:
            def nested(k, x, g):
                if k == 2:
                    Run(f2, y0, orthantwise_c=.2)
            r = Run(f, x0, args=args, eval_hook=nested, **base)
            rec.check(r.key() == first.key(), 'nested',
                      'a nested run changes the outer run', kind=kind)
    again = Run(f, x0, args=args, **base)
    rec.count('rerun_identical')
    rec.check(again.key() == first.key(), 'later-run',
              'earlier runs change a later run', kind=kind)
    # one object used repeatedly equals fresh calls
    opt = LBFGS()
    if base:
        opt.orthantwise_c = .1
        opt.linesearch = 'wolfe'
    opt.epsilon, opt.m = 1e-5, 10
    for _ in range(3):
        r = Run(f, x0, args=args, opt=opt)
        rec.count('rerun_identical')
        want = Run(f, x0, args=args, **dict(base, epsilon=1e-5, m=10))
        rec.check(r.key() == want.key(), 'object-reuse',
                  'LBFGS.minimize differs from fmin_lbfgs', kind=kind)
    # the shape of the start does not matter, and is kept
    size = x0.size
    for d in (1, 2, 3, size):
        if size % d:
            continue
        r = Run(f, x0.reshape(d, size // d), args=args, **base)
        rec.check(r.key() == first.key() and r.shapes_ok and (
            r.x is None or r.x.shape == (d, size // d)), 'start-shape',
            'a start of shape (%d, %d) gives another run or shape' % (
                d, size // d), kind=kind)
    # callers may keep what the callbacks were given
    kept = []

    def keeper(x, g):
        kept.append((x, g, x.copy(), g.copy()))
        v, gr = f(x)
        g[:] = gr
        return v
    x = fmin_lbfgs(keeper, x0, **base)
    rec.check(np.array_equal(x, first.x), 'later-run', 'result differs')
    rec.seen('history', kind, n, len(first.its))


def do_nan(rng, rec):
    """Runs end, with an error or a warning, whatever the objective."""
    kind, n, f, x0 = problem(rng)
    for ls in LS + ('owlqn',):
        # (-inf is left out: an objective unbounded below promises nothing)
        val = [np.nan, np.inf][rng.randint(2)]
        # (nor does one that is +inf from its start on)
        at = int(rng.randint(1 if np.isnan(val) else 2, 6))
        gv = rng.rand() < .5

        def ehook(k, x, g):
            if k >= at:
                g[...] = val if gv else f(x)[1]
                return val
        base = dict(orthantwise_c=.1) if ls == 'owlqn' else \
            dict(line_search=ls)
        r = Run(f, x0, eval_hook=ehook, hook=lambda k: k > 300, **base)
        rec.count('nonfinite_runs')
        rec.check(len(r.its) <= 300, 'endless', '%s with %r from evaluation '
                  '%d does not end' % (ls, val, at), gradient=gv, kind=kind)
        if r.x is not None and np.isnan(val):
            rec.check(np.all(np.isfinite(r.x)), 'nonfinite-result',
                      'a non-finite point is returned without an error')
    # a NaN direction: linear objectives have no curvature

    def lin(x):
        return float(np.sum(x)), np.ones(len(x))
    for ls in LS:
        r = Run(lin, x0, line_search=ls, hook=lambda k: k > 300)
        rec.count('nonfinite_runs')
        rec.check(len(r.its) <= 300, 'endless', 'linear objective, %s' % ls)
    rec.seen('nan', kind, n)


def do_setget(rng, rec):
    from pyuoi.lbfgs import LBFGS
    a, b = LBFGS(), LBFGS()
    vals = dict(m=7, epsilon=.25, past=3, delta=.125, max_iterations=11,
                max_linesearch=9, min_step=1e-9, max_step=1e9, ftol=.01,
                wolfe=.7, gtol=.6, xtol=1e-12, orthantwise_c=.5,
                orthantwise_start=2, orthantwise_end=5)
    old = {k: getattr(b, k) for k in vals}
    for k, v in vals.items():
        setattr(a, k, v)
    for k, v in vals.items():
        rec.check(getattr(a, k) == v, 'setting', '%s reads %r after setting '
                  '%r' % (k, getattr(a, k), v))
        rec.check(getattr(b, k) == old[k], 'setting-leak', k)
        rec.check(getattr(LBFGS(), k) == old[k], 'setting-leak', k)
    # a setting given to fmin_lbfgs is the one used: same run either way
    _, n, f, x0 = problem(rng, cond=300.)
    opts = dict(m=2, epsilon=1e-3, past=2, delta=1e-3, max_iterations=9,
                max_linesearch=5, ftol=.05, gtol=.5, wolfe=.6,
                min_step=1e-15, max_step=1e10, xtol=1e-14)
    for ls in LS:
        o = LBFGS()
        for k, v in opts.items():
            setattr(o, k, v)
        o.linesearch = ls
        r1 = Run(f, x0, opt=o)
        r2 = Run(f, x0, line_search=ls, **opts)
        rec.check(r1.key() == r2.key(), 'fmin-settings', ls)
    # step bounds
    r = Run(f, x0 + 5, max_step=.01, max_iterations=20)
    rec.check(all(i[3] <= .01 for i in r.its), 'max-step',
              'a step exceeds max_step')
    r = Run(f, x0 + 5, min_step=.5, max_iterations=20)
    rec.check(all(i[3] >= .5 for i in r.its), 'min-step',
              'a step is below min_step')
    rec.seen('setget', n)
