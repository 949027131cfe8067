import numpy as np

PROPERTY = 'C09'
RULE = ('The extension is rebuilt with AddressSanitizer and UBSan (Python '
        'itself allocating through malloc, so that callbacks and arrays are '
        'covered) and a counter of native allocations. Hostile sequences of '
        'minimizations are run: sizes, shapes, dtypes, layouts, parameter '
        'extremes, callbacks that fail, misbehave, nest or cancel, threads, '
        'and every single allocation failing in turn. A sanitizer report or '
        'a dying process is a violation, and so are allocations left after '
        'a run, results that change after everything else is gone, and '
        'results that differ from the same minimization run alone. '
        'Non-trivial: a sequence in which at least one minimization ended.')
ASSUMPTIONS = ['Callbacks copy what they keep: the arrays they are given '
               'are views of the workspace of the running minimization.',
               'AddressSanitizer sees heap accesses of the extension and '
               'of Python objects, not of the uninstrumented numpy.']
VARIANT = 'asan'
REQUIRED = {'minimizations': 1500, 'nested': 60, 'threads_runs': 40,
            'alloc_failures': 150, 'raised': 60, 'cancelled': 6,
            'native_allocations': 20000, 'outlive': 200, 'switches': 100}
CASE_TIMEOUT = 200
KINDS = ('seq', 'seq', 'nest', 'threads', 'leak', 'fault', 'outlive',
         'model')


def worker_env(env):
    from harness import boot
    return boot.asan_env(env)


def cases(tier, seed):
    k = 5 if tier == 'quick' else 120
    return [dict(kind=kind, seed=[seed, i, j], name=kind + str(i))
            for i in range(k) for j, kind in enumerate(KINDS)]


class Native:
    """Counters compiled into the extension."""

    def __init__(self):
        import ctypes
        import pyuoi.lbfgs._lowlevel as low
        lib = ctypes.CDLL(low.__file__)
        self.live = ctypes.c_long.in_dll(lib, 'verif_live')
        self.total = ctypes.c_long.in_dll(lib, 'verif_total')
        self.fail_in = ctypes.c_long.in_dll(lib, 'verif_fail_in')
        self.heap = getattr(
            ctypes.CDLL(None), '__sanitizer_get_current_allocated_bytes')
        self.heap.restype = ctypes.c_size_t


NAT = None


def run(case, rec):
    import gc
    import warnings
    global NAT
    warnings.simplefilter('ignore')
    NAT = NAT or Native()
    t0 = NAT.total.value
    rng = np.random.RandomState(case['seed'])
    globals()['do_' + case['kind']](rng, rec)
    gc.collect()
    rec.count('native_allocations', NAT.total.value - t0)
    rec.check(NAT.live.value == 0, 'leak', '%d native allocations are never '
              'freed' % NAT.live.value, kind=case['kind'])
    NAT.live.value = 0
    rec.seen(case['kind'], NAT.total.value - t0)


def forms(rng, x):
    """The start x in some array form."""
    k = rng.randint(14)
    n = x.size
    if k == 0:
        return x.astype(np.float32)
    if k == 1:
        return list(map(float, x))
    if k == 2:
        return np.repeat(x, 3)[::3]
    if k == 3:
        x = x.copy()
        x.flags.writeable = False
        return x
    if k == 4:
        return x.astype('>f8')
    if k == 5:
        return np.asfortranarray(x.reshape(1, n))
    if k == 6:
        return x.reshape(n, 1, 1)
    if k == 7 and n % 2 == 0:
        return np.asfortranarray(x.reshape(2, n // 2))
    if k == 8:
        return x[::-1]
    if k == 9:
        return np.round(x).astype(int)
    if k == 10:
        return np.round(x) > 0
    if k == 11:
        return x.astype(object)
    if k == 12 and n == 1:
        return float(x[0])
    return x


def bad_forms(rng):
    return [np.array(['a', 'b']), np.array([1, None], dtype=object),
            np.zeros(0), np.zeros((0, 3)), 'text', None, np.array([1j, 2]),
            np.array([object()]), np.zeros((3, 0)), [[1., 2.], [3.]],
            np.array(['nan'])][rng.randint(11)]


def params(rng, n):
    p = {}
    if rng.rand() < .5:
        p['m'] = int(rng.choice([1, 2, 3, 5, 17, 100]))
    if rng.rand() < .4:
        p['past'] = int(rng.choice([1, 2, 3, 10, 50]))
        p['delta'] = float(rng.choice([0., 1e-8, 1e-3]))
    if rng.rand() < .4:
        p['line_search'] = str(rng.choice(['default', 'morethuente', 'armijo',
                                           'wolfe', 'strongwolfe']))
    if rng.rand() < .4:
        p['max_linesearch'] = int(rng.choice([1, 2, 5, 40]))
    if rng.rand() < .4:
        p['orthantwise_c'] = float(rng.choice([1e-3, .1, 2.]))
        p['line_search'] = 'default' if rng.rand() < .5 else 'wolfe'
        p['orthantwise_start'] = int(rng.choice([0, 1, n // 2, n, max(0, n - 1)
                                                 ]))
        p['orthantwise_end'] = int(rng.choice([-1, 0, 1, n // 2, n]))
    if rng.rand() < .2:
        p['epsilon'] = float(rng.choice([0., 1e-12, 1e-3, 10.]))
    if rng.rand() < .1:
        p['min_step'] = 1e-3
    if rng.rand() < .1:
        p['max_step'] = 2.
    if rng.rand() < .15:
        k = str(rng.choice(['m', 'past', 'max_linesearch', 'orthantwise_start',
                            'orthantwise_end', 'max_iterations']))
        p[k] = int(rng.choice([-(2 ** 31), -7, -1, 0, n + 1, 2 ** 31 - 1]))
        if k == 'm' and p[k] > 10 ** 6:
            p[k] = 2 ** 26
        if k == 'max_linesearch' and p[k] > 100:
            p[k] = 200
    if rng.rand() < .04:
        p['m'] = int(rng.choice([0, -1, -2, -1000]))
    p.setdefault('max_iterations', int(rng.choice([1, 3, 30, 60])))
    if p['max_iterations'] > 1000 or p['max_iterations'] <= 0:
        p['max_iterations'] = 80
    return p


def size(rng):
    return int(rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 100, 257]))


class Stop(Exception):
    pass


def one(rng, rec, depth=0, hostile=True, keep=None):
    """One minimization of a random problem; returns its result or error."""
    from harness import objectives as ob
    from pyuoi.lbfgs import fmin_lbfgs
    import gc
    n = size(rng)
    f = ob.make(str(rng.choice(['quad', 'lse', 'huber', 'quartic'])),
                min(n, 17), rng, 20.)
    nf = min(n, 17)
    x0 = forms(rng, rng.randn(n) * 2)
    if hostile and rng.rand() < .07:
        x0 = bad_forms(rng)
    par = params(rng, n)
    mode = int(rng.randint(14)) if hostile else -1
    at = int(rng.choice([1, 1, 2, 2, 3, 5, 7]))
    sub = np.random.RandomState(rng.randint(1 << 30))
    state = dict(e=0, p=0)

    def fun(x, g, *a):
        state['e'] += 1
        xr = np.asarray(x, dtype=float).ravel()
        v, gr = f(xr[:nf])
        full = np.concatenate([gr, xr[nf:]])
        g[...] = full.reshape(g.shape)
        v = float(v + .5 * np.sum(xr[nf:] ** 2))
        if state['e'] == at and mode >= 0:
            if mode == 0:
                raise Stop('objective')
            if mode == 1:
                return 'not a number'
            if mode == 2:
                return None
            if mode == 3:
                g[...] = np.nan
                return float('nan')
            if mode == 4:
                return np.array([v, v])
            if mode == 5:
                x[...] = 1e300
                return float('inf')
            if mode == 6 and depth < 2:
                rec.count('nested')
                one(sub, rec, depth + 1)
            if mode == 7:
                gc.collect()
            if mode == 8:
                g.fill(0)
            if mode == 9:
                raise KeyboardInterrupt('objective')
        return v

    def progress(x, g, fx, xn, gn, step, k, ls, *a):
        state['p'] += 1
        if state['p'] == at and mode >= 0:
            if mode == 10:
                raise Stop('progress')
            if mode == 11:
                return int(sub.choice([1, -1, 2 ** 31 - 1, -1001, 5]))
            if mode == 12:
                return sub.choice(['x', (), 1e300, 10 ** 30])
            if mode == 13 and depth < 2:
                rec.count('nested')
                one(sub, rec, depth + 1)
    rec.count('minimizations')
    try:
        r = fmin_lbfgs(fun, x0, progress if rng.rand() < .7 else None,
                       **par)
        rec.count('returned')
        if keep is not None:
            keep.append((r, r.copy()))
        return r.tobytes()
    except (Stop, KeyboardInterrupt) as e:
        rec.count('raised')
        return type(e).__name__
    except (MemoryError, TypeError, ValueError, OverflowError) as e:
        rec.count('raised')
        return type(e).__name__
    except Exception as e:
        if type(e).__name__ not in ('LBFGSError', 'AllZeroLBFGSError'):
            raise
        rec.count('cancelled' if 'cancel' in str(e) else 'refused')
        return str(e)


def do_seq(rng, rec):
    for _ in range(40):
        one(rng, rec)


def do_nest(rng, rec):
    """Minimizations inside callbacks at each level of a chain."""
    from harness import objectives as ob
    from pyuoi.lbfgs import fmin_lbfgs
    from pyuoi.lbfgs._lowlevel import LBFGS
    levels = int(rng.randint(2, 5))
    probs = []
    for _ in range(levels):
        n = int(rng.choice([1, 3, 8, 17]))
        f = ob.make(str(rng.choice(['quad', 'lse', 'quartic'])), n, rng, 20.)
        c = float(rng.choice([0., .1]))
        probs.append((n, f, rng.randn(n), c))
    opt = LBFGS()
    opt.linesearch = 'wolfe'
    share = rng.rand() < .5

    def solve(level, inner):
        n, f, x0, c = probs[level]
        calls = [0]
        got = []

        def fun(x, g):
            calls[0] += 1
            if inner and level + 1 < levels and calls[0] in (1, 3, 4):
                rec.count('nested')
                got.append(solve(level + 1, True))
            v, gr = f(x)
            g[...] = gr
            return v
        rec.count('minimizations')
        if share:
            opt.orthantwise_c = 0.
            r = opt.minimize(fun, x0)
        else:
            r = fmin_lbfgs(fun, x0, orthantwise_c=c, line_search='wolfe')
        return r, got
    alone = [solve(k, False)[0] for k in range(levels)]

    def compare(level, res):
        r, got = res
        rec.check(np.array_equal(r, alone[level]), 'reentrancy',
                  'a minimization around / inside another one differs from '
                  'the same one alone', level=level,
                  diff=float(np.max(np.abs(r - alone[level]))))
        for q in got:
            compare(level + 1, q)
    for _ in range(3):
        compare(0, solve(0, True))


def do_threads(rng, rec):
    import sys
    import threading
    seeds = [int(s) for s in rng.randint(1 << 30, size=12)]

    class Null:
        def count(self, *a):
            pass
    want = {s: one(np.random.RandomState(s), Null(), hostile=False)
            for s in seeds}
    # deterministic on its own (otherwise nothing can be compared)
    for s in seeds:
        rec.check(one(np.random.RandomState(s), Null(), hostile=False) ==
                  want[s], 'repeat', 'the same minimization differs when '
                  'repeated')
    got = []
    order = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(k):
        r = np.random.RandomState(k)
        for s in r.permutation(seeds):
            got.append((int(s), one(np.random.RandomState(s), Null(),
                                    hostile=False)))
            order.append(k)
            if r.rand() < .3:
                one(np.random.RandomState(r.randint(1 << 30)), Null())
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    rec.count('threads_runs', len(got))
    rec.count('minimizations', len(got))
    rec.count('switches', sum(a != b for a, b in zip(order, order[1:])))
    rec.check(len(got) == 4 * len(seeds), 'thread-death',
              'a thread died of an exception')
    for s, r in got:
        rec.check(r == want[s], 'reentrancy', 'a minimization concurrent '
                  'with others differs from the same one alone')


def endings(rng, n):
    """Minimizations of n variables that end in each possible way."""
    A = np.exp(rng.uniform(0, 3, n))

    def quad(x, g):
        g[...] = A * x
        return .5 * float(np.sum(A * x * x))

    def boom(k):
        c = [0]

        def fun(x, g):
            c[0] += 1
            if c[0] == k:
                raise Stop()
            return quad(x, g)
        return fun

    def hook(k, v):
        def progress(x, g, fx, xn, gn, step, it, ls):
            if it == k:
                if v is Stop:
                    raise Stop()
                return v
        return progress

    def nan(x, g):
        g[...] = np.nan
        return float('nan')

    def up(x, g):
        g[...] = -x
        return .5 * float(x.dot(x))
    x0 = rng.randn(n) * 3 + 1
    return dict(
        ok=(quad, x0, None, {}),
        l1=(quad, x0, None, dict(orthantwise_c=.3, line_search='wolfe')),
        past=(quad, x0, None, dict(past=4, delta=.5)),
        minimized=(quad, x0 * 0, None, {}),
        limit=(quad, x0, None, dict(max_iterations=2)),
        lslimit=(up, x0, None, dict(max_linesearch=1, line_search='wolfe')),
        raise1=(boom(1), x0, None, {}),
        raise3=(boom(3), x0, None, dict(orthantwise_c=.1,
                                        line_search='wolfe', past=3)),
        cancel=(quad, x0, hook(2, 1), {}),
        praise=(quad, x0, hook(1, Stop), dict(past=2)),
        invalid=(quad, x0, None, dict(ftol=-1.)),
        invalid_end=(quad, x0, None, dict(orthantwise_end=n + 1)),
        invalid_m=(quad, x0, None, dict(m=-3)),
        nan=(nan, x0, None, dict(line_search='armijo')),
        nan2=(nan, x0, None, {}),
        badstart=(quad, np.array([1.] * (n - 1) + [None], dtype=object),
                  None, {}),
        oom=(quad, x0, None, dict(m=2 ** 26)),
        mem10=(quad, x0, None, dict(m=10)))


def finish(fun, x0, progress, par):
    from pyuoi.lbfgs import fmin_lbfgs
    try:
        return fmin_lbfgs(fun, x0, progress, **par)
    except (Stop, TypeError, ValueError, MemoryError):
        return None
    except Exception as e:
        if type(e).__name__ not in ('LBFGSError', 'AllZeroLBFGSError'):
            raise
        return None


def do_leak(rng, rec):
    import gc
    n = int(rng.choice([1500, 3000]))
    for name, (fun, x0, progress, par) in endings(rng, n).items():
        def again():
            e = endings_cache[name]
            finish(*e)
        endings_cache = {name: (fun, x0, progress, par)}
        for _ in range(3):
            again()
        gc.collect()
        live0, heap0 = NAT.live.value, NAT.heap()
        runs = 12
        for _ in range(runs):
            again()
            rec.count('minimizations')
        gc.collect()
        rec.count('leak_probes')
        rec.check(NAT.live.value == live0, 'leak', 'a run that ends with %s '
                  'leaves %d native allocations in %d runs'
                  % (name, NAT.live.value - live0, runs))
        grow = NAT.heap() - heap0
        rec.check(grow < 4 * n * runs, 'leak', 'a run that ends with %s '
                  'leaves %d bytes in %d runs' % (name, grow, runs), n=n)


def do_fault(rng, rec):
    """Every native allocation of a minimization fails once."""
    n = int(rng.choice([1, 3, 9, 40]))
    ends = endings(rng, n)
    for name in ('ok', 'l1', 'past', 'raise3', 'mem10'):
        fun, x0, progress, par = ends[name]
        par = dict(par, m=par.get('m', int(rng.choice([1, 2, 5]))))
        for k in range(1, 60):
            NAT.fail_in.value = k
            live = NAT.live.value
            err = r = None
            try:
                from pyuoi.lbfgs import fmin_lbfgs
                r = fmin_lbfgs(fun, x0, progress, **par)
            except Stop:
                err = 'stop'
            except MemoryError:
                err = 'memory'
            except Exception as e:
                err = repr(e)
            hit = NAT.fail_in.value <= 0
            NAT.fail_in.value = 0
            rec.count('minimizations')
            rec.check(NAT.live.value == live, 'leak', '%d native allocations '
                      'are left when allocation %d fails (%s)'
                      % (NAT.live.value - live, k, name), n=n)
            NAT.live.value = live
            if not hit:
                break
            rec.count('alloc_failures')
            # (the history of the delta test may be dropped silently)
            rec.check(err in ('memory', 'stop') or
                      (r is not None and np.all(np.isfinite(r))),
                      'out-of-memory', 'allocation %d of a run that ends '
                      'with %s fails: %s' % (k, name, err))
        rec.check(not hit, 'endless', 'more than 60 allocations')
        ok = finish(*ends['ok'])
        rec.check(ok is not None and np.linalg.norm(np.exp(0) * ok) < 1.,
                  'after-failure', 'a run after a failed one goes wrong')


def do_outlive(rng, rec):
    import gc
    from pyuoi.lbfgs import fmin_lbfgs
    from pyuoi.lbfgs._lowlevel import LBFGS
    keep = []
    for _ in range(25):
        one(rng, rec, hostile=False, keep=keep)
    opt = LBFGS()
    n = int(rng.choice([1, 6, 300]))

    def quad(x, g):
        g[...] = x - 1.
        return .5 * float(np.sum((x - 1.) ** 2))
    # the limit and the success path copy separately
    for mi in (0, 1):
        opt.max_iterations = mi
        for shape in ((n,), (1, n), (n, 1)):
            x0 = rng.randn(*shape)
            before = x0.copy()
            r = opt.minimize(quad, x0)
            rec.count('minimizations')
            rec.check(np.array_equal(before, x0), 'start-modified',
                      'the start is modified')
            rec.check(not np.shares_memory(r, x0), 'shared',
                      'the result shares memory with the start')
            keep.append((r, r.copy()))
    # what the callbacks were given is theirs to keep
    held = []

    def hold(x, g, *a):
        rec.count('held')
        held.append((x, x.copy()))
        held.append((g, g.copy()))

    def holding(x, g):
        g[...] = x - 1.
        held.append((x, x.copy()))
        held.append((g, g.copy()))
        return .25 * float(np.sum((x - 1.) ** 2))
    for end in ('ok', 'limit', 'l1'):
        fmin_lbfgs(holding, rng.randn(n), hold, **dict(
            ok={}, limit=dict(max_iterations=1, m=3),
            l1=dict(orthantwise_c=.2, line_search='wolfe'))[end])
        rec.count('minimizations')
    keep += held
    del opt
    gc.collect()
    for _ in range(30):
        np.full(rng.randint(1, 400), np.nan).copy()
        one(rng, rec)
    gc.collect()
    for r, want in keep:
        rec.count('outlive')
        rec.check(np.array_equal(r, want, equal_nan=True), 'dangling',
                  'an array handed out changes after the run')
        # every element is read and written under the sanitizer
        base = r
        while isinstance(base.base, np.ndarray):
            base = base.base
        rec.check(base.flags.owndata or base.base is not None, 'unowned',
                  'a returned array owns no memory')
        r[...] = 7.
        rec.check(float(np.sum(r)) == 7. * r.size, 'dangling', 'write')
        bytes(r)


def do_model(rng, rec):
    """The learners that use the minimizer, under the sanitizer."""
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    from pyuoi.linear_model.poisson import Poisson
    for _ in range(3):
        n, p = int(rng.randint(20, 60)), int(rng.randint(1, 8))
        X = rng.randn(n, p)
        k = int(rng.randint(2, 4))
        y = np.arange(n) % k
        for mc in ('auto', 'multinomial'):
            m = MaskedCoefLogisticRegression(
                penalty='l1', C=float(rng.choice([1., 10., 100.])),
                multi_class=mc, fit_intercept=bool(rng.rand() < .6),
                warm_start=bool(rng.rand() < .5))
            for _ in range(2):
                m.fit(X, y)
                rec.count('minimizations')
            rec.check(np.all(np.isfinite(m.coef_)), 'model', 'non-finite')
        yp = rng.poisson(1. + rng.rand(n))
        m = Poisson(alpha=float(rng.choice([0., .01, .1])),
                    fit_intercept=bool(rng.rand() < .6), warm_start=True)
        for _ in range(2):
            m.fit(X, yp)
            rec.count('minimizations')
        rec.check(np.all(np.isfinite(m.coef_)), 'model', 'non-finite')
