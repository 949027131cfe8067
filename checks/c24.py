import hashlib
import io
import logging
import os
import re
import sys
import tempfile
import threading
import time

import numpy as np

from harness import gen
from harness.ops import MODELS, make_case, perform

PROPERTY = 'C24'
RULE = ('Groups of fits of different objects (including several of the same '
        'shape and settings with other data) are run alone and then in '
        'concurrent threads: freely, with a switch interval of a '
        'microsecond and random pauses in callbacks, and under a scheduler '
        'that owns the only running thread and hands over at traced lines '
        'of the package according to a seed. Every attribute must equal the '
        'solitary run bitwise. Logged fits are observed through every record '
        'any logger handles and everything written to standard output. '
        'Non-trivial: an interleaving with at least 20 hand-overs inside the '
        'package (fingerprinted), or a fit whose records were judged.')
ASSUMPTIONS = ['The pycasso package shares one ctypes function between '
               'threads and is only interleaved at its boundary.',
               'Hand-overs happen between Python lines of the package; '
               'compiled code is interleaved through its callbacks.',
               'A step is announced by a record that names its kind and its '
               'numbers.', 'The verbosity of fits sharing one logger '
               'concurrently is not specified.']
REQUIRED = {'threads': 300, 'bitwise': 300, 'handovers': 80000,
            'interleavings': 90, 'records': 900, 'announced_steps': 800,
            'silent_fits': 150, 'verbose_fits': 100}
CASE_TIMEOUT = 240
KINDS = ('lasso', 'en', 'logit', 'pois', 'nmf', 'ucur', 'lbfgs', 'learner',
         'pyc', 'dcls', 'cur')


def cases(tier, seed):
    t = 1 if tier == 'quick' else 12
    out = []

    def rnd(i, k):
        return np.random.RandomState([seed, i, 24, k])
    for i in range(72 * t):
        rng = rnd(i, 1)
        m = int(rng.randint(2, 5))
        ops = []
        op = KINDS[i % 9]
        free = i % 4 == 3
        if free and op == 'pyc':
            op = 'logit'
        for j in range(m):
            # the same operation on other data is the closest neighbour
            if j and rng.rand() < .6:
                c = twin(ops[0], rng)
            else:
                c = case_of(rng, op if j == 0 else gen.pick(rng, *KINDS))
            if free and c['op'] == 'pyc':
                # pycasso itself cannot be entered twice
                c = case_of(rng, 'lasso')
            ops.append(c)
        out.append(dict(kind='threads' if free else 'sched', ops=ops,
                        p=float(gen.pick(rng, .03, .15, .5)),
                        seed=int(rng.randint(1 << 30)), name='c24t%d' % i))
    logged = MODELS + ('nmf', 'nmfbase')
    for i in range(28 * t):
        rng = rnd(i, 2)
        op = logged[i % len(logged)]
        out.append(dict(kind='log', op=make_case(rng, op),
                        seed=int(rng.randint(1 << 30)), name='c24l%d' % i))
    for i in range(8 * t):
        rng = rnd(i, 3)
        out.append(dict(kind='mpi', seed=int(rng.randint(1 << 30)),
                        op=make_case(rng, gen.pick(rng, 'lasso', 'en',
                                                   'logit', 'pois')),
                        size=int(gen.pick(rng, 2, 3, 5, 9)),
                        name='c24m%d' % i))
    return out


def case_of(rng, op):
    if op in ('lbfgs', 'learner'):
        return dict(op=op, seed=int(rng.randint(1 << 30)),
                    n=int(rng.randint(20, 60)), p=int(rng.randint(2, 8)),
                    what=gen.pick(rng, 'logit', 'multi', 'pois', 'poiscd'),
                    C=float(gen.pick(rng, 0., .05, .5)),
                    m=int(rng.randint(3, 8)))
    c = make_case(rng, op)
    if op in MODELS:
        # short fits, so that many interleavings are seen
        P = c['m']['model']['params'] = gen.full(c['m']['model'])
        P['n_boots_sel'] = min(P['n_boots_sel'], 4)
        P['n_boots_est'] = min(P['n_boots_est'], 3)
        P['stability_selection'] = gen.stab(rng, P['n_boots_sel'])
        for k in ('n_C', 'n_lambdas'):
            if k in P:
                P[k] = min(P[k], 4)
    return c


def twin(c, rng):
    """The same operation and settings with other data."""
    import copy
    c = copy.deepcopy(c)
    s = int(rng.randint(1 << 30))
    if c['op'] in ('lbfgs', 'learner'):
        c['seed'] = s
    else:
        c['dseed'] = s
        if 'm' in c:
            c['m']['data']['seed'] = s
        if rng.rand() < .5:
            c['seed'] = s % 1000
    return c


def execute(c, pause=None):
    if c['op'] == 'lbfgs':
        return run_lbfgs(c, pause)
    if c['op'] == 'learner':
        return run_learner(c)
    return {k: np.asarray(v) for k, v in
            perform(c, c['seed'], trace=False).items()}


def run_lbfgs(c, pause):
    from pyuoi.lbfgs import fmin_lbfgs
    rng = np.random.RandomState(c['seed'])
    A = rng.randn(c['n'], c['p'])
    b = rng.randn(c['n'])
    seen = []

    def f(x, g, *args):
        if pause:
            pause()
        r = A.dot(x) - b
        g[:] = A.T.dot(r)
        return .5 * r.dot(r)

    def progress(x, g, fx, xnorm, gnorm, step, k, ls, *args):
        if pause:
            pause()
        seen.append((fx, xnorm, step, k))
    x = fmin_lbfgs(f, np.zeros(c['p']), progress, m=c['m'],
                   orthantwise_c=c['C'] * 10)
    return dict(x=np.array(x), seen=np.array(seen, dtype=float))


def run_learner(c):
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    from pyuoi.linear_model.poisson import Poisson
    rng = np.random.RandomState(c['seed'])
    X = rng.randn(c['n'], c['p'])
    eta = X[:, 0] - .5 * X[:, -1]
    if c['what'] in ('logit', 'multi'):
        y = (eta + rng.randn(c['n']) > 0).astype(int)
        if c['what'] == 'multi':
            y[rng.permutation(c['n'])[:c['n'] // 3]] = 2
        else:
            y[:2] = 0, 1
        m = MaskedCoefLogisticRegression(
            penalty='l1', C=1. / (c['C'] + .02), max_iter=200,
            multi_class='multinomial' if c['what'] == 'multi' else 'auto')
    else:
        y = rng.poisson(np.exp(.5 * eta))
        m = Poisson(alpha=1., l1_ratio=1., max_iter=200,
                    solver='cd' if c['what'] == 'poiscd' else 'lbfgs')
        m.alpha = c['C'] + .02
    m.fit(X, y)
    return dict(coef=np.array(m.coef_), icpt=np.array(m.intercept_),
                pred=np.array(m.predict(X)))


# --------------------------------------------------------------------------
# interleavings

class Scheduler:
    """Lets one thread run at a time and moves on at traced lines."""

    def __init__(self, n, seed, p, free=False):
        self.n, self.p, self.free = n, p, free
        self.rng = np.random.RandomState(seed)
        self.buf = []
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = int(self.rng.randint(n))
        self.trace = []
        self.timeouts = 0
        self.ids = {}
        self.loc = threading.local()

    def u(self):
        try:
            return self.buf.pop()
        except IndexError:
            b = list(self.rng.rand(4096))
            self.buf = b[1:]
            return b[0]

    def enter(self, i):
        self.loc.i = i
        with self.cond:
            self._wait(i)

    def leave(self, i):
        with self.cond:
            self.alive.discard(i)
            if self.turn == i and self.alive:
                self._give()

    def _give(self):
        opts = sorted(self.alive)
        self.turn = opts[int(self.u() * len(opts))]
        self.cond.notify_all()

    def _wait(self, i):
        end = time.time() + 20
        while self.turn != i and self.turn in self.alive:
            self.cond.wait(1.)
            if time.time() > end:
                self.timeouts += 1
                self.turn = i

    def point(self, where):
        i = self.loc.i
        if self.free:
            if self.u() < self.p:
                self.trace.append((i, where))
                time.sleep(0 if self.u() < .7 else 1e-5)
            return
        if self.u() >= self.p or len(self.alive) < 2:
            return
        with self.cond:
            self.trace.append((i, where))
            self._give()
            self._wait(i)

    def tracer(self, frame, event, arg):
        if '/pyuoi/' not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.point(frame.f_lineno)
        return self.local

    def fingerprint(self):
        sw = [t[0] for t in self.trace]
        return hashlib.sha1(repr(self.trace).encode()).hexdigest()[:16], sum(
            a != b for a, b in zip(sw, sw[1:]))


def together(case, rec):
    ops = case['ops']
    alone = [execute(c) for c in ops]
    # also an independent second run, so that only interleaving is judged
    again = [execute(c) for c in ops]
    for c, a, b in zip(ops, alone, again):
        rec.check(not differ(a, b), 'repeat', '%s alone is not repeatable: '
                  '%s' % (c['op'], differ(a, b)))
    total = set()
    for rep in range(3):
        free = case['kind'] == 'threads'
        s = Scheduler(len(ops), case['seed'] + rep, case['p'], free)
        out, errs = [None] * len(ops), [None] * len(ops)

        def body(i):
            try:
                s.enter(i)
                sys.settrace(s.tracer)
                try:
                    out[i] = execute(ops[i], lambda: s.point('cb'))
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errs[i] = e
            finally:
                s.leave(i)
        if free:
            s.turn = -1     # nobody waits
        old = sys.getswitchinterval()
        if free:
            sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=body, args=(i,), daemon=True)
                  for i in range(len(ops))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(200)
        finally:
            sys.setswitchinterval(old)
        rec.count('threads', len(ops))
        rec.count('scheduler_timeouts', s.timeouts)
        if any(t.is_alive() for t in ts):
            rec.fail('hang', 'concurrent fits do not end: %s' % [
                c['op'] for c in ops])
            return
        key, switches = s.fingerprint()
        rec.count('handovers', switches)
        if switches >= 20:
            rec.seen(key)
            total.add(key)
        for c, a, b, e in zip(ops, alone, out, errs):
            rec.count('bitwise')
            if e is not None:
                rec.fail('concurrent', '%s fails next to %s: %s: %s' % (
                    c['op'], [o['op'] for o in ops], type(e).__name__, e))
                continue
            rec.check(not differ(a, b), 'concurrent', '%s next to %s: %s' % (
                c['op'], [o['op'] for o in ops], differ(a, b)))
    rec.count('interleavings', len(total))
    rec.sample = dict(ops=[c['op'] for c in ops], handovers=switches,
                      mode=case['kind'])


def differ(a, b):
    from harness import uoi
    return uoi.same_attrs(a, b)


# --------------------------------------------------------------------------
# records

class Records:
    """Every record any logger handles, and everything printed."""

    def __enter__(self):
        self.records = []
        orig = self._orig = logging.Logger.handle

        def handle(lg, record, _o=orig):
            if '/pyuoi/' in record.pathname:
                self.records.append((lg, record.levelno,
                                     record.getMessage()))
            return _o(lg, record)
        logging.Logger.handle = handle
        self._out = sys.stdout
        self._fd = os.dup(1)
        self._tmp = tempfile.TemporaryFile()
        os.dup2(self._tmp.fileno(), 1)
        self.text = sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self._out
        logging.Logger.handle = self._orig
        os.dup2(self._fd, 1)
        os.close(self._fd)
        self._tmp.seek(0)
        self.raw = self._tmp.read().decode(errors='replace')
        self._tmp.close()
        self.printed = self.text.getvalue()


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.messages = []

    def emit(self, record):
        self.messages.append((record.levelno, record.getMessage()))


N = [0]


def own_logger(level=None, propagate=False):
    N[0] += 1
    lg = logging.getLogger('verif-own-%d-%d' % (os.getpid(), N[0]))
    lg.propagate = propagate
    h = Keep()
    lg.addHandler(h)
    if level is not None:
        lg.setLevel(level)
    return lg, h.messages


def steps(c, res):
    """What a verbose fit announces: (word, numbers)."""
    if c['op'] in ('nmf', 'nmfbase'):
        return [('ootstrap', (b,)) for b in range(c['boots'])]
    P = gen.full(c['m']['model'])
    S = len(res['supports_'])
    return ([('selection', (b,)) for b in range(P['n_boots_sel'])] +
            [('estimation', (b, s)) for b in range(P['n_boots_est'])
             for s in range(S)])


def announced(rec, want, messages, what):
    have = [(m, tuple(int(v) for v in re.findall(r'\d+', m)))
            for _, m in messages]
    missing = []
    at = []
    for word, nums in want:
        k = [i for i, (m, v) in enumerate(have) if word in m and
             v[:len(nums)] == nums]
        if not k:
            missing.append((word, nums))
        at.append((word, k[0] if k else -1))
    rec.count('announced_steps', len(want))
    rec.check(not missing, 'announce', '%s: steps not announced: %r; '
              'messages: %r' % (what, missing[:5], [m for _, m in
                                                    messages[:8]]))
    sel = [k for w, k in at if w == 'selection']
    est = [k for w, k in at if w == 'estimation']
    if sel and est and not missing:
        rec.check(max(sel) < min(est), 'announce-order', '%s: estimation '
                  'announced before selection ended' % what)


def run_log(case, rec):
    c = case['op']
    op = c['op']
    rng = np.random.RandomState(case['seed'])
    with Records() as r0:
        base = perform(c, c['seed'], trace=False)
    mute = op != 'pyc'        # pycasso prints by itself
    lows = [m for _, l, m in r0.records if l < logging.WARNING]
    rec.count('silent_fits')
    rec.check(not lows, 'silent', '%s: reported %r without being asked to' % (
        op, lows[:3]))
    want = steps(c, base)
    modes = [('own', v, l) for v in (False, True, 0, 1, None)
             for l in (None, logging.DEBUG, logging.INFO, logging.ERROR)]
    modes = [modes[i] for i in rng.permutation(len(modes))[:7]]
    modes += [('own', True, None), ('own', False, logging.DEBUG),
              ('own', False, logging.INFO),
              ('default', True, None), ('default', False, None),
              ('default', None, None)]
    rng.shuffle(modes)
    for who, verbose, level in modes:
        what = '%s, %s logger, verbose=%r, level %r' % (op, who, verbose,
                                                        level)
        msgs = None
        with Records() as r:
            if who == 'own':
                lg, msgs = own_logger(level)
                out = perform(c, c['seed'], trace=False, logger=lg,
                              verbose=verbose)
            else:
                lg = None
                out = perform(c, c['seed'], trace=False, logger='default',
                              verbose=verbose)
        rec.count('records', len(r.records))
        rec.check(not differ(base, out), 'result', '%s changed the result: '
                  '%s' % (what, differ(base, out)))
        if who == 'own':
            other = [(g.name, m) for g, _, m in r.records if g is not lg]
            rec.check(not other, 'other-logger', '%s: went to another '
                      'logger: %r' % (what, other[:3]))
            if mute:
                rec.check(not r.printed and not r.raw, 'printed', '%s: '
                          'printed %r' % (what, (r.printed + r.raw)[:300]))
            got = msgs
        else:
            got = [(l, m) for _, l, m in r.records]
            lost = [m for _, m in got if m not in r.printed]
            rec.check(not lost, 'default-logger', '%s: not written to '
                      'standard output: %r' % (what, lost[:3]))
        if verbose:
            rec.count('verbose_fits')
            announced(rec, want, got, what)
        else:
            rec.count('silent_fits')
            low = [m for l, m in got if l < logging.WARNING]
            low += [m for _, l, m in r.records if l < logging.WARNING]
            rec.check(not low, 'silent', '%s: reported %r' % (what, low[:3]))
            if mute:
                rec.check(not r.printed and not r.raw, 'silent', '%s: '
                          'printed %r' % (what, (r.printed + r.raw)[:300]))
    # verbosity belongs to the fit, not to the object or its neighbours
    if op in MODELS:
        from harness import traced, uoi
        m = c['m']
        X, y = uoi.dataset(m['data'])
        kw = traced.fit_args(m, y)
        P = gen.full(m['model'])
        lg, msgs = own_logger()
        lg2, msgs2 = own_logger()
        with Records() as r:
            a = uoi.make(m['model']['kind'], **dict(P, logger=lg))
            b = uoi.make(m['model']['kind'], **dict(P, logger=lg2))
            d = uoi.make(m['model']['kind'], **dict(P, logger=None))
            a.fit(X, y, verbose=True, **kw)
            k = len(msgs)
            b.fit(X, y, **kw)
            rec.check(len(msgs) == k and not msgs2 and k, 'own-verbosity',
                      'a neighbour was asked to report, not this model: %r' %
                      (msgs2[:3] + msgs[k:k + 3]))
            a.fit(X, y, verbose=False, **kw)
            rec.check(not [1 for l, _ in msgs[k:] if l < 30],
                      'own-verbosity', 'a refit still reports: %r' %
                      (msgs[k:k + 3],))
            k = len(msgs)
            a.fit(X, y, verbose=True, **kw)
            rec.check(len(msgs) > k, 'own-verbosity', 'a refit asked to '
                      'report does not')
            d.fit(X, y, verbose=True, **kw)
            n = len(r.text.getvalue())
            d.fit(X, y, **kw)
            rec.check((len(r.text.getvalue()) == n and n > 0) or not mute,
                      'own-verbosity', 'the default logger reports a refit '
                      'that was not asked to')
        rec.count('verbose_fits', 3)
        rec.count('silent_fits', 3)
    rec.seen('log', op, case['seed'], len(want))
    rec.sample = dict(op=op, steps=len(want), messages=[
        m for _, m in got[:4]])


def run_mpi(case, rec):
    from harness import mpisim, traced, uoi
    m = case['op']['m']
    X, y = uoi.dataset(m['data'])
    kw = traced.fit_args(m, y)
    P = gen.full(m['model'])
    outs = []
    for verbose in (False, True):
        logs = [own_logger() for _ in range(case['size'])]
        w = mpisim.World(case['size'], case['seed'])

        def f(comm):
            mod = uoi.make(m['model']['kind'], comm=comm,
                           **dict(P, logger=logs[comm.Get_rank()][0]))
            mod.fit(X, y, verbose=verbose, **kw)
            return uoi.attrs(mod)
        with Records() as r:
            res = w.run(f)
        outs.append(res)
        rec.count('records', len(r.records))
        names = {l.name for l, _ in logs}
        rec.check(all(g.name in names for g, _, _ in r.records),
                  'other-logger', 'ranks report to other loggers')
        msgs = [x for _, ms in logs for x in ms]
        if verbose:
            rec.count('verbose_fits')
            S = len(res[0]['supports_'])
            want = [('selection', (b,)) for b in range(P['n_boots_sel'])] + [
                ('estimation', (b, s)) for b in range(P['n_boots_est'])
                for s in range(S)]
            have = [(t, tuple(int(v) for v in re.findall(r'\d+', t)))
                    for _, t in msgs]
            missing = [q for q in want if not any(
                q[0] in t and v[:len(q[1])] == q[1] for t, v in have)]
            rec.count('announced_steps', len(want))
            rec.check(not missing, 'announce', '%d ranks: steps not '
                      'announced: %r' % (case['size'], missing[:5]))
            if case['size'] <= P['n_boots_sel']:
                for q in want:
                    k = sum(q[0] in t and v[:len(q[1])] == q[1]
                            for t, v in have)
                    rec.check(k == 1, 'announce', '%d ranks: step %r '
                              'announced %d times' % (case['size'], q, k))
        else:
            rec.count('silent_fits')
            low = [t for l, t in msgs if l < 30]
            rec.check(not low, 'silent', '%d ranks: reported %r' % (
                case['size'], low[:3]))
    for a, b in zip(*outs):
        rec.check(not differ(a, b), 'result', 'verbose ranks: %s' % differ(
            a, b))
    rec.seen('mpi', case['size'], case['seed'])


def run(case, rec):
    if case['kind'] == 'log':
        run_log(case, rec)
    elif case['kind'] == 'mpi':
        run_mpi(case, rec)
    else:
        together(case, rec)
