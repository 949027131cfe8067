"""Runs the cases of one property in worker processes and reports."""
import argparse
import hashlib
import importlib
import json
import os
import queue
import select
import signal
import subprocess
import sys
import threading
import time

from . import boot

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Recorder:
    """What a case hands back: verdicts, counters and its fingerprint."""

    def __init__(self):
        self.violations = []
        self.counts = {}
        self.nontrivial = False
        self.sample = None
        self.keys = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def fail(self, mech, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append(dict(mech=mech, msg=str(msg)[:2000],
                                        detail=_plain(detail)))

    def check(self, ok, mech, msg='', **detail):
        self.count('oracle_evaluations')
        if not ok:
            self.fail(mech, msg, **detail)
        return bool(ok)

    def seen(self, *key):
        """Record a state that makes the case distinct and non-trivial."""
        self.nontrivial = True
        self.keys.append(repr(key))


def _plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o][:50]
    if isinstance(o, np.ndarray):
        return np.array2string(o, threshold=40, precision=8)
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:500]


# --------------------------------------------------------------------------
# worker side

def worker_main(modname):
    proto = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter('ignore')
    boot.install()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'worker_init'):
        mod.worker_init()
    import traceback
    import numpy as np
    np.seterr(all='ignore')
    proto.write('"ready"\n')
    proto.flush()
    for line in sys.stdin:
        case = json.loads(line)
        rec = Recorder()
        t0 = time.time()
        try:
            warnings.simplefilter('ignore')
            mod.run(case, rec)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.format_exc()
            rec.fail('exception:' + type(e).__name__,
                     '%s: %s' % (type(e).__name__, e), traceback=tb[-1800:])
        out = dict(violations=rec.violations, counts=rec.counts,
                   nontrivial=rec.nontrivial, keys=rec.keys,
                   sample=_plain(rec.sample), s=time.time() - t0)
        proto.write(json.dumps(out) + '\n')
        proto.flush()


class Worker:
    def __init__(self, modname, env):
        self.err = open(os.path.join(
            boot.CACHE, 'worker-%d-%d.err' % (os.getpid(), id(self))), 'w+')
        self.p = subprocess.Popen(
            [boot.PY, '-m', 'harness.worker', modname], cwd=boot.VERIF,
            env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, start_new_session=True)
        self.buf = b''

    def _readline(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return 'timeout'
            r, _, _ = select.select([self.p.stdout], [], [], min(left, 5))
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    return 'eof'
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def start(self):
        return self._readline(180) == 'ready'

    def run(self, case, timeout):
        try:
            self.p.stdin.write((json.dumps(case) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            return 'eof'
        return self._readline(timeout)

    def tail(self, n=3000):
        self.err.flush()
        with open(self.err.name) as f:
            s = f.read()
        return s[-n:]

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass
        self.err.close()
        try:
            os.unlink(self.err.name)
        except OSError:
            pass


CRASH = (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS,
         signal.SIGILL)


def load_findings(prop):
    out = []
    path = os.path.join(boot.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                mech, desc = rest.split(' ', 1)
                out.append((mech.split('=', 1)[1], desc))
    return out


def run_module(modname):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring of the case name')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--workers', type=int)
    args = ap.parse_args(sys.argv[2:])
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(boot.CACHE, exist_ok=True)
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    env = boot.base_env()
    variant = getattr(mod, 'VARIANT', 'plain')
    env[boot.SO_VAR] = boot.build_ext(variant)
    for v in getattr(mod, 'EXTRA_VARIANTS', ()):
        env[boot.SO_VAR + '_' + v.upper()] = boot.build_ext(v)
    if hasattr(mod, 'worker_env'):
        env = mod.worker_env(env)

    if args.replay:
        with open(args.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = mod.cases(tier, seed)
    if args.only:
        cases = [c for c in cases if args.only in json.dumps(c)]
    budget = getattr(mod, 'BUDGET', {}).get(
        tier, 400 if tier == 'quick' else 2400)
    tmo = getattr(mod, 'CASE_TIMEOUT', 240)
    todo = queue.Queue()
    for i, c in enumerate(cases):
        todo.put((i, c, 0))
    results = {}
    inconclusive = []
    lock = threading.Lock()
    stop = threading.Event()

    def loop():
        w = None
        try:
            while not stop.is_set():
                try:
                    i, c, tries = todo.get_nowait()
                except queue.Empty:
                    return
                if time.time() - t0 > budget:
                    with lock:
                        results.setdefault(i, None)
                    continue
                if w is None:
                    w = Worker(modname, env)
                    if not w.start():
                        with lock:
                            inconclusive.append(
                                'worker did not start: ' + w.tail())
                        w.close()
                        w = None
                        stop.set()
                        return
                r = w.run(c, c.get('timeout', tmo) * (1 + tries))
                if r in ('timeout', 'eof'):
                    tail = w.tail()
                    if r == 'eof':
                        try:
                            rc = w.p.wait(30)
                        except subprocess.TimeoutExpired:
                            rc = None
                    else:
                        rc = None
                    w.close()
                    w = None
                    if tries == 0 and (r == 'timeout' or
                                       rc == -signal.SIGKILL):
                        todo.put((i, c, 1))
                        continue
                    if r == 'timeout':
                        if getattr(mod, 'TIMEOUT_IS_VIOLATION', True):
                            v = dict(mech='no-answer', msg='the case did not '
                                     'finish, twice', detail={})
                        else:
                            v = None
                    elif rc == -signal.SIGKILL or rc is None:
                        v = None
                    else:
                        v = dict(mech='crash', msg='process died: %s' % rc,
                                 detail=dict(stderr=tail))
                    with lock:
                        if v is None:
                            inconclusive.append(
                                'case %d: %s %s' % (i, r, rc))
                            results[i] = None
                        else:
                            results[i] = dict(violations=[v], counts={},
                                              nontrivial=True, keys=[],
                                              sample=None, s=tmo)
                    continue
                with lock:
                    results[i] = r
                if os.environ.get('VERIF_FAILFAST') and any(
                        v['mech'] not in dict(load_findings(prop))
                        for v in r['violations']):
                    # for trying out planted bugs
                    stop.set()
                if args.v:
                    print('%4d %6.1fs %s %s' % (
                        i, r['s'], 'FAIL' if r['violations'] else 'ok  ',
                        json.dumps(c)[:150]))
                    for v in r['violations'][:3]:
                        print('      ', v['mech'], v['msg'][:300],
                              json.dumps(v['detail'])[:1500])
        finally:
            if w is not None:
                w.close()

    n = min(args.workers or WORKERS, max(1, len(cases)))
    threads = [threading.Thread(target=loop) for _ in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    done = {i: r for i, r in results.items() if r is not None}
    counts = {}
    keys = set()
    samples = []
    nontrivial = set()
    viol = []
    times = []
    for i in sorted(done):
        r = done[i]
        times.append(r['s'])
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        if r['nontrivial']:
            nontrivial.add(hashlib.sha1(json.dumps(
                cases[i], sort_keys=True).encode()).hexdigest())
        keys.update(r['keys'])
        if len(samples) < 4 and r['nontrivial']:
            samples.append(dict(case=cases[i], observed=r['sample'] or
                                r['counts']))
        for v in r['violations']:
            viol.append((i, v))

    findings = load_findings(prop)
    known = {m: d for m, d in findings}
    hit = set()
    new = []
    for i, v in viol:
        if v['mech'] in known:
            hit.add(v['mech'])
        else:
            new.append((i, v))
    for m, d in findings:
        if m in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, d))

    missing = []
    if not args.replay and not args.only:
        for name, least in getattr(mod, 'REQUIRED', {}).items():
            if counts.get(name, 0) < least:
                missing.append('%s=%d < %d' % (name, counts.get(name, 0),
                                               least))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed,
        level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=len(done),
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=samples or [dict(case=c) for c in cases[:1]],
            distinct_observations=len(keys),
            monitor_counts=counts,
            cases_not_run=len(cases) - len(done),
            slowest_case_s=round(max(times or [0]), 2),
            inconclusive=inconclusive[:10],
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2),
        violations=len(new))
    if not args.replay and not args.only:
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(boot.VERIF, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(path + '.tmp', path)

    print('%s %s seed=%d: %d cases run (%d not run), %d non-trivial, '
          '%d oracle evaluations, %.1f s' % (
              prop, tier, seed, len(done), len(cases) - len(done),
              len(nontrivial), counts.get('oracle_evaluations', 0), wall))
    if args.v:
        print(json.dumps(counts))
    if new:
        rdir = os.path.join(boot.CACHE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for i, v in new:
            if v['mech'] in shown:
                shown[v['mech']] += 1
                continue
            shown[v['mech']] = 1
            path = os.path.join(rdir, '%s-%d-%d.json' % (prop, os.getpid(),
                                                         len(shown)))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, case=cases[i], violation=v), f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  mechanism: %s' % v['mech'])
            print('  %s' % v['msg'][:800].replace('\n', '\n  '))
            d = json.dumps(v['detail'])
            print('  %s' % d[:1500])
        return 1
    if inconclusive or missing:
        print('INCONCLUSIVE', inconclusive[:3], missing)
        if missing or len(inconclusive) > max(1, len(cases) // 10) or \
                not done:
            return 3
    return 0


def main():
    sys.exit(run_module(sys.argv[1]))
