"""Simulated MPI ranks: threads with monitored collectives.

Every collective is a rendezvous of all ranks. The monitors check that ranks
agree on the sequence of collectives and their roots, that buffers are
contiguous, writable where written, of the declared datatype and of the right
length, and that nothing waits for ever. Random delays perturb the order in
which ranks arrive.
"""
import operator
import pickle
import threading
import time

import numpy as np


class SimError(Exception):
    """A monitor found a misuse of MPI."""

    def __init__(self, mech, msg):
        super().__init__('%s: %s' % (mech, msg))
        self.mech = mech


class Aborted(Exception):
    """Another rank failed."""


def _mpi_dtype(t):
    """NumPy dtype of an MPI datatype."""
    from mpi4py import MPI
    if isinstance(t, str):
        return np.dtype(t)
    for name, dt in (('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('LONG', 'l'),
                     ('INT', 'i'), ('LONG_LONG', 'q'), ('SHORT', 'h'),
                     ('BOOL', '?'), ('C_BOOL', '?'), ('BYTE', 'u1'),
                     ('CHAR', 'i1'), ('SIGNED_CHAR', 'i1'),
                     ('UNSIGNED_CHAR', 'u1'), ('UNSIGNED', 'I'),
                     ('UNSIGNED_LONG', 'L'), ('INT64_T', 'i8'),
                     ('INT32_T', 'i4'), ('UINT8_T', 'u1'),
                     ('INT8_T', 'i1'), ('INT16_T', 'i2'),
                     ('UINT16_T', 'u2'), ('UINT32_T', 'u4'),
                     ('UINT64_T', 'u8'), ('DOUBLE_COMPLEX', 'c16'),
                     ('C_DOUBLE_COMPLEX', 'c16'),
                     ('C_FLOAT_COMPLEX', 'c8')):
        if getattr(MPI, name) == t:
            return np.dtype(dt)
    raise SimError('mpi-datatype', 'unknown datatype %r' % (t,))


class Buf:
    """A message buffer given as an array or an mpi4py buffer list."""

    def __init__(self, spec, writable, vector=False):
        self.counts = self.displs = None
        if isinstance(spec, (list, tuple)):
            arr, rest = spec[0], list(spec[1:])
            dt = None
            if rest and not isinstance(rest[-1], (int, np.integer, list,
                                                  tuple, np.ndarray)) and \
                    rest[-1] is not None:
                dt = rest.pop()
            if vector:
                if len(rest) == 1 and isinstance(rest[0], tuple):
                    rest = list(rest[0])
                if rest:
                    self.counts = rest[0]
                if len(rest) > 1:
                    self.displs = rest[1]
        else:
            arr, dt = spec, None
        if arr is None:
            self.arr = None
            return
        self.arr = np.asarray(arr)
        if writable and not isinstance(arr, np.ndarray):
            raise SimError('mpi-buffer', 'receive buffer is not an array')
        if self.arr.dtype.kind not in 'fiubc':
            raise SimError('mpi-datatype', 'dtype %s' % self.arr.dtype)
        if not (self.arr.flags.c_contiguous or self.arr.flags.f_contiguous):
            raise SimError('mpi-contiguity', 'buffer is not contiguous')
        if self.arr.ndim > 1 and not self.arr.flags.c_contiguous and \
                self.arr.size:
            # a Fortran buffer would be sent in another element order
            raise SimError('mpi-contiguity', 'buffer is not C contiguous')
        if writable and not self.arr.flags.writeable:
            raise SimError('mpi-readonly', 'receive buffer is read-only')
        if dt is not None:
            want = _mpi_dtype(dt)
            if want.itemsize != self.arr.dtype.itemsize or \
                    want.kind != self.arr.dtype.kind:
                raise SimError('mpi-datatype', 'buffer of %s declared as %s' %
                               (self.arr.dtype, want))

    def put(self, src):
        """Receive the elements of src."""
        if src.size != self.arr.size:
            raise SimError('mpi-count', 'receives %d elements of %d sent' %
                           (self.arr.size, src.size))
        if src.dtype != self.arr.dtype:
            raise SimError('mpi-datatype', 'receives %s as %s' %
                           (src.dtype, self.arr.dtype))
        if self.arr.size:
            self.arr.reshape(-1)[:] = src.reshape(-1)


class World:
    def __init__(self, size, seed=0, max_delay=0., slow=(), timeout=120.):
        self.size = size
        self.cond = threading.Condition()
        self.calls = {}
        self.dead = None
        self.finished = set()
        self.waiting = {}
        self.log = [[] for _ in range(size)]
        self.rngs = [np.random.RandomState([seed, r]) for r in range(size)]
        self.max_delay = max_delay
        self.slow = set(slow)
        self.timeout = timeout
        self.orders = set()

    def abort(self, e):
        with self.cond:
            if self.dead is None:
                self.dead = e
            self.cond.notify_all()

    def exchange(self, rank, op, payload, root=None):
        if self.max_delay:
            d = self.rngs[rank].rand() * self.max_delay
            if rank in self.slow:
                d += self.max_delay
            time.sleep(d)
        with self.cond:
            k = len(self.log[rank])
            self.log[rank].append(op)
            call = self.calls.setdefault(k, dict(data={}, ops={}, order=[]))
            call['data'][rank] = payload
            call['ops'][rank] = (op, root)
            call['order'].append(rank)
            if len(set(call['ops'].values())) > 1:
                e = SimError('mpi-mismatch', 'call %d: %s' % (
                    k, sorted(call['ops'].items())))
                self.dead = self.dead or e
                self.cond.notify_all()
                raise e
            if len(call['data']) == self.size:
                self.orders.add(tuple(call['order']))
                self.cond.notify_all()
            else:
                self.waiting[rank] = k
                self._stuck()
                end = time.time() + self.timeout
                while len(call['data']) < self.size:
                    if self.dead is not None:
                        raise Aborted(str(self.dead))
                    if not self.cond.wait(end - time.time()) and \
                            time.time() > end:
                        self.dead = SimError('mpi-deadlock',
                                             'timeout in call %d' % k)
                        self.cond.notify_all()
                        raise self.dead
                self.waiting.pop(rank, None)
            return [call['data'][r] for r in range(self.size)]

    def _stuck(self):
        """A rank that returned will never join a collective."""
        stuck = [r for r, k in self.waiting.items()
                 if len(self.calls[k]['data']) < self.size]
        if stuck and self.finished and \
                len(self.finished) + len(stuck) == self.size:
            self.dead = self.dead or SimError(
                'mpi-deadlock', 'ranks %s wait for ranks %s, which returned' %
                (sorted(self.waiting), sorted(self.finished)))
            self.cond.notify_all()

    def finish(self, rank):
        with self.cond:
            self.finished.add(rank)
            self._stuck()

    def run(self, f):
        """f(comm) on every rank; returns the list of results."""
        out = [None] * self.size
        errs = [None] * self.size

        def body(r):
            try:
                out[r] = f(Comm(self, r))
            except BaseException as e:
                errs[r] = e
                if not isinstance(e, Aborted):
                    self.abort(e)
            finally:
                self.finish(r)
        ts = [threading.Thread(target=body, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.errors = errs
        for e in errs:
            if isinstance(e, SimError):
                raise e
        for e in errs:
            if e is not None and not isinstance(e, Aborted):
                raise e
        if isinstance(self.dead, Exception):
            raise self.dead
        # every rank must have taken part in every collective
        if len({len(l) for l in self.log}) > 1:
            raise SimError('mpi-mismatch', 'ranks made %s collective calls' %
                           [len(l) for l in self.log])
        return out


def _copy(o):
    return pickle.loads(pickle.dumps(o))


class Comm:
    """The part of mpi4py's communicator interface a library may use."""

    def __init__(self, world, rank):
        self._w = world
        self.rank = rank
        self.size = world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _root(self, root):
        if not 0 <= int(root) < self.size:
            raise SimError('mpi-root', 'root %r' % (root,))
        return int(root)

    # objects
    def bcast(self, obj=None, root=0):
        root = self._root(root)
        d = self._w.exchange(self.rank, 'bcast',
                             pickle.dumps(obj) if self.rank == root else None,
                             root)
        return obj if self.rank == root else pickle.loads(d[root])

    def gather(self, obj, root=0):
        root = self._root(root)
        d = self._w.exchange(self.rank, 'gather', pickle.dumps(obj), root)
        return [pickle.loads(x) for x in d] if self.rank == root else None

    def allgather(self, obj):
        d = self._w.exchange(self.rank, 'allgather', pickle.dumps(obj))
        return [pickle.loads(x) for x in d]

    def scatter(self, objs=None, root=0):
        root = self._root(root)
        p = None
        if self.rank == root:
            if len(objs) != self.size:
                raise SimError('mpi-count', 'scatter of %d objects' %
                               len(objs))
            p = [pickle.dumps(o) for o in objs]
        d = self._w.exchange(self.rank, 'scatter', p, root)
        return pickle.loads(d[root][self.rank])

    def _op(self, op, xs):
        from mpi4py import MPI
        for k, v in ((MPI.SUM, np.add), (MPI.MAX, np.maximum),
                     (MPI.MIN, np.minimum), (MPI.PROD, np.multiply)):
            if k == op:
                r = xs[0]
                for x in xs[1:]:
                    r = v(r, x)
                return r
        raise SimError('mpi-op', repr(op))

    def _sum(self):
        from mpi4py import MPI
        return MPI.SUM

    def reduce(self, obj, op=None, root=0):
        root = self._root(root)
        d = self._w.exchange(self.rank, 'reduce', pickle.dumps(obj), root)
        if self.rank != root:
            return None
        return self._op(op or self._sum(), [pickle.loads(x) for x in d])

    def allreduce(self, obj, op=None):
        d = self._w.exchange(self.rank, 'allreduce', pickle.dumps(obj))
        return self._op(op or self._sum(), [pickle.loads(x) for x in d])

    def Barrier(self):
        self._w.exchange(self.rank, 'Barrier', None)

    barrier = Barrier

    # buffers
    def Bcast(self, buf, root=0):
        root = self._root(root)
        b = Buf(buf, writable=self.rank != root)
        d = self._w.exchange(self.rank, 'Bcast', b.arr.copy()
                             if self.rank == root else None, root)
        if self.rank != root:
            b.put(d[root])

    def Reduce(self, send, recv, op=None, root=0):
        root = self._root(root)
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Reduce', s.arr.copy(), root)
        if self.rank == root:
            Buf(recv, True).put(np.asarray(
                self._op(op or self._sum(), d), dtype=d[0].dtype))

    def Allreduce(self, send, recv, op=None):
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Allreduce', s.arr.copy())
        Buf(recv, True).put(np.asarray(
            self._op(op or self._sum(), d), dtype=d[0].dtype))

    def Gather(self, send, recv, root=0):
        root = self._root(root)
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Gather', s.arr.copy(), root)
        if self.rank == root:
            if len({x.size for x in d}) > 1:
                raise SimError('mpi-count', 'Gather of unequal counts')
            Buf(recv, True).put(np.concatenate([x.reshape(-1) for x in d]))

    def Allgather(self, send, recv):
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Allgather', s.arr.copy())
        if len({x.size for x in d}) > 1:
            raise SimError('mpi-count', 'Allgather of unequal counts')
        Buf(recv, True).put(np.concatenate([x.reshape(-1) for x in d]))

    def _vector(self, b, d):
        flat = b.arr.reshape(-1)
        counts = b.counts
        if counts is None:
            counts = [x.size for x in d]
        # as mpi4py, accept nothing but integers
        counts = [operator.index(c) for c in counts]
        displs = b.displs
        if displs is None:
            displs = np.concatenate([[0], np.cumsum(counts)])[:-1]
        displs = [operator.index(c) for c in displs]
        if len(counts) != self.size or len(displs) != self.size:
            raise SimError('mpi-count', '%d counts, %d displacements' % (
                len(counts), len(displs)))
        written = np.zeros(flat.size, dtype=bool)
        for x, c, o in zip(d, counts, displs):
            if x.dtype != b.arr.dtype:
                raise SimError('mpi-datatype', 'receives %s as %s' % (
                    x.dtype, b.arr.dtype))
            if x.size > c:
                raise SimError('mpi-truncate', 'receives %d of %d' % (
                    c, x.size))
            if o < 0 or o + x.size > flat.size:
                raise SimError('mpi-overflow', '%d elements at %d into %d' % (
                    x.size, o, flat.size))
            if written[o:o + x.size].any():
                raise SimError('mpi-overlap', 'contributions overlap')
            written[o:o + x.size] = True
            flat[o:o + x.size] = x.reshape(-1)

    def Gatherv(self, send, recv, root=0):
        root = self._root(root)
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Gatherv', s.arr.copy(), root)
        if self.rank == root:
            self._vector(Buf(recv, True, vector=True), d)

    def Allgatherv(self, send, recv):
        s = Buf(send, False)
        d = self._w.exchange(self.rank, 'Allgatherv', s.arr.copy())
        self._vector(Buf(recv, True, vector=True), d)

    def Dup(self):
        return self

    def Abort(self, code=0):
        raise SimError('mpi-abort', str(code))

    def __getattr__(self, name):
        raise AttributeError('the simulated communicator has no %s' % name)
