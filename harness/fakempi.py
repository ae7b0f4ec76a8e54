"""A thread-backed stand-in for mpi4py (which is not installed here).

Ranks are threads of one process: COMM_WORLD's rank is thread-local, collectives
meet at a barrier.  A collective the ranks do not all reach (or reach in a
different order) times out and is reported as a schedule error.
install() must run before openms is imported.
"""
import copy, sys, threading, types
import numpy as np

TIMEOUT = 30.0


class CollectiveMismatch(RuntimeError):
    pass


class _World:
    def __init__(self, size):
        self.size = size
        self.barrier = threading.Barrier(size)
        self.slots = [None] * size
        self.log = []          # (kind) in the order rank 0 executes them
        # one rank runs at a time (the token); numpy's global random stream is per rank
        self.token = threading.Lock()
        self.rng = [None] * size


class _TLS(threading.local):
    rank = 0
    world = None
    lone = None   # (rank, size): no communication, reductions return the local value


_tls = _TLS()


def _take(w, r):
    w.token.acquire()
    if w.rng[r] is not None:
        np.random.set_state(w.rng[r])


def _give(w, r):
    w.rng[r] = np.random.get_state()
    w.token.release()


class Comm:
    # -- identity
    def Get_rank(self):
        if _tls.lone:
            return _tls.lone[0]
        return _tls.rank

    def Get_size(self):
        if _tls.lone:
            return _tls.lone[1]
        return _tls.world.size if _tls.world else 1

    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())

    # -- plumbing
    def _exchange(self, kind, value):
        w = _tls.world
        if _tls.lone or w is None or w.size == 1:
            return [value]
        w.slots[_tls.rank] = (kind, value)
        _give(w, _tls.rank)
        try:
            w.barrier.wait(TIMEOUT)
            vals = list(w.slots)
            w.barrier.wait(TIMEOUT)
        except threading.BrokenBarrierError:
            raise CollectiveMismatch("rank %d waited alone in %s" % (_tls.rank, kind))
        finally:
            _take(w, _tls.rank)
        kinds = {v[0] for v in vals}
        if len(kinds) != 1:
            raise CollectiveMismatch("ranks entered different collectives: %s" % sorted(kinds))
        if _tls.rank == 0:
            w.log.append(kind)
        return [v[1] for v in vals]

    @staticmethod
    def _sum(vals):
        acc = copy.deepcopy(vals[0])
        for v in vals[1:]:
            acc = acc + v
        return acc

    def Barrier(self):
        self._exchange("barrier", None)

    barrier = Barrier

    def allreduce(self, sendobj, op=None):
        return self._reduce_op(self._exchange("allreduce", copy.deepcopy(sendobj)), op)

    def _reduce_op(self, vals, op):
        if op in (None, "SUM"):
            return self._sum(vals)
        if op == "MAX":
            return max(vals)
        if op == "MIN":
            return min(vals)
        raise NotImplementedError(op)

    def reduce(self, sendobj, op=None, root=0):
        vals = self._exchange("reduce", copy.deepcopy(sendobj))
        return self._reduce_op(vals, op) if self.Get_rank() == root else None

    def allgather(self, sendobj):
        if _tls.lone:
            return [copy.deepcopy(sendobj)] * _tls.lone[1]
        return [copy.deepcopy(v) for v in self._exchange("allgather", copy.deepcopy(sendobj))]

    def gather(self, sendobj, root=0):
        vals = self._exchange("gather", copy.deepcopy(sendobj))
        return vals if self.Get_rank() == root else None

    def bcast(self, obj, root=0):
        if _tls.lone:
            return obj
        return copy.deepcopy(self._exchange("bcast", copy.deepcopy(obj))[root])

    def scatter(self, objs, root=0):
        vals = self._exchange("scatter", copy.deepcopy(objs))
        return copy.deepcopy(vals[root][self.Get_rank()])

    @staticmethod
    def _arr(buf):
        return buf[0] if isinstance(buf, (list, tuple)) else buf

    def Allreduce(self, sendbuf, recvbuf, op=None):
        s, r = self._arr(sendbuf), self._arr(recvbuf)
        r[...] = self._reduce_op(self._exchange("Allreduce", np.array(s, copy=True)), op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        s = self._arr(sendbuf)
        v = self._reduce_op(self._exchange("Reduce", np.array(s, copy=True)), op)
        if self.Get_rank() == root:
            self._arr(recvbuf)[...] = v

    def Bcast(self, buf, root=0):
        b = self._arr(buf)
        b[...] = self._exchange("Bcast", np.array(b, copy=True))[root]

    def Allgather(self, sendbuf, recvbuf):
        vals = self._exchange("Allgather", np.array(self._arr(sendbuf), copy=True))
        self._arr(recvbuf)[...] = np.array(vals).reshape(self._arr(recvbuf).shape)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        vals = self._exchange("Gatherv", np.array(self._arr(sendbuf), copy=True))
        if self.Get_rank() == root:
            r = self._arr(recvbuf)
            r[...] = np.concatenate([np.ravel(v) for v in vals]).reshape(r.shape)

    Gather = Gatherv

    def Scatterv(self, sendbuf, recvbuf, root=0):
        if isinstance(sendbuf, (list, tuple)):
            full, counts, displs = sendbuf[0], list(sendbuf[1]), list(sendbuf[2])
        else:
            full, counts, displs = sendbuf, None, None
        vals = self._exchange("Scatterv", (None if full is None else np.array(full, copy=True), counts, displs))
        data, c, d = vals[root if len(vals) > 1 else 0]
        data = np.ravel(data)
        i = self.Get_rank()
        r = self._arr(recvbuf)
        if c is None:
            n = data.size // self.Get_size()
            c, d = [n] * self.Get_size(), [n * k for k in range(self.Get_size())]
        r[...] = data[int(d[i]):int(d[i]) + int(c[i])].reshape(r.shape)

    Scatter = Scatterv

    def Split(self, color=0, key=0):
        return self


def install():
    if "openms" in sys.modules:
        raise RuntimeError("install() must run before openms is imported")
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    mpi.Intracomm = Comm
    mpi.Comm = Comm
    mpi.SUM, mpi.MAX, mpi.MIN = "SUM", "MAX", "MIN"
    mpi.DOUBLE, mpi.COMPLEX, mpi.COMPLEX16, mpi.INT64_T = "DOUBLE", "COMPLEX", "COMPLEX16", "INT64_T"
    mpi.IN_PLACE = "IN_PLACE"
    m.MPI = mpi
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi
    return mpi


def run_ranks(size, fn, salt=0):
    """Run fn(rank) on `size` simulated ranks; returns [('ok', value)|('raise', name, text)].

    Every rank starts with its own arbitrary random state (as processes do); `salt` varies it."""
    world = _World(size)
    res = [None] * size
    outer = np.random.get_state()
    for r in range(size):
        world.rng[r] = np.random.RandomState([salt, r, 77]).get_state()

    def body(r):
        _tls.rank, _tls.world, _tls.lone = r, world, None
        _take(world, r)
        try:
            res[r] = ("ok", fn(r))
        except BaseException as e:  # noqa
            import traceback
            res[r] = ("raise", type(e).__name__, traceback.format_exc()[-1500:])
            world.barrier.abort()
        finally:
            _give(world, r)
            _tls.rank, _tls.world = 0, None

    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(TIMEOUT * 4)
    np.random.set_state(outer)
    return [r if r is not None else ("raise", "Hang", "") for r in res], world.log


class lone_rank:
    """Pretend to be one rank of `size`, without communication."""

    def __init__(self, rank, size):
        self.v = (rank, size)

    def __enter__(self):
        _tls.lone = self.v

    def __exit__(self, *a):
        _tls.lone = None
