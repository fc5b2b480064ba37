"""A deterministic in-process MPI: R ranks, each a thread, one running at a time.

`install()` puts a module `mpi4py` in sys.modules whose MPI.COMM_WORLD talks to
this runtime, so the unmodified `bet` package runs with comm.size == R.  A rank
runs until its next collective; collectives complete when every rank has
arrived with a *matching* call.  Mismatched calls, or a rank leaving while
another waits, are reported as an error of the waiting ranks (a deadlock in
real MPI) instead of hanging.  Every rank has its own numpy RNG stream and its
sequence of collectives is logged for the SPMD specification.
"""
import sys
import threading
import types
import pickle
import numpy as np


class SimMPIError(Exception):
    """a collective that real MPI could not have completed"""


class SimTimeout(Exception):
    pass


class _Op(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return self.name


SUM = _Op("SUM", lambda a, b: a + b)
MAX = _Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = _Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
PROD = _Op("PROD", lambda a, b: a * b)


class _Dt(object):
    def __init__(self, name, dt):
        self.name = name
        self.dt = np.dtype(dt)


DT = {"DOUBLE": _Dt("DOUBLE", "f8"), "INT": _Dt("INT", "i4"),
      "FLOAT": _Dt("FLOAT", "f4"), "BOOL": _Dt("BOOL", "u1"),
      "LONG": _Dt("LONG", "i8"), "INT64_T": _Dt("INT64_T", "i8")}

_tls = threading.local()


class _Run(object):
    def __init__(self, size, order):
        self.size = size
        self.cv = threading.Condition()
        self.order = order            # scheduling priority of ranks
        self.turn = None              # the rank that may run
        self.state = ["ready"] * size     # ready / coll / done
        self.calls = [None] * size
        self.results = [None] * size
        self.errors = [None] * size
        self.rng = [None] * size
        self.logs = [[] for _ in range(size)]
        self.inexact = False


def _cur():
    run = getattr(_tls, "run", None)
    return run


def _copy(v):
    return pickle.loads(pickle.dumps(v))


def _buf(spec):
    """[array, TYPE] or array -> (array, flat view in the MPI type)"""
    if isinstance(spec, (list, tuple)):
        a, t = spec[0], spec[-1]
    else:
        a, t = spec, None
    if not isinstance(a, np.ndarray):
        raise TypeError("message: expecting a buffer")
    if not a.flags["C_CONTIGUOUS"] and not a.flags["F_CONTIGUOUS"]:
        raise ValueError("ndarray is not contiguous")
    flat = a.ravel(order="K") if a.flags["C_CONTIGUOUS"] else a.T.ravel()
    dt = a.dtype if t is None else t.dt
    return a, flat.view(np.uint8).view(dt) if flat.nbytes else flat.view(dt)


class Comm(object):
    @property
    def size(self):
        r = _cur()
        return r.size if r else 1

    @property
    def rank(self):
        return _tls.rank if _cur() else 0

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    # ---- the rendezvous -------------------------------------------------
    def _coll(self, kind, meta, payload, combine):
        """combine(list of payloads) -> list of results"""
        run = _cur()
        if run is None:
            return combine([payload])[0]
        me = _tls.rank
        with run.cv:
            run.logs[me].append(kind if not meta else kind + ":" + ":".join(meta))
            run.calls[me] = (kind, meta, payload, combine)
            run.state[me] = "coll"
            run.rng[me] = np.random.get_state()
            _advance(run)
            while run.turn != me:
                run.cv.wait()
            np.random.set_state(run.rng[me])
            if run.errors[me] is not None:
                e = run.errors[me]
                run.errors[me] = None
                raise e
            res = run.results[me]
            run.results[me] = None
            return res

    # ---- object collectives ---------------------------------------------
    def allgather(self, val):
        def f(ps):
            return [[_copy(p) for p in ps] for _ in ps]
        return self._coll("allgather", (), val, f)

    def gather(self, val, root=0):
        def f(ps):
            return [[_copy(p) for p in ps] if i == root else None for i in range(len(ps))]
        return self._coll("gather", (str(root),), val, f)

    def allreduce(self, val, op=SUM):
        op = op or SUM

        def f(ps):
            acc = _copy(ps[0])
            for p in ps[1:]:
                acc = op.f(acc, p)
            return [_copy(acc) for _ in ps]
        return self._coll("allreduce", (op.name,), val, f)

    def bcast(self, val, root=0):
        def f(ps):
            return [ps[i] if i == root else _copy(ps[root]) for i in range(len(ps))]
        return self._coll("bcast", (str(root),), val, f)

    def scatter(self, val, root=0):
        def f(ps):
            v = ps[root]
            if v is None or len(v) != len(ps):
                raise ValueError("expecting %d items" % len(ps))
            return [_copy(x) for x in v]
        return self._coll("scatter", (str(root),), val, f)

    def barrier(self):
        return self._coll("barrier", (), None, lambda ps: [None] * len(ps))

    Barrier = barrier

    # ---- buffer collectives ---------------------------------------------
    def Allreduce(self, send, recv, op=SUM):
        op = op or SUM
        s, sf = _buf(send)
        r, rf = _buf(recv)

        def f(ps):
            n = {(p[0].size, p[0].dtype.str) for p in ps}
            if len(n) != 1:
                raise SimMPIError("Allreduce: message sizes/types differ between ranks")
            acc = ps[0][0].copy()
            for p in ps[1:]:
                acc = op.f(acc, p[0])
            return [acc.copy() for _ in ps]
        acc = self._coll("Allreduce", (op.name,), (sf, None), f)
        if rf.nbytes < acc.nbytes:
            raise SimMPIError("Allreduce: message truncated")
        _fill(r, acc)

    def Bcast(self, buf, root=0):
        b, bf = _buf(buf)

        def f(ps):
            for p in ps:
                if p.nbytes < ps[root].nbytes:
                    raise SimMPIError("Bcast: message truncated")
            return [ps[root].copy() for _ in ps]
        out = self._coll("Bcast", (str(root),), bf, f)
        _fill(b, out)

    def Allgather(self, send, recv):
        s, sf = _buf(send)
        r, rf = _buf(recv)

        def f(ps):
            n = {p.nbytes for p in ps}
            if len(n) != 1:
                raise SimMPIError("Allgather: message sizes differ between ranks")
            cat = np.concatenate(ps)
            return [cat.copy() for _ in ps]
        out = self._coll("Allgather", (), sf, f)
        if rf.nbytes < out.nbytes:
            raise SimMPIError("Allgather: message truncated")
        _fill(r, out)

    def Scatter(self, send, recv, root=0):
        r, rf = _buf(recv)
        me = self.rank
        sf = _buf(send)[1] if me == root else None

        def f(ps):
            n = len(ps)
            parts = np.split(ps[root], n)
            return [p.copy() for p in parts]
        out = self._coll("Scatter", (str(root),), sf, f)
        _fill(r, out)


def _fill(a, data):
    if a.size == 0:
        return
    raw = data.view(np.uint8)
    if a.flags["C_CONTIGUOUS"]:
        a.reshape(-1).view(np.uint8)[:raw.size] = raw
    else:
        a.T.reshape(-1).view(np.uint8)[:raw.size] = raw


def _advance(run):
    """called with cv held by a rank that stopped running: pick who runs next"""
    ready = [r for r in run.order if run.state[r] == "ready"]
    if ready:
        run.turn = ready[0]
        run.cv.notify_all()
        return
    waiting = [r for r in range(run.size) if run.state[r] == "coll"]
    if not waiting:
        run.turn = -1
        run.cv.notify_all()
        return
    if len(waiting) < run.size:
        err = "rank(s) %s left while rank(s) %s wait in %s" % (
            [r for r in range(run.size) if r not in waiting], waiting,
            run.calls[waiting[0]][0])
        for r in waiting:
            run.errors[r] = SimMPIError(err)
            run.state[r] = "ready"
    else:
        sigs = {(c[0], c[1]) for c in run.calls}
        if len(sigs) != 1:
            for r in waiting:
                run.errors[r] = SimMPIError("mismatched collectives %s" % sorted(map(str, sigs)))
        else:
            try:
                res = run.calls[0][3]([c[2] for c in run.calls])
                for r in range(run.size):
                    run.results[r] = res[r]
            except Exception as e:      # an error every rank sees
                for r in waiting:
                    run.errors[r] = e
        for r in waiting:
            run.state[r] = "ready"
    for r in range(run.size):
        run.calls[r] = None
    ready = [r for r in run.order if run.state[r] == "ready"]
    run.turn = ready[0]
    run.cv.notify_all()


COMM = Comm()


def sync():
    """harness side: wait until every rank got here; ranks still in a collective of the code under test are released with an error"""
    while _cur() is not None:
        try:
            COMM._coll("harness sync", (), None, lambda ps: [None] * len(ps))
            return
        except SimMPIError as e:
            if " left while " in str(e):
                return


def install():
    """make `from mpi4py import MPI` yield the simulator (before importing bet)"""
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = COMM
    mpi.SUM, mpi.MAX, mpi.MIN, mpi.PROD = SUM, MAX, MIN, PROD
    for k, v in DT.items():
        setattr(mpi, k, v)
    m.MPI = mpi
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi


def spmd(size, body, seed=0, order=None, timeout=120.0):
    """run body(rank) on every rank; returns (outcomes, logs)

    outcome = ("ok", value) or ("exc", exception)
    """
    if order is None:
        order = list(range(size))
    run = _Run(size, order)
    out = [None] * size
    outer = np.random.get_state()

    def main(r):
        _tls.run = run
        _tls.rank = r
        with run.cv:
            while run.turn != r:
                run.cv.wait()
        np.random.seed((seed * 7919 + 104729 * r + 1) % (2 ** 32))
        try:
            out[r] = ("ok", body(r))
        except SimTimeout as e:
            out[r] = ("exc", e)
        except Exception as e:
            out[r] = ("exc", e)
        finally:
            with run.cv:
                run.state[r] = "done"
                _advance(run)

    ths = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(size)]
    for t in ths:
        t.start()
    with run.cv:
        run.turn = order[0]
        run.cv.notify_all()
    import time
    import ctypes
    end = time.time() + timeout
    for t in ths:
        t.join(max(0.1, end - time.time()))
    if any(t.is_alive() for t in ths):
        for t in ths:
            if t.is_alive():
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(t.ident), ctypes.py_object(SimTimeout))
        for t in ths:
            t.join(5.0)
        for r in range(size):
            if out[r] is None:
                out[r] = ("exc", SimTimeout("no termination"))
    np.random.set_state(outer)
    return out, run.logs
