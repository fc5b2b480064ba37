"""C28: the serial fallback."""
import copy
import importlib
import json
import os
import random
import subprocess
import sys
import numpy as np
from harness import enc, simmpi, onempi
from props.common import *

MPI = "none"
MODELS = [{"module": "MC_Comm", "quick": {"R": 1, "Depth": 2}, "thorough": {"R": 1, "Depth": 4}},
          {"module": "MC_Comm", "quick": {"R": 3, "Depth": 2}, "thorough": {"R": 3, "Depth": 3}},
          {"module": "MC_Comm", "quick": {"R": 2, "Depth": 2, "Branch": "TRUE"}, "violates": "Progress|Paired|Agree"}]
RULE = ("every collective on the fallback communicator, on one process of the installed MPI library and on 1-5 processes of the test "
        "runtime, with integer and floating arrays, lists and numbers, against one specification; single-process scenarios of all the "
        "other drivers run with no MPI library importable and with the installed one; distinct by full trace")
ASSUMPTIONS = ["whether a returned object is a copy is not specified", "mpi4py is the reference for one process"]
KINDS = ["allgather", "gather", "allreduce", "bcast", "scatter", "Allgather", "Allreduce", "Bcast", "Scatter", "barrier", "Barrier"]
FLOWS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22",
         "c23", "c24", "c25", "c26", "c27"]


def coll(rng, i):
    s = {"seed": i, "what": "coll", "kind": rng.choice(KINDS), "on": rng.choice(["fallback", "fallback", "module", "sim"]), "red": rng.choice(["SUM", "MAX"]),
         "form": rng.choice(["array", "list", "int"]), "dt": rng.choice(["f", "i"]), "typed": rng.random() < 0.6}
    s["R"] = rng.randint(1, 5) if s["on"] == "sim" else 1
    s["root"] = rng.randrange(s["R"])
    n = rng.randint(1, 4)
    if s["form"] == "int" and s["kind"][0].islower():
        n = 1
    if s["kind"][0].isupper() or s["kind"] == "allreduce":
        s["form"] = "array" if s["form"] == "list" or s["kind"][0].isupper() else s["form"]
    if s["kind"] == "allreduce" and s["form"] == "array" and s["red"] == "MAX":
        s["form"], n = "int", 1                    # mpi4py compares objects
    m = n * (s["R"] if s["kind"] in ("scatter", "Scatter") else 1)
    s["n"] = n
    s["c"] = [[rng.randint(-9, 9) for _ in range(m)] for _ in range(s["R"])]
    return s


def scenarios(tier, rng):
    out = [coll(rng, i) for i in range(200 if tier == "quick" else 2000)]
    per = 12 if tier == "quick" else 80
    flows = []
    for k in FLOWS:
        mod = importlib.import_module("props." + k)
        r = random.Random(rng.random())
        got = [s for s in mod.scenarios("quick", r) if s.get("R", 1) == 1]
        r.shuffle(got)
        flows += [["props." + k, s] for s in got[:per]]
    flows = json.loads(json.dumps(flows))
    for (m, s), w in zip(flows, reference(flows)):
        out.append({"seed": s.get("seed", 0), "R": 1, "what": "flow", "mod": m, "scn": s, "with": w})
    return out


def reference(flows, procs=6):
    env = dict(os.environ)
    env["BET_REPO"] = os.environ.get("BET_REPO", "/repo")
    ps = []
    for k in range(procs):
        p = subprocess.Popen([sys.executable, onempi.__file__], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        ps.append(p)
    import threading
    res = [None] * procs

    def go(k):
        try:
            o, _ = ps[k].communicate(json.dumps(flows[k::procs]), timeout=400)
            res[k] = json.loads(o)
        except Exception:
            ps[k].kill()
            res[k] = ["no answer"] * len(flows[k::procs])
    ts = [threading.Thread(target=go, args=(k,)) for k in range(procs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out = [None] * len(flows)
    for k in range(procs):
        for j, w in enumerate(res[k]):
            out[k + j * procs] = w
    return out


def lists(v):
    """whatever came back as nested lists of integers; None if it is not"""
    if isinstance(v, (int, float, np.integer, np.floating)):
        return int(v) if float(v).is_integer() else None
    if isinstance(v, np.ndarray):
        v = v.tolist()
        return lists(v)
    if isinstance(v, (list, tuple)):
        out = [lists(x) for x in v]
        return None if any(x is None for x in out) else out
    return None


def one(v):
    v = lists(v)
    return [[-999]] if v is None else [[v]] if isinstance(v, int) else [v]


def many(v):
    v = lists(v) if v is not None else []
    if not isinstance(v, list):
        return [[-999]]
    return [[x] if isinstance(x, int) else x for x in v]


def execute(s):
    if s["what"] == "flow":
        try:
            t = onempi.text(importlib.import_module(s["mod"]).execute(copy.deepcopy(s["scn"])))
        except Exception as e:
            t = "raised " + type(e).__name__
        return {"ev": [{"op": "same", "mod": s["mod"], "without": t, "with": s["with"]}]}
    kind = s["kind"]

    def body(rank, R):
        import bet.Comm as C
        if s["on"] == "sim":
            comm, M = simmpi.COMM, simmpi
            types = {"f": simmpi.DT["DOUBLE"], "i": simmpi.DT["LONG"]}
        else:
            comm, M = (C.comm, C.MPI) if s["on"] == "module" else (C.comm_for_no_mpi4py(), C.MPI_for_no_mpi4py())
            types = {"f": M.DOUBLE, "i": M.INT}
        mine = s["c"][rank]
        arr = np.array(mine, dtype=float if s["dt"] == "f" else np.int64)
        red = getattr(M, s["red"])

        def put(a):
            return [a, types[s["dt"]]] if s["typed"] else a
        ret, buf = None, None
        obj = mine[0] if s["form"] == "int" else arr if s["form"] == "array" else mine
        if kind == "allgather":
            ret = many(comm.allgather(obj))
        elif kind == "gather":
            ret = many(comm.gather(obj, root=s["root"]))
        elif kind == "allreduce":
            ret = one(comm.allreduce(obj, op=red))
        elif kind == "bcast":
            ret = one(comm.bcast(obj, root=s["root"]))
        elif kind == "scatter":
            k = s["n"]
            parts = [mine[j * k:(j + 1) * k] for j in range(R)]
            parts = [p[0] for p in parts] if s["form"] == "int" else [np.array(p) for p in parts] if s["form"] == "array" else parts
            ret = one(comm.scatter(parts if rank == s["root"] else None, root=s["root"]))
        elif kind == "Allgather":
            b = np.full(len(mine) * R, -7, dtype=arr.dtype)
            comm.Allgather(put(arr), put(b))
            buf = one(b)
        elif kind == "Allreduce":
            b = np.full(len(mine), -7, dtype=arr.dtype)
            comm.Allreduce(put(arr), put(b), op=red)
            buf = one(b)
        elif kind == "Bcast":
            comm.Bcast(put(arr), root=s["root"])
            buf = one(arr)
        elif kind == "Scatter":
            b = np.full(s["n"], -7, dtype=arr.dtype)
            comm.Scatter(put(arr), put(b), root=s["root"])
            buf = one(b)
        else:
            getattr(comm, kind)()
        return {"ret": ret or [], "buf": buf or [], "size": int(comm.size if s["seed"] % 2 else comm.Get_size()),
                "rank": int(comm.rank if s["seed"] % 2 else comm.Get_rank())}
    outs, logs = run(s, body)
    fill(outs, {"ret": [], "buf": [], "size": -1, "rank": -1})
    return {"ev": [{"op": "coll", "kind": kind, "root": s["root"] + 1, "red": s["red"], "c": s["c"], "outs": outs}]}
