"""Histories of one discretization, executed and recorded on every process."""
import numpy as np
from fractions import Fraction
from harness import enc
from props.common import *

F5 = ["in", "out", "op", "ei", "eo"]
GETTER = {"in": "input_sample_set", "out": "output_sample_set", "op": "output_probability_set",
          "ei": "emulated_input_sample_set", "eo": "emulated_output_sample_set"}
NOPART = {"kind": "none"}


def build(o, rank, R, pexp=0):
    """an implementation set for a pool entry"""
    import bet.sample as S
    if o["role"] == "op":
        s = make_part(o["part"], o["dim"])
        s.set_probabilities(V(o["p"]) * 2.0 ** pexp)
        return s
    s = S.sample_set(o["dim"])
    if o["role"] == "in":
        s.set_p_norm(PN[o["part"]["p"]])
    a = A(o["vals"], o["dim"])
    if o.get("place") == "l":
        s.set_values_local(split(a, R, o.get("sizes"))[rank])
        return s
    s.set_values(a)
    if o["role"] == "in":
        s.set_volumes(V(o["vol"]))
    if o.get("place") == "gl":
        s.global_to_local()
    return s


class DMachine(object):
    def __init__(self, rank, R, pool, pexp=0):
        self.rank, self.R, self.pexp = rank, R, pexp
        self.pool = [build(o, rank, R, pexp) for o in pool]
        self.vals = [A(o["vals"], o["dim"]) if o.get("vals") else None for o in pool]
        self.d = None

    def do(self, e):
        import bet.sample as S
        import bet.calculateP.calculateP as C
        import bet.calculateP.simpleFunP as SF
        d = self.d
        k = e["do"]
        if k == "new":
            kw = {GETTER[f]: self.pool[x - 1] for f, x in e["m"].items() if x}
            self.d = S.discretization(**kw)
        elif k == "set":
            x = self.pool[e["x"] - 1] if e["x"] else [None, 3, "set", [1.0]][e["w"]]
            if e.get("flip"):
                # a set whose samples were given anew, in the opposite order
                from bet.Comm import comm
                sizes = None if x.get_values_local() is None else comm.allgather(len(x.get_values_local()))
                self.vals[e["x"] - 1] = a = self.vals[e["x"] - 1][::-1].copy()
                x.set_values(a)
                if sizes:
                    x.set_values_local(split(a, self.R, sizes)[self.rank])
            getattr(d, "set_" + GETTER[e["f"]])(x)
        elif k == "pset":
            s = self.pool[e["x"] - 1]
            s.set_probabilities(V(e["p"]) * 2.0 ** self.pexp)
            if s.get_probabilities_local() is not None:
                s.global_to_local()
        elif k == "io":
            d.set_io_ptr(globalize=e["glob"])
        elif k == "ii":
            d.set_emulated_ii_ptr(globalize=e["glob"])
        elif k == "oo":
            d.set_emulated_oo_ptr(globalize=e["glob"])
        elif k == "gptr":
            d.globalize_ptrs()
        elif k == "g2l":
            d.global_to_local()
        elif k == "l2g":
            d.local_to_global()
        elif k == "cp":
            self.d = d.copy()
            for f in F5:
                old, new = getattr(d, "get_" + GETTER[f])(), getattr(self.d, "get_" + GETTER[f])()
                for i, s in enumerate(self.pool):
                    if s is old and new is not None:
                        self.pool[i] = new
        elif k == "prob":
            C.prob(d, globalize=e["glob"])
        elif k == "emu":
            C.prob_on_emulated_samples(d, globalize=e["glob"])
        elif k == "vemu":
            C.prob_with_emulated_volumes(d)
        elif k == "sfp":
            c = V(e["ref"])
            if e["kind"] == "regular":
                s = SF.regular_partition_uniform_distribution_rectangle_size(
                    d, Q_ref=c, rect_size=V(e["size"]), cells_per_dimension=e["cells"])
            else:
                ds = S.sample_set(len(c))
                ds.set_values(A(e["pts"]))
                s = SF.user_partition_user_distribution(d, make_part(e["part"], len(c)), ds)
            self.pool.append(s)
            dim = s.get_dim()
            if e["kind"] == "regular":
                n = s._left.shape[0] - 1
                return {"dim": dim, "vals": [], "part": {
                    "kind": "rect", "left": [[enc.num(v) for v in r] for r in s._left[:n]],
                    "right": [[enc.num(v) for v in r] for r in s._right[:n]]},
                    "p": [enc.num(v) for v in s.get_probabilities()], "vol": [], "sz": [], "hg": True,
                    "prg": enc.arr(s.get_probabilities()), "prl": [{"sh": [-9], "v": []}]}
            return {"dim": dim, "vals": [], "part": {"kind": "vor", "p": e["part"]["p"],
                                                     "vals": [[enc.num(v) for v in r] for r in s.get_values()]},
                    "p": [enc.num(v) for v in s.get_probabilities()], "vol": [], "sz": [], "hg": True,
                    "prg": enc.arr(s.get_probabilities()), "prl": [{"sh": [-9], "v": []}]}
        else:
            raise RuntimeError(k)
        return None

    def ident(self, s):
        if s is None:
            return 0
        for i, x in enumerate(self.pool):
            if x is s:
                return i + 1
        return -1

    def ptrs(self):
        d = self.d
        return None if d is None else [enc.ints(x) for x in (d._io_ptr, d._io_ptr_local, d._emulated_ii_ptr, d._emulated_ii_ptr_local,
                                                             d._emulated_oo_ptr, d._emulated_oo_ptr_local)]

    def step(self, e):
        exc, ret = "", None
        was = self.ptrs()
        try:
            ret = self.do(e)
        except RuntimeError:
            raise
        except Exception as x:
            exc = enc.exc_name(x)
        d = self.d
        o = {"exc": exc, "ids": [self.ident(getattr(d, "get_" + GETTER[f])()) for f in F5],
             "kept": was == self.ptrs(),
             "io": enc.ints(d.get_io_ptr()), "iol": enc.ints(d._io_ptr_local),
             "ii": enc.ints(d.get_emulated_ii_ptr()), "iil": enc.ints(d._emulated_ii_ptr_local),
             "oo": enc.ints(d.get_emulated_oo_ptr()), "ool": enc.ints(d._emulated_oo_ptr_local),
             "pr": [{"g": enc.arr(unscaled(s.get_probabilities(), self.pexp)), "l": enc.arr(unscaled(s.get_probabilities_local(), self.pexp))}
                    for s in self.pool]}
        if e["do"] == "sfp":
            o["new"] = ret if ret is not None else {"dim": 0}
        return o


def run_disc(scn):
    R, ops = scn["R"], scn["ops"]
    steps = [[None] * R for _ in ops]

    def body(rank, R):
        m = DMachine(rank, R, scn["pool"], scn.get("pexp", 0))
        for i, e in enumerate(ops):
            steps[i][rank] = m.step(e)
        return {}
    outs, logs = run(scn, body)
    ev = []
    for i, (e, o) in enumerate(zip(ops, steps)):
        x = {k: v for k, v in e.items() if k not in ("w",)}
        x.update(op="disc", R=R)
        x.setdefault("glob", False)
        x.setdefault("flip", False)
        if e["do"] == "new":
            x["pool"] = [model(q, R) for q in scn["pool"]]
        if any(v is None for v in o):
            x["outs"] = [{"exc": z.get("exc") or "lost"} for z in outs]
            ev.append(x)
            break
        x["outs"] = o
        ev.append(x)
    return {"ev": ev, "init": {"pool": [], "m": {}}}


def model(o, R):
    return {"dim": o["dim"], "vals": o.get("vals", []), "part": o.get("part", NOPART), "vol": o.get("vol", []),
            "hg": o.get("place") != "l", "p": o.get("p", []), "prg": {"sh": [len(o["p"])], "v": o["p"]} if o["role"] == "op" else enc.NONE,
            "prl": [{"sh": [-9], "v": []}] if o["role"] == "op" else [enc.NONE] * R,
            "sz": [] if o["role"] == "op" else o.get("sizes") or [len(x) for x in np.array_split(np.arange(len(o["vals"])), R)]}


# ---- pools whose owners are all unique -------------------------------------
def rpool(rng, n=None, din=None, dout=None, places=("g", "gl"), big=False):
    """2 inputs, 2 outputs, 2 partitions, 2 emulated inputs, 2 emulated outputs, 3 of wrong dimension"""
    din, dout = din or rng.choice([1, 2]), dout or rng.choice([1, 2])
    n = n or rng.randint(2, 6)
    if big:
        din, dout, n = rng.choice([1, 2, 4, 5]), rng.choice([1, 2, 3, 4]), rng.choice([20, 40])
    pool = []
    ins = []
    for _ in range(2):
        part = {"kind": "vor", "p": rng.choice(["1", "2", "inf"]), "vals": rpoints(rng, n, din, 0, 4, 16 if big else 4)}
        ins.append(part)
        pool.append({"role": "in", "dim": din, "vals": part["vals"], "part": part, "place": rng.choice(places),
                     "vol": [qq(Fraction(rng.choice([1, 1, 2, 3, 5]), 8)) for _ in range(n)]})
    ops = [rpart(rng, dout, nmax=10 if big else 4) for _ in range(2)]
    both = [p for p in ops]

    def free(m, dim, parts, lo=-2, hi=6):
        out = []
        while len(out) < m:
            x = [qq(Fraction(rng.randint(lo * 8, hi * 8) * 2 + 1, 16)) for _ in range(dim)]
            if not any(has_tie(p, x) for p in parts):
                out.append(x)
        return out
    for _ in range(2):
        pool.append({"role": "out", "dim": dout, "vals": free(n, dout, both), "place": rng.choice(places)})
    for p in ops:
        pool.append({"role": "op", "dim": dout, "part": p, "p": rprobs(rng, ncells(p))})
    for _ in range(2):
        pool.append({"role": "ei", "dim": din, "vals": free(rng.choice([40, 90]) if big else rng.randint(1, 8), din, ins, 0, 4), "place": rng.choice(["g", "gl", "l"])})
    for _ in range(2):
        pool.append({"role": "eo", "dim": dout, "vals": free(rng.choice([20, 45]) if big else rng.randint(1, 6), dout, both), "place": rng.choice(["g", "gl", "l"])})
    wp = rpart(rng, dout + 1, "rect")
    pool.append({"role": "op", "dim": dout + 1, "part": wp, "p": rprobs(rng, ncells(wp))})
    pool.append({"role": "ei", "dim": din + 1, "vals": rpoints(rng, 2, din + 1), "place": "g"})
    pool.append({"role": "eo", "dim": dout + 1, "vals": rpoints(rng, 2, dout + 1), "place": "g"})
    return pool


IDX = {"in": (1, 2), "out": (3, 4), "op": (5, 6, 11), "ei": (7, 8, 12), "eo": (9, 10, 13)}


def sfp_op(rng, pool):
    dout = pool[2]["dim"]
    outs = [v for o in pool if o["role"] in ("out", "eo") and o["dim"] == dout for v in o["vals"]]
    if rng.random() < 0.6:
        # faces never on a sample: centre and cells on multiples of 1/8, samples on odd 1/16
        return {"do": "sfp", "kind": "regular", "ref": [qq(Fraction(rng.randint(0, 16), 8)) for _ in range(dout)],
                "size": [qq(rng.choice([1, 2, 4])) for _ in range(dout)], "cells": rng.choice([1, 2, 4])}
    while True:
        p = {"kind": "vor", "p": "2", "vals": rpoints(rng, rng.randint(1, 4), dout, -1, 5, 2)}
        pts = untied(rng, p, dout, rng.choice([1, 2, 4, 8]))
        if not any(has_tie(p, x) for x in outs):
            return {"do": "sfp", "kind": "user", "part": p, "pts": pts, "ref": [[0, 1]] * dout}


def rops(rng, pool, length, weights=None, all_=False):
    m = {"in": 1, "out": 3, "op": rng.choice([0, 5]), "ei": rng.choice([0, 7]), "eo": rng.choice([0, 9])}
    if all_:
        m.update(op=5, ei=7, eo=9)
    ops = [{"do": "new", "m": dict(m)}]
    npool = len(pool)
    while len(ops) < length:
        k = rng.choice(weights or ["set"] * 6 + ["io", "ii", "oo", "gptr", "prob", "prob", "emu", "emu", "emu", "vemu", "sfp", "pset", "cp", "g2l", "l2g"])
        g = rng.random() < 0.6
        if k == "set":
            f_ = rng.choice(F5)
            if rng.random() < 0.12:
                ops.append({"do": "set", "f": f_, "x": 0, "w": rng.randrange(4)})
                continue
            if f_ == "op":
                # existing good ones, constructed ones are not put back
                x = rng.choice(IDX[f_])
            else:
                x = rng.choice(IDX[f_])
            if x > 10:
                # the model decides whether it is refused: needs a member to disagree with
                ops.append({"do": "set", "f": f_, "x": x})
            else:
                ops.append({"do": "set", "f": f_, "x": x})
                if f_ != "op" and rng.random() < 0.25:
                    ops[-1]["flip"] = True
                    if m[f_] and rng.random() < 0.7:
                        ops[-1]["x"] = x = m[f_]
                m[f_] = x
        elif k == "pset":
            x = rng.choice((5, 6))
            ops.append({"do": "pset", "x": x, "p": rprobs(rng, ncells(pool[x - 1]["part"]))})
        elif k == "sfp":
            o = sfp_op(rng, pool)
            npool += 1
            m["op"] = npool
            ops.append(o)
        elif k in ("io", "prob") and m["op"]:
            ops.append({"do": k, "glob": g})
        elif k == "ii" and m["ei"]:
            ops.append({"do": k, "glob": g})
        elif k == "oo" and m["op"] and m["eo"]:
            ops.append({"do": k, "glob": g})
        elif k in ("emu", "vemu") and m["op"] and m["ei"]:
            ops.append({"do": k, "glob": True if k == "vemu" else g})
        elif k in ("gptr", "cp", "g2l", "l2g"):
            ops.append({"do": k})
    return ops
