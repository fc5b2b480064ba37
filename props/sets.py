"""Histories of operations on sample sets: executed on the implementation,
recorded as full per-process projections of every set in the store."""
import copy
import json
from fractions import Fraction
import contextlib
import numpy as np
from harness import enc
from props.common import *

FIELDS = ["values", "volumes", "probabilities", "densities", "jacobians", "error_estimates", "right",
          "left", "width", "radii", "normalized_radii", "region", "error_id"]
SETTER = {"values", "volumes", "probabilities", "densities", "jacobians", "error_estimates", "region", "error_id"}
SETTERL = {"values", "volumes", "probabilities", "densities", "jacobians", "error_estimates", "region", "error_id"}
OPQ = {"labels": "labels", "cluster_maps": "cluster_maps", "weights": "weights", "weights_init": "weights_init",
       "prob_type_init": "prob_type_init", "prob_parameters": "prob_parameters",
       "prob_parameters_init": "prob_parameters_init"}


def get(s, f, local=False):
    name = "get_%s%s" % (f, "_local" if local else "")
    if hasattr(s, name):
        return getattr(s, name)()
    return getattr(s, "_%s%s" % (f, "_local" if local else ""))


CODE = [0.0, 1.0]          # how numbers are represented in arrays: offset and (power of two) unit, exactly invertible


def dec(a):
    if CODE == [0.0, 1.0] or a is None or np.asarray(a).dtype.kind != "f":
        return enc.arr(a)
    return enc.arr((np.asarray(a) - CODE[0]) / CODE[1])


def project(s):
    if s is None:
        return proj_none()
    return {"cls": type(s).__name__, "dim": int(s.get_dim()), "p": enc.num(s.get_p_norm()),
            "g": {f: dec(get(s, f)) for f in FIELDS},
            "l": {f: dec(get(s, f, True)) for f in FIELDS},
            "li": enc.arr(getattr(s, "_local_index", None)), "dom": dec(s.get_domain()),
            "domo": dec(getattr(s, "_domain_original", None)), "ref": dec(s.get_reference_value()),
            "bbox": enc.arr(getattr(s, "_bounding_box", None)), "ptype": enc.text(s.get_prob_type()),
            "label": enc.text(s.get_label()),
            "opq": {k: enc.deep(getattr(s, "get_" + v)()) for k, v in OPQ.items()}}


def proj_none():
    return {"cls": "", "dim": 0, "p": [0, 0], "g": {f: enc.NONE for f in FIELDS},
            "l": {f: enc.NONE for f in FIELDS}, "li": enc.NONE, "dom": enc.NONE, "domo": enc.NONE,
            "ref": enc.NONE, "bbox": enc.NONE, "ptype": "", "label": "", "opq": {k: "~" for k in OPQ}}


def toarr(x, f=None):
    """{"sh", "v"} -> numpy"""
    v = [float("nan") if q == [0, 0] else INF if q == [1, 0] else -INF if q == [-1, 0] else q[0] / q[1] for q in x["v"]]
    a = np.array(v, dtype=float).reshape(x["sh"])
    if f in ("region", "error_id"):
        a = a.astype(int)
    elif CODE != [0.0, 1.0]:
        a = CODE[0] + CODE[1] * a
    return a


def qarr(rows_or_vec):
    """nested lists of Fractions/ints -> {"sh","v"}"""
    a = np.array(rows_or_vec, dtype=object)
    return {"sh": [int(k) for k in a.shape], "v": [qq(x) for x in a.ravel().tolist()]}


def qarr_sh(sh, vals):
    return {"sh": list(sh), "v": [qq(x) for x in vals]}


class Machine(object):
    """one process's store of sets"""

    def __init__(self, rank, R):
        import bet.sample as S
        self.S = S
        self.rank, self.R = rank, R
        self.store = []
        self.spoiled = False    # an operand was changed
        self.args = []          # (array given by the caller, copy)

    def put(self, k, s):
        while len(self.store) < k:
            self.store.append(None)
        self.store[k - 1] = s

    def mine(self, a):
        self.args.append((a, a.copy()))
        return a

    def argok(self):
        return not self.spoiled and all(np.array_equal(a, b, equal_nan=True) and a.shape == b.shape for a, b in self.args)

    def do(self, e):
        d = e["do"]
        if d == "new":
            self.put(e["a"], getattr(self.S, e["cls"])(e["dim"]))
            return None
        s = self.store[e["a"] - 1]
        if d == "set":
            a = self.mine(toarr(e["x"], e["f"]))
            if e["f"] in SETTER:
                getattr(s, "set_" + e["f"])(a)
            else:
                setattr(s, "_" + e["f"], a)
        elif d == "unset":
            setattr(s, "_" + e["f"], None)
        elif d == "setl":
            a = self.mine(toarr(e["xs"][self.rank], e["f"]))
            if e["f"] in SETTERL:
                getattr(s, "set_%s_local" % e["f"])(a)
            else:
                setattr(s, "_%s_local" % e["f"], a)
        elif d == "dom":
            s.set_domain(self.mine(toarr(e["x"])))
        elif d == "ref":
            s.set_reference_value(self.mine(toarr(e["x"])))
        elif d == "p":
            s.set_p_norm(INF if e["x"] == [1, 0] else f(e["x"]))
        elif d == "ptype":
            s.set_prob_type(e["x"])
        elif d == "label":
            s.set_label(e["x"])
        elif d == "opq":
            v = opaque(e["tok"])
            getattr(s, "set_" + OPQ[e["f"]])(v)
        elif d == "g2l":
            s.global_to_local()
        elif d == "l2g":
            s.local_to_global()
        elif d == "num":
            return s.check_num()
        elif d == "clip":
            self.put(e["b"], s.clip(e["n"]))
        elif d == "copy":
            self.put(e["b"], s.copy())
        elif d == "app":
            getattr(s, "append_" + e["f"])(self.mine(toarr(e["x"], e["f"])))
        elif d == "appl":
            getattr(s, "append_%s_local" % e["f"])(self.mine(toarr(e["xs"][self.rank], e["f"])))
        elif d == "norm":
            s.normalize_domain()
        elif d == "undo":
            s.undo_normalize_domain()
        elif d == "bounds":
            s.update_bounds()
        elif d == "boundsl":
            s.update_bounds_local()
        elif d == "bbox":
            return s.get_bounding_box()
        elif d == "merge":
            self.put(e["c"], s.merge(self.store[e["b"] - 1]))
        elif d == "eq":
            r = s == self.store[e["b"] - 1]
            return r if isinstance(r, (bool, np.bool_)) else "notbool"
        elif d in ("dg2l", "dl2g"):
            D = self.disc(e["m"])
            if e.get("ptr"):
                # with pointers of its own
                for k, n in enumerate(self.PTR):
                    if k % 2 or e["ptr"] > 1:
                        setattr(D, n, np.arange(3))
            D.global_to_local() if d == "dg2l" else D.local_to_global()
        elif d == "dclip":
            with self.watched(e["m"]) as D:
                D = D.clip(e["n"])
            self.putdisc(e["o"], D)
        elif d == "dcopy":
            with self.watched(e["m"]) as D:
                D = D.copy()
            self.putdisc(e["o"], D)
        elif d == "dmerge":
            with self.watched(e["m"]) as D, self.watched(e["m2"]) as D2:
                D = D.merge(D2)
            self.putdisc(e["o"], D)
        elif d == "dchoose":
            with self.watched(e["m"]) as D:
                D = D.choose_inputs_outputs(list(e["ins"]), list(e["outc"]))
            self.putdisc(e["o"], D)
        elif d == "deq":
            r = self.disc(e["m"], e["p1"]) == self.disc(e["m2"], e["p2"])
            return r if isinstance(r, (bool, np.bool_)) else "notbool"
        elif d == "query":
            x = CODE[0] + CODE[1] * A(e["pts"])
            m, tile = len(x), e.get("tile", 1)        # the same points, many times over
            x = np.tile(x, (tile, 1))
            dist, ptr = s.query(x, e["k"]) if e["k"] > 1 or e.get("kw") else s.query(x)
            if tile > 1:
                dist, ptr = np.asarray(dist), np.asarray(ptr)
                if len(ptr) == len(dist) == m * tile:
                    D, P = dist.reshape((tile, m) + dist.shape[1:]), ptr.reshape((tile, m) + ptr.shape[1:])
                    # one that differs from the first, if any
                    j = next((j for j in range(tile) if not (np.array_equal(D[j], D[0]) and np.array_equal(P[j], P[0]))), 0)
                    dist, ptr = D[j], P[j]
            if CODE[1] != 1.0:
                dist = dist / CODE[1]
            if s.get_p_norm() == 2 and not hasattr(s, "setup"):
                dist = dist ** 2
            return {"ptr": enc.ints(ptr), "dist": enc.arr(dist)}
        elif d == "rsetup":
            u = CODE[1]
            if e.get("xi"):
                s.setup([np.array([f(v) * u for v in x]) for x in e["xi"]])
            else:
                s.setup([[f(v) * u for v in r] for r in e["right"]], [[f(v) * u for v in r] for r in e["left"]])
        elif d == "bsetup":
            u = CODE[1]
            s.setup([[f(v) * u for v in r] for r in e["vals"]], [f(v) * u for v in e["rad"]])
        elif d == "qry":
            s.query(np.array([[0.25] * s.get_dim()]))
        else:
            raise RuntimeError(d)
        return None

    MEM = ["input_sample_set", "output_sample_set", "output_probability_set", "emulated_input_sample_set",
           "emulated_output_sample_set", "output_observed_set"]
    PTR = ["_io_ptr", "_io_ptr_local", "_emulated_ii_ptr", "_emulated_ii_ptr_local", "_emulated_oo_ptr",
           "_emulated_oo_ptr_local"]

    def disc(self, m, ptrs=None):
        kw = {n: self.store[k - 1] for n, k in zip(self.MEM, m) if k}
        for n in self.MEM[:2]:
            kw.setdefault(n, None)
        D = self.S.discretization(**kw)
        if ptrs:
            for n, x in zip(self.PTR, ptrs):
                if x["sh"] != [-1]:
                    setattr(D, n, toarr(x, "region"))
        return D

    @contextlib.contextmanager
    def watched(self, m):
        """a discretization with pointers, which the operation must leave as it was"""
        D = self.disc(m)
        was = {}
        for k, n in enumerate(self.PTR):
            a = np.arange(k + 2)
            setattr(D, n, a)
            was[n] = a.copy()
        mem = [getattr(D, "get_" + n)() for n in self.MEM]
        yield D
        for n in self.PTR:
            a = getattr(D, n)
            if not (isinstance(a, np.ndarray) and np.array_equal(a, was[n])):
                self.spoiled = True
        if any(getattr(D, "get_" + n)() is not x for n, x in zip(self.MEM, mem)):
            self.spoiled = True

    def putdisc(self, o, D):
        for n, k in zip(self.MEM, o):
            if k:
                self.put(k, getattr(D, "get_" + n)())

    def step(self, e):
        exc, ret = "", None
        try:
            ret = self.do(e)
        except RuntimeError:
            raise
        except Exception as x:
            exc = enc.exc_name(x)
        o = {"exc": exc, "ret": enc.NONE, "argok": self.argok(), "sets": [project(s) for s in self.store]}
        if isinstance(ret, dict):
            o.update(ret)
        elif e["do"] == "query":
            o.update(ptr=enc.NONE, dist=enc.NONE)
        else:
            o["ret"] = enc.arr(ret)
        return o


def opaque(tok):
    """a carried value from its description"""
    k, v = tok
    if k == "list":
        return list(v)
    if k == "arrs":
        return [np.array([f(x) for x in a]) for a in v]
    if k == "vec":
        return np.array([f(x) for x in v])
    if k == "str":
        return v
    if k == "rv":
        return [[n, {a: g(b) for a, b in d}] for n, d in v]
    if k == "gmm":
        return ([np.array([f(x) for x in m]) for m in v[0]],
                [np.array([[f(x) for x in r] for r in c]) for c in v[1]], [g(x) for x in v[2]])
    if k == "kde":
        import scipy.stats as st
        return ([[st.gaussian_kde(np.array([f(x) for x in d])) for d in dim] for dim in v[0]], [f(x) for x in v[1]])
    if k == "kdw":          # weighted, with a bandwidth
        import scipy.stats as st
        return ([[None if d is None else st.gaussian_kde(np.array([f(x) for x in d[0]]), bw_method=None if d[2] is None else f(d[2]),
                                                         weights=None if d[1] is None else np.array([f(x) for x in d[1]]))
                  for d in dim] for dim in v[0]], [g(x) for x in v[1]])
    if k == "tup":
        return tuple(v)
    if k == "none":
        return None
    raise RuntimeError(k)


def g(q):
    return float("nan") if q == [0, 0] else f(q)


def run_history(scn):
    """execute a history on all processes -> events"""
    R = scn["R"]
    ops = scn["ops"]
    steps = [[None] * R for _ in ops]
    CODE[:] = scn.get("code", [0.0, 1.0])

    def body(rank, R):
        m = Machine(rank, R)
        for i, e in enumerate(ops):
            steps[i][rank] = m.step(e)
            simmpi.sync()
        return {}
    outs, logs = run(scn, body)
    CODE[:] = [0.0, 1.0]
    ev = []
    for e, o in zip(ops, steps):
        x = {k: v for k, v in e.items() if k != "tok"}
        x["op"] = "ss"
        x["R"] = R
        if e["do"] == "opq":
            x["x"] = enc.deep(opaque(e["tok"]))
        if any(v is None for v in o):
            bad = [{"exc": z.get("exc", "lost")} for z in outs]
            x["outs"] = [dict(b, ret=enc.NONE, argok=True, sets=[]) for b in bad]
            ev.append(x)
            break
        x["outs"] = o
        ev.append(x)
    return {"ev": ev, "init": []}


# ---- generators ------------------------------------------------------------
def pick_edges(edges, n, rng):
    """histories of the specification, without those that others extend"""
    keys = {}
    for h in edges:
        keys[json.dumps([h["R"], h["ops"]], sort_keys=True)] = h
    pre = {json.dumps([h["R"], h["ops"][:-1]], sort_keys=True) for h in edges}
    out = [h for k, h in sorted(keys.items()) if k not in pre]
    total = len(out)
    if n and len(out) > n:
        out = rng.sample(out, n)
    return out, total


def rq(rng, lo=-8, hi=24, den=4):
    return qq(Fraction(rng.randint(lo, hi), den))


def rarr(rng, fld, n, dim, odim=2):
    if fld in ("values", "left", "right", "width", "error_estimates"):
        sh = [n, dim]
    elif fld == "jacobians":
        sh = [n, odim, dim]
    else:
        sh = [n]
    k = int(np.prod(sh))
    if fld in ("region", "error_id"):
        return {"sh": sh, "v": [[rng.randint(0, 5), 1] for _ in range(k)]}
    return {"sh": sh, "v": [rq(rng) for _ in range(k)]}


def rpieces(rng, fld, sizes, dim, odim=2):
    return [rarr(rng, fld, k, dim, odim) for k in sizes]


def rsizes(rng, R, tot):
    s = [0] * R
    for _ in range(tot):
        s[rng.randrange(R)] += 1
    return s


def rdom(rng, dim):
    v = []
    for _ in range(dim):
        a = rng.randint(-4, 4)
        w = rng.choice([1, 2, 3, 4, 8])
        v += [qq(Fraction(a, 2)), qq(Fraction(a, 2) + Fraction(w, 2))]
    return {"sh": [dim, 2], "v": v}


def new(a, dim, cls="sample_set"):
    return {"do": "new", "a": a, "dim": dim, "cls": cls}


def filled(rng, a, R, dim, n, local=False, flds=None, odim=2, cls="sample_set", dom=None, both=0.3, sizes=None):
    """operations that build one set"""
    ops = [new(a, dim, cls)]
    flds = flds if flds is not None else ["values"] + [x for x in FIELDS[1:] if rng.random() < 0.35]
    sizes = sizes or rsizes(rng, R, n)
    for x in flds:
        if local:
            ops.append({"do": "setl", "a": a, "f": x, "xs": rpieces(rng, x, sizes, dim, odim)})
        else:
            ops.append({"do": "set", "a": a, "f": x, "x": rarr(rng, x, n, dim, odim)})
    if not local and rng.random() < both:
        ops.append({"do": "g2l", "a": a})
    if dom:
        ops.append({"do": "dom", "a": a, "x": dom})
    return ops


def order(rng, R):
    o = list(range(R))
    rng.shuffle(o)
    return o
