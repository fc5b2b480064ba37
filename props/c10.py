"""C10: appending, clipping, merging, copying and choosing keep samples paired."""
from props.sets import *

MODELS = [{"module": "MC_Set", "quick": {"Kind": '"edit"', "Depth": 7}, "thorough": {"Kind": '"edit"', "Depth": 8}}]
RULE = ("histories of append/clip/merge/copy/choose operations: one per maximal transition of MC_Set, plus random ones over "
        "all per-sample arrays, dimensions 1-3 (some up to 6), 1-4 processes, sets and discretizations, with refusals")
ASSUMPTIONS = ["processes are simulated in one address space; collectives have MPI's semantics",
               "a part that does not fit may be refused by the processes it concerns only (the others then fail in MPI)"]


def single(rng, i):
    R = rng.choice([1, 1, 2, 3, 4])
    dim = rng.choice([1, 2, 3])
    n = rng.randint(1, 7)
    if i % 25 == 24:
        dim, n = rng.randint(4, 5), rng.choice([12, 30])
    loc = rng.random() < 0.25
    fl = ["values"] + [x for x in FIELDS[1:] if rng.random() < 0.35]
    ops = filled(rng, 1, R, dim, n, local=loc, flds=fl, dom=rdom(rng, dim) if rng.random() < 0.3 else None)
    if rng.random() < 0.3:
        ops.append({"do": "p", "a": 1, "x": rng.choice([[1, 1], [1, 0]])})
    if not loc:
        m = rng.randint(1, 3)
        if rng.random() < 0.3:
            ops.append({"do": "qry", "a": 1})
        if rng.random() < 0.6:
            ops.append({"do": "app", "a": 1, "f": "values", "x": rarr(rng, "values", m, dim)})
            ops.append({"do": "num", "a": 1})
            for x in ("jacobians", "error_estimates"):
                if x in fl:
                    ops.append({"do": "app", "a": 1, "f": x, "x": rarr(rng, x, m, dim)})
            for x in fl:
                if x not in ("values", "jacobians", "error_estimates"):
                    ops.append({"do": "set", "a": 1, "f": x, "x": rarr(rng, x, n + m, dim)})
            ops.append({"do": "num", "a": 1})
    elif rng.random() < 0.5:
        ops.append({"do": "appl", "a": 1, "f": "values", "xs": rpieces(rng, "values", rsizes(rng, R, 3), dim)})
        fl = ["values"]
        ops = [o for o in ops if o["do"] != "setl" or o["f"] == "values"]
    ops.append({"do": "clip", "a": 1, "b": 2, "n": rng.randint(0, n + 3)})
    if rng.random() < 0.5:
        ops.append({"do": "copy", "a": 1, "b": 3})
        ops.append({"do": "set", "a": 1, "f": "values", "x": rarr(rng, "values", 2, dim)})
        ops.append({"do": "l2g", "a": 3})
    s = {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}
    if rng.random() < 0.2:
        s["code"] = rng.choice([[1.0, 2.0 ** -40], [0.0, 2.0 ** -60], [2.0 ** 20, 2.0 ** -20]])     # in full precision
    return s


def localonly(rng, i):
    """quantities held only locally next to global values"""
    R = rng.choice([1, 2, 3])
    n = rng.randint(1, 7)
    ops = filled(rng, 1, R, 1, n, flds=["values", "volumes"], both=0)
    ops.append({"do": "g2l", "a": 1})
    sz = [n // R + (1 if r < n % R else 0) for r in range(R)]
    ops.append({"do": "setl", "a": 1, "f": "probabilities", "xs": rpieces(rng, "probabilities", sz, 1)})
    ops.append({"do": "clip", "a": 1, "b": 2, "n": rng.randint(0, n)})
    ops.append({"do": "num", "a": 2})
    return {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}


def merge(rng, i):
    R = rng.choice([1, 2, 3, 4])
    dim = rng.choice([1, 2])
    d2 = dim if rng.random() < 0.85 else 3 - dim
    dom = rdom(rng, dim)
    ops = filled(rng, 1, R, dim, rng.randint(1, 6), local=rng.random() < 0.3, dom=dom if rng.random() < 0.6 else None)
    dd = None
    if rng.random() < 0.6:
        dd = dom if d2 == dim and rng.random() < 0.6 else rdom(rng, d2)
        if d2 == dim and rng.random() < 0.3:
            # not quite the same domain
            dd = {"sh": dom["sh"], "v": list(dom["v"])}
            k = rng.randrange(len(dd["v"]))
            dd["v"][k] = qq(fr(dd["v"][k]) + rng.choice([-1, 1]) * Fraction(1, rng.choice([8, 16, 64])))
    ops += filled(rng, 2, R, d2, rng.randint(1, 6), local=rng.random() < 0.3, dom=dd)
    ops.append({"do": "merge", "a": 1, "b": 2, "c": 3})
    return {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}


def pair(rng, R, base, din, dout, n, loc, flds=("values",), jac=False):
    sizes = rsizes(rng, R, n)
    ops = []
    for a, d, o in ((base, din, dout), (base + 1, dout, din)):
        fl = list(flds) + [x for x in ("volumes", "probabilities", "error_estimates") if rng.random() < 0.3]
        if a == base and jac:
            fl.append("jacobians")
        ops += filled(rng, a, R, d, n, local=loc, flds=fl, odim=o, sizes=sizes,
                      dom=rdom(rng, d) if rng.random() < 0.4 else None)
        if rng.random() < 0.4:
            ops.append({"do": "ref", "a": a, "x": {"sh": [d], "v": [rq(rng) for _ in range(d)]}})
        if rng.random() < 0.4:
            ops.append({"do": "p", "a": a, "x": rng.choice([[1, 1], [1, 0]])})
    return ops


def disc(rng, i):
    R = rng.choice([1, 2, 3])
    din, dout = rng.randint(1, 3), rng.randint(1, 3)
    kind = rng.choice(["dclip", "dcopy", "dmerge", "dchoose", "dchoose"])
    loc = rng.random() < 0.3
    n = rng.randint(1, 6)
    if i % 25 == 24:
        din, dout, n = rng.randint(1, 6), rng.randint(1, 6), rng.choice([10, 25])
    ops = pair(rng, R, 1, din, dout, n, loc, jac=kind == "dchoose" or rng.random() < 0.3)
    if kind == "dmerge":
        ops = [o for o in ops if o["do"] != "dom"]
        ops += [o for o in pair(rng, R, 3, din, dout, rng.randint(1, 6), rng.random() < 0.3) if o["do"] != "dom"]
        em = rng.random() < 0.5
        m, m2, o = [1, 2, 0, 0, 0, 0], [3, 4, 0, 0, 0, 0], [5, 6, 0, 0, 0, 0]
        if em:
            for k, (a, d) in enumerate(((5, din), (6, dout), (7, din), (8, dout))):
                ops += filled(rng, a, R, d, rng.randint(1, 5), flds=["values"])
            m, m2, o = [1, 2, 0, 5, 6, 0], [3, 4, 0, 7, 8, 0], [9, 10, 0, 11, 12, 0]
        ops.append({"do": "dmerge", "a": 1, "m": m, "m2": m2, "o": o})
    elif kind == "dchoose":
        ins = rng.sample(range(din), rng.randint(1, din))
        outc = rng.sample(range(dout), rng.randint(1, dout))
        ops.append({"do": "dchoose", "a": 1, "m": [1, 2, 0, 0, 0, 0], "o": [3, 4, 0, 0, 0, 0], "ins": ins, "outc": outc})
    else:
        m, o = [1, 2, 0, 0, 0, 0], [3, 4, 0, 0, 0, 0]
        if rng.random() < 0.5:
            ops += filled(rng, 3, R, dout, 2, flds=["values", "probabilities"]) + filled(rng, 4, R, din, 3, flds=["values"])
            m, o = [1, 2, 3, 4, 0, 0], [5, 6, 7, 8, 0, 0]
        ops.append({"do": kind, "a": 1, "m": m, "o": o, "n": rng.randint(0, n + 1)})
    return {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}


def scenarios(tier, rng):
    n = 200 if tier == "quick" else 2500
    return ([single(rng, i) for i in range(n)] + [merge(rng, i) for i in range(n // 2)]
            + [localonly(rng, i) for i in range(n // 6)] + [disc(rng, i) for i in range(n)])


def from_model(edges, tier, rng):
    return pick_edges(edges["MC_Set"], 500 if tier == "quick" else 12000, rng)[0]


def execute(s):
    return run_history(s)
