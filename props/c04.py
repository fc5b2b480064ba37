"""C04: a query returns the cell that owns a point."""
from props.sets import *

MODELS = [{"module": "MC_Query", "quick": {"Depth": 5}, "thorough": {"Depth": 8}},
          {"module": "MC_Query", "quick": {"Discard": "FALSE"}, "violates": "Fresh"}]
RULE = ("histories interleaving queries with every operation that changes a Voronoi set's values or norm (one per "
        "transition of MC_Query, made concrete), and random rectangle, grid and ball sets with points on faces, "
        "overlaps and outside; k = 1..5, norms 1, 2, inf, dimensions 1-6, up to 80 samples, 1-3 processes")
ASSUMPTIONS = ["k does not exceed the number of samples of a Voronoi set",
               "a set only distributed locally is gathered before it is queried"]


def qpts(rng, dim, near=(), m=None):
    out = []
    for _ in range(m or rng.randint(1, 5)):
        if near and rng.random() < 0.4:
            b = rng.choice(near)
            out.append([qq(fr(c) + Fraction(rng.choice([0, 0, 1, -1, 2]), 4)) for c in b])
        else:
            out.append(rpoint(rng, dim))
    return out


def concrete(rng, h):
    R = rng.choice([1, 1, 2, 3])
    dim = rng.choice([1, 2, 2, 3])
    ops = [new(1, dim, rng.choice(["sample_set", "voronoi_sample_set"]))]
    dom = rdom(rng, dim)
    ops.append({"do": "dom", "a": 1, "x": dom})
    n = {3: rng.randint(3, 6), 2: rng.randint(1, 2)}
    a, ng, nl, top = 1, n[3], None, 1

    def setv(k):
        return {"do": "set", "a": a, "f": "values", "x": {"sh": [k, dim], "v": sum(rpoints(rng, k, dim), [])}}
    ops.append(setv(ng))
    for o in h:
        if o == "query":
            ops.append({"do": "query", "a": a, "pts": qpts(rng, dim), "k": rng.randint(1, min(3, ng))})
        elif o == "set":
            ng = n[3]
            ops.append(setv(ng))
        elif o == "setfew":
            ng = n[2]
            ops.append(setv(ng))
        elif o == "app":
            ops.append({"do": "app", "a": a, "f": "values", "x": {"sh": [1, dim], "v": rpoint(rng, dim)}})
            ng += 1
        elif o == "clip":
            k = max(1, ng - 1)
            top += 1
            ops.append({"do": "clip", "a": a, "b": top, "n": k})
            a, ng = top, k
            nl = None if nl is None else k
        elif o == "copy":
            top += 1
            ops.append({"do": "copy", "a": a, "b": top})
            if rng.random() < 0.7:
                a = top
        elif o == "g2l":
            ops.append({"do": "g2l", "a": a})
            nl = ng
        elif o == "setl":
            sizes = rsizes(rng, R, n[3])
            ops.append({"do": "setl", "a": a, "f": "values", "xs": rpieces(rng, "values", sizes, dim)})
            nl = n[3]
        elif o == "l2g":
            ops.append({"do": "l2g", "a": a})
            ng = nl
        elif o == "p":
            ops.append({"do": "p", "a": a, "x": rng.choice([[1, 1], [2, 1], [1, 0]])})
        else:
            ops.append({"do": o, "a": a})
    ops.append({"do": "query", "a": a, "pts": qpts(rng, dim), "k": rng.randint(1, min(5, ng))})
    return {"R": R, "ops": ops, "seed": 0, "order": order(rng, R)}


def boxes(rng, i):
    R = rng.choice([1, 1, 2])
    kind = rng.choice(["rect", "rect", "cart", "ball", "ball", "vor"]) if i % 10 != 9 else "vor"
    dim = rng.choice([1, 2, 3]) if kind != "vor" else rng.choice([1, 2, 3, 4])
    big = i % 20 > 17
    if big and kind != "cart":
        dim = rng.choice([1, 2, 4, 5, 6])
    p = rpart(rng, dim, kind, nmax=7)
    if big and kind == "vor":
        p["vals"] = rpoints(rng, rng.choice([30, 80]), dim, den=4 if dim > 1 else 16)
    if kind in ("rect", "ball") and (big or rng.random() < 0.5):
        # more, overlapping, shapes
        for _ in range(rng.randint(1, 4) if not big else 15):
            q = rpart(rng, dim, kind)
            for k in ("left", "right", "vals", "rad"):
                if k in p:
                    p[k] = p[k] + q[k]
    if kind == "vor":
        ops = [new(1, dim, "sample_set"), {"do": "p", "a": 1, "x": {"1": [1, 1], "2": [2, 1], "inf": [1, 0]}[p["p"]]},
               {"do": "set", "a": 1, "f": "values", "x": {"sh": [len(p["vals"]), dim], "v": sum(p["vals"], [])}}]
        near, kmax = p["vals"], len(p["vals"])
    elif p["kind"] == "rect":
        ops = [new(1, dim, "cartesian_sample_set" if p.get("xi") else "rectangle_sample_set"),
               dict({"do": "rsetup", "a": 1, "left": p["left"], "right": p["right"]}, **({"xi": p["xi"]} if p.get("xi") else {}))]
        near, kmax = p["left"] + p["right"], 5
    else:
        ops = [new(1, dim, "ball_sample_set"),
               {"do": "p", "a": 1, "x": {"1": [1, 1], "2": [2, 1], "inf": [1, 0]}[p["p"]]},
               {"do": "bsetup", "a": 1, "vals": p["vals"], "rad": p["rad"]}]
        near, kmax = p["vals"], 5
    extra = rng.random()
    if p["kind"] == "rect" and extra < 0.2:
        ops += [{"do": "dom", "a": 1, "x": rdom(rng, dim)}, {"do": "norm", "a": 1}]
        near = []
    elif kind == "ball" and extra < 0.2:
        ops.append({"do": "p", "a": 1, "x": rng.choice([[1, 1], [2, 1], [1, 0]])})
    elif extra > 0.8:
        ops.append({"do": "g2l", "a": 1})
    for _ in range(rng.randint(1, 2)):
        ops.append({"do": "query", "a": 1, "pts": qpts(rng, dim, near, rng.randint(1, 6) if not big else 25),
                    "k": rng.randint(1, min(5 if not big else 12, kmax)),
                    "kw": rng.random() < 0.5, "tile": rng.choice([1] * 9 + [70, 1100])})
    s = {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}
    if rng.random() < 0.25 and not any(o["do"] == "norm" for o in ops):
        s["code"] = [0.0, 2.0 ** rng.choice([-60, -40, -30, 20])]        # any unit of length
    return s


def crowd(rng, i):
    """many samples and points, where approximate searches show"""
    dim = rng.choice([2, 2, 3])
    vals = rpoints(rng, 120, dim, den=8)
    return {"R": 1, "seed": i, "order": [0], "ops": [
        new(1, dim, "sample_set"), {"do": "p", "a": 1, "x": rng.choice([[1, 1], [2, 1], [1, 0]])},
        {"do": "set", "a": 1, "f": "values", "x": {"sh": [120, dim], "v": sum(vals, [])}},
        {"do": "query", "a": 1, "pts": qpts(rng, dim, vals, 120), "k": rng.choice([1, 1, 2]), "tile": rng.choice([1, 10])}]}


def scenarios(tier, rng):
    return [crowd(rng, i) for i in range(12 if tier == "quick" else 60)] + [boxes(rng, i) for i in range(500 if tier == "quick" else 6000)]


def from_model(edges, tier, rng):
    hs = sorted({tuple(h) for h in edges["MC_Query"]})
    pre = {h[:-1] for h in hs}
    hs = [h for h in hs if h not in pre]
    m = 500 if tier == "quick" else 6000
    if len(hs) > m:
        hs = rng.sample(hs, m)
    return [concrete(rng, h) for h in hs]


def execute(s):
    return run_history(s)
