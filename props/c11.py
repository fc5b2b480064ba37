"""C11: equality of sets and discretizations means equality of all their data."""
from props.sets import *

MODELS = [{"module": "MC_Set", "quick": {"Kind": '"eq"', "Depth": 5}, "thorough": {"Kind": '"eq"', "Depth": 6}}]
RULE = ("pairs of sets and discretizations built independently or copied and then changed in at most one recorded quantity "
        "(arrays, shapes, absence, not-a-number entries, labels, cluster maps, weights, random-variable, mixture and kernel "
        "models, member sets, pointers), compared both ways; plus one history per maximal transition of MC_Set")
ASSUMPTIONS = ["the k-d tree cache is not recorded data: compared sets were both never queried or are copies"]

PARAMS = [["rv", [["norm", [["loc", [1, 2]], ["scale", [1, 4]]]]]], ["rv", [["norm", [["loc", [1, 2]], ["scale", [1, 2]]]]]],
          ["rv", [["uniform", [["loc", [0, 1]], ["scale", [1, 1]]]], ["norm", [["loc", [0, 1]], ["scale", [1, 1]]]]]],
          ["gmm", [[[[1, 2]], [[3, 2]]], [[[[1, 1]]], [[[1, 4]]]], [[1, 2], [1, 2]]]],
          ["gmm", [[[[1, 2]], [[5, 2]]], [[[[1, 1]]], [[[1, 4]]]], [[1, 2], [1, 2]]]],
          ["gmm", [[[[1, 2]]], [[[[1, 1]]]], [[1, 1]]]],
          ["kde", [[[[[0, 1], [1, 1], [3, 1]]]], [[1, 1]]]], ["kde", [[[[[0, 1], [1, 1], [5, 1]]]], [[1, 1]]]],
          ["kde", [[[[[0, 1], [1, 1], [3, 1]], [[1, 1], [2, 1], [2, 1], [4, 1]]]], [[1, 2], [1, 2]]]]]
# families whose members differ in one detail
RVS = [["rv", [["norm", d]]] for d in ([], [["loc", [1, 2]]], [["scale", [1, 4]]], [["loc", [1, 2]], ["scale", [1, 4]]],
                                       [["loc", [0, 0]], ["scale", [1, 4]]], [["loc", [1, 2]], ["scale", [0, 0]]])] + [
    ["rv", [["uniform", [["loc", [1, 2]]]]]], ["rv", [["norm", [["loc", [1, 2]]]], ["norm", []]]]]
DAT = [[0, 1], [1, 1], [3, 1]]
KDW = [["kdw", [[[k]], w]] for k in ([DAT, None, None], [DAT, None, [1, 2]], [DAT, None, [1, 4]], [DAT, [[1, 2], [1, 4], [1, 4]], None],
                                     [DAT, [[1, 4], [1, 2], [1, 4]], None], [DAT, [[1, 4], [1, 2], [1, 4]], [1, 2]], None)
       for w in ([[1, 1]], [[1, 2]], [[0, 0]])] + [["kdw", [[[[DAT, None, None], None]], [[1, 1], [0, 1]]]],
                                                  ["kdw", [[[None, [DAT, None, None]]], [[1, 1], [0, 1]]]]]
GMS = [["gmm", [[[[1, 2]], [[3, 2]]], [[[[1, 1]]], [[[1, 4]]]], w]] for w in ([[1, 2], [1, 2]], [[1, 4], [3, 4]], [[0, 0], [1, 2]], [[1, 2], [0, 0]])]
FAMILIES = [("prob_parameters", RVS), ("prob_parameters_init", RVS), ("prob_parameters", KDW), ("prob_parameters", GMS),
            ("labels", [["list", ["a", "b"]], ["tup", ["a", "b"]], ["list", ["a"]], ["list", ["b", "a"]]]),
            ("cluster_maps", [["arrs", [[[0, 1]]]], ["arrs", [[[0, 1], [0, 1]]]], ["arrs", [[[0, 1]], [[0, 1]]]]]),
            ("weights", [["vec", [[1, 2], [1, 2]]], ["list", [0.5, 0.5]], ["vec", [[1, 2]]], ["none", None]])]
PARAMS = PARAMS + RVS + GMS


def opqs(rng):
    k = rng.choice(["labels", "cluster_maps", "weights", "weights_init", "prob_type_init", "prob_parameters",
                    "prob_parameters_init"])
    if k == "labels":
        t = ["list", rng.choice([["a", "b"], ["a", "c"], ["a"], []])]
    elif k == "cluster_maps":
        t = ["arrs", rng.choice([[[[0, 1], [1, 1]], [[2, 1]]], [[[0, 1], [2, 1]], [[1, 1]]], [[[0, 1], [1, 1]]],
                                 [[[0, 1], [1, 1]], [[2, 1]], [[3, 1]]]])]
    elif k in ("weights", "weights_init"):
        t = rng.choice([["vec", [[1, 2], [1, 2]]], ["vec", [[1, 4], [3, 4]]], ["vec", [[1, 1]]],
                        ["arrs", [[[1, 2]], [[1, 2], [1, 4]]]], ["arrs", [[[1, 2]], [[1, 2], [1, 8]]]]])
    elif k == "prob_type_init":
        t = ["str", rng.choice(["rv", "kde"])]
    else:
        t = rng.choice(PARAMS)
    return {"do": "opq", "f": k, "tok": t}


def base(rng, a, dim, n):
    cls = rng.choice(["sample_set", "voronoi_sample_set", "rectangle_sample_set"])
    ops = [new(a, dim, cls)]
    for x in FIELDS:
        if rng.random() < 0.3:
            y = rarr(rng, x, n, dim)
            if rng.random() < 0.2 and x not in ("region", "error_id"):
                y["v"][rng.randrange(len(y["v"]))] = rng.choice([[0, 0], [1, 0], [-1, 0]])
            ops.append({"do": "set", "a": a, "f": x, "x": y})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append(dict(opqs(rng), a=a))
    if rng.random() < 0.3:
        ops.append({"do": "dom", "a": a, "x": rdom(rng, dim)})
    if rng.random() < 0.3:
        ops.append({"do": "ref", "a": a, "x": {"sh": [dim], "v": [rq(rng) for _ in range(dim)]}})
    if rng.random() < 0.3:
        ops.append({"do": "p", "a": a, "x": rng.choice([[1, 1], [1, 0]])})
    if rng.random() < 0.3:
        ops.append({"do": "ptype", "a": a, "x": rng.choice(["voronoi", "rv"])})
    if rng.random() < 0.3:
        ops.append({"do": "label", "a": a, "x": "q"})
    if rng.random() < 0.3 and cls != "rectangle_sample_set" and any(o.get("f") == "values" for o in ops):
        ops.append({"do": "g2l", "a": a})
    return ops


def change(rng, a, ops, dim, n):
    """one operation that may change the set"""
    c = rng.randrange(9)
    sets_ = [o for o in ops if o["do"] == "set"]
    if c <= 2 and sets_:
        o = rng.choice(sets_)
        y = {"sh": list(o["x"]["sh"]), "v": [list(v) for v in o["x"]["v"]]}
        k = rng.randrange(len(y["v"]))
        y["v"][k] = [y["v"][k][0] + 1, 1] if o["f"] in ("region", "error_id") else rng.choice([[0, 0], [77, 4]])
        return [{"do": "set", "a": a, "f": o["f"], "x": y}]
    if c == 3 and sets_:
        o = rng.choice(sets_)
        return [{"do": "unset", "a": a, "f": o["f"]}]
    if c == 4:
        x = rng.choice(FIELDS)
        return [{"do": "set", "a": a, "f": x, "x": rarr(rng, x, rng.choice([1, n, n + 1]), dim)}]
    if c == 5:
        had = {o["f"] for o in ops if o["do"] == "opq"}
        q = opqs(rng)
        for _ in range(20):
            if q["f"] in had or not had:
                break
            q = opqs(rng)
        return [dict(q, a=a)]
    if c == 6:
        return [rng.choice([{"do": "dom", "a": a, "x": rdom(rng, dim)}, {"do": "label", "a": a, "x": "z"},
                            {"do": "ptype", "a": a, "x": "kde"}, {"do": "p", "a": a, "x": [3, 1]},
                            {"do": "ref", "a": a, "x": {"sh": [dim], "v": [rq(rng) for _ in range(dim)]}}])]
    if c == 7:
        x = rng.choice(FIELDS)
        return [{"do": "setl", "a": a, "f": x, "xs": rpieces(rng, x, [2], dim)}]
    return []


def scenario(rng, i):
    dim, n = rng.choice([1, 2]), rng.randint(1, 3)
    ops = base(rng, 1, dim, n)
    kind = rng.randrange(3)
    if kind == 0:
        other = [dict(o, a=2) for o in ops]
    elif kind == 1:
        other = [{"do": "copy", "a": 1, "b": 2}]
    else:
        other = base(rng, 2, rng.choice([dim, 3 - dim]), n)
    ch = change(rng, rng.choice([1, 2]), ops, dim, n) if kind < 2 else []
    eqs = [{"do": "eq", "a": 1, "b": 2}, {"do": "eq", "a": 2, "b": 1}]
    return {"R": 1, "ops": ops + other + (eqs if rng.random() < 0.4 else []) + ch + eqs, "seed": i}


def disc_scenario(rng, i):
    n = rng.randint(1, 3)
    ops, m, m2 = [], [], []
    a = 0
    for k in range(6):
        if k < 2 or rng.random() < 0.5:
            a += 1
            fl = ["values"] + (["probabilities"] if rng.random() < 0.5 else [])
            o = filled(rng, a, 1, 1, n, flds=fl, both=0)
            ops += o
            a += 1
            ops += [{"do": "copy", "a": a - 1, "b": a}]
            m.append(a - 1)
            m2.append(a)
        else:
            m.append(0)
            m2.append(0)
    nop = {"sh": [-1], "v": []}
    p1 = [{"sh": [n], "v": [[rng.randint(0, 2), 1] for _ in range(n)]} if rng.random() < 0.4 else dict(nop) for _ in range(6)]
    p2 = [dict(x) for x in p1]
    c = rng.randrange(6)
    if c == 0:
        k = rng.randrange(2, 6)
        m2[k] = 0 if m2[k] else m2[0]
    elif c == 1:
        k = rng.randrange(6)
        if m2[k]:
            ops.append({"do": "set", "a": m2[k], "f": "volumes", "x": rarr(rng, "volumes", n, 1)})
    elif c == 2:
        k = rng.randrange(6)
        p2[k] = {"sh": [n], "v": [[rng.randint(0, 2), 1] for _ in range(n)]} if rng.random() < 0.6 else dict(nop)
    elif c == 3:
        k = rng.randrange(6)
        p2[k] = {"sh": [n + 1], "v": [[1, 1]] * (n + 1)}
    elif c == 4:
        ops += filled(rng, a + 1, 1, 1, n, flds=["values"], both=0, cls="voronoi_sample_set")
        m2[rng.randrange(6)] = a + 1
    ops.append({"do": "deq", "a": 1, "m": m, "m2": m2, "p1": p1, "p2": p2})
    ops.append({"do": "deq", "a": 1, "m": m2, "m2": m, "p1": p2, "p2": p1})
    return {"R": 1, "ops": ops, "seed": i}


def systematic(rng):
    """every recorded quantity on its own: present against absent, and one entry changed"""
    out, tiny = [], []
    eqs = [{"do": "eq", "a": 1, "b": 2}, {"do": "eq", "a": 2, "b": 1}]
    for dim in (1, 2):
        n = 3
        b = [new(1, dim)] + [{"do": "set", "a": 1, "f": "values", "x": rarr(rng, "values", n, dim)}]
        for x in FIELDS:
            for loc in (False, True):
                def op(a, y):
                    return {"do": "setl", "a": a, "f": x, "xs": [y]} if loc else {"do": "set", "a": a, "f": x, "x": y}
                y = rarr(rng, x, n, dim)
                out.append(b + [{"do": "copy", "a": 1, "b": 2}, op(2, y)] + eqs)
                z = {"sh": list(y["sh"]), "v": [list(v) for v in y["v"]]}
                z["v"][-1] = [z["v"][-1][0] + 1, 1] if x in ("region", "error_id") else [77, 4]
                out.append(b + [op(1, y), {"do": "copy", "a": 1, "b": 2}, op(2, z)] + eqs)
        for o in [{"do": "dom", "x": rdom(rng, dim)}, {"do": "label", "x": "z"}, {"do": "ptype", "x": "kde"},
                  {"do": "p", "x": [3, 1]}, {"do": "g2l"},
                  {"do": "ref", "x": {"sh": [dim], "v": [rq(rng) for _ in range(dim)]}}] + [opqs(rng) for _ in range(14)]:
            out.append(b + [{"do": "copy", "a": 1, "b": 2}, dict(o, a=2)] + eqs)
        # carried values that differ in one detail, in every pair of a family (a value against an equal one included)
        for fld, fam in FAMILIES:
            pairs = [(x, y) for x in fam for y in fam]
            for x, y in pairs if len(pairs) < 70 else rng.sample(pairs, 70):
                out.append(b + [{"do": "copy", "a": 1, "b": 2}, {"do": "opq", "a": 1, "f": fld, "tok": x},
                                {"do": "opq", "a": 2, "f": fld, "tok": y}] + eqs)
        # entries that differ in the last digits, or that are all tiny
        for x in FIELDS + ["ref", "dom"]:
            if x in ("region", "error_id"):
                continue
            for code in ([1.0, 2.0 ** -44], [0.0, 2.0 ** -60], [2.0 ** 20, 2.0 ** -24]):
                y = (rarr(rng, x, n, dim) if x in FIELDS else rdom(rng, dim) if x == "dom"
                     else {"sh": [dim], "v": [rq(rng) for _ in range(dim)]})
                z = {"sh": list(y["sh"]), "v": [list(v) for v in y["v"]]}
                k = rng.randrange(len(y["v"]))
                z["v"][k] = qq(Fraction(*z["v"][k]) + 1)
                o = [{"do": "set" if x in FIELDS else x, "a": 1, "f": x, "x": y}, {"do": "set" if x in FIELDS else x, "a": 2, "f": x, "x": z}]
                tiny.append((code, b + [{"do": "copy", "a": 1, "b": 2}] + o + eqs))
                tiny.append((code, b + [{"do": "copy", "a": 1, "b": 2}] + [o[0], dict(o[0], a=2)] + eqs))
        # the same entries in another shape
        for x in ("volumes", "probabilities", "radii", "densities", "error_id", "jacobians", "error_estimates"):
            for m in (1, 2, 4):
                v = [[1, 1]] * m
                shs = [[m], [m, 1], [1, m], [m, 1, 1], [1, m, 1]]
                s1, s2 = rng.sample(shs, 2)
                out.append(b + [{"do": "copy", "a": 1, "b": 2}, {"do": "set", "a": 1, "f": x, "x": {"sh": s1, "v": v}},
                                {"do": "set", "a": 2, "f": x, "x": {"sh": s2, "v": v}}] + eqs)
        out.append(b + [{"do": "dom", "a": 1, "x": rdom(rng, dim)}, {"do": "copy", "a": 1, "b": 2},
                        {"do": "norm", "a": 2}] + eqs)
    return [{"R": 1, "ops": o, "seed": i} for i, o in enumerate(out)] + [
        {"R": 1, "ops": o, "seed": i, "code": c} for i, (c, o) in enumerate(tiny)]


def scenarios(tier, rng):
    n = 500 if tier == "quick" else 6000
    return systematic(rng) + [scenario(rng, i) for i in range(n)] + [disc_scenario(rng, i) for i in range(n // 2)]


def from_model(edges, tier, rng):
    return pick_edges(edges["MC_Set"], 400 if tier == "quick" else 6000, rng)[0]


def execute(s):
    return run_history(s)
