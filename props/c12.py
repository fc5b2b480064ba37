"""C12: normalising a domain and undoing it are inverse coordinate changes."""
from props.sets import *
from props.c04 import qpts

MODELS = [{"module": "MC_Set", "quick": {"Kind": '"norm"', "Depth": 6}, "thorough": {"Kind": '"norm"', "Depth": 8}}]
RULE = ("histories of domain/data/distribute/normalise/undo operations: one per maximal transition of MC_Set, plus random ones "
        "over values, bounds, reference values, Jacobians and error estimates, held globally, locally or both, dimensions 1-6, copies taken while normalised, "
        "1-4 processes; caller arrays are compared with their copies after every step")
ASSUMPTIONS = ["error estimates and widths are unspecified while normalised, and restored by undoing",
               "a set is normalised once before it is undone"]


def scenario(rng, i):
    R = rng.choice([1, 1, 2, 3, 4])
    dim = rng.choice([1, 2, 3])
    n = rng.randint(1, 5)
    if i % 25 == 24:
        dim, n = rng.randint(4, 6), rng.choice([7, 20])
    loc = rng.random() < 0.3
    fl = ["values"] + [x for x in ("jacobians", "error_estimates", "left", "right", "volumes", "probabilities", "radii")
                       if rng.random() < 0.4]
    ops = filled(rng, 1, R, dim, n, local=loc, flds=fl, both=0.5)
    if rng.random() < 0.9:
        ops.append({"do": "dom", "a": 1, "x": rdom(rng, dim)})
        if rng.random() < 0.3:
            if not loc:
                ops.append({"do": "bounds", "a": 1})
            else:
                ops.append({"do": "boundsl", "a": 1})
    if rng.random() < 0.5:
        ops.append({"do": "ref", "a": 1, "x": {"sh": [dim], "v": [rq(rng) for _ in range(dim)]}})
    if rng.random() < 0.3:
        ops.append({"do": "bbox", "a": 1} if not loc else {"do": "num", "a": 1})
    a = 1
    ask = (lambda b: [{"do": "query", "a": b, "pts": qpts(rng, dim), "k": 1}] if not loc and dim < 4 and rng.random() < 0.3 else [])
    ops += ask(a)
    move = "error_estimates" not in fl and not any(o["do"] in ("bounds", "boundsl") for o in ops)
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.2:
            ops.append({"do": "undo", "a": a})
        ops.append({"do": "norm", "a": a})
        ops += ask(a)
        if rng.random() < 0.2 and not loc and a == 1:
            ops.append({"do": "set", "a": a, "f": "values", "x": rarr(rng, "values", n, dim)})
        if rng.random() < 0.25 and move:
            ops.append({"do": "l2g" if loc else "g2l", "a": a})
        if rng.random() < 0.3:
            ops.append({"do": "copy", "a": a, "b": a + 1})
            if rng.random() < 0.5:
                ops.append({"do": "undo", "a": a})
            a += 1
            if rng.random() < 0.25 and move:
                ops.append({"do": "l2g" if loc else "g2l", "a": a})
        ops.append({"do": "undo", "a": a})
        ops += ask(a)
    return {"R": R, "ops": ops, "seed": i, "order": order(rng, R)}


def scenarios(tier, rng):
    n = 500 if tier == "quick" else 6000
    return [scenario(rng, i) for i in range(n)]


def from_model(edges, tier, rng):
    return pick_edges(edges["MC_Set"], 500 if tier == "quick" else 8000, rng)[0]


def execute(s):
    return run_history(s)
