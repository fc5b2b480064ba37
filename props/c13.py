"""C13: pointers always refer to the discretization's current sets."""
import json
from props.discs import *
from props.sets import pick_edges, order

MODELS = [{"module": "MC_Disc", "quick": {"Depth": 6}, "thorough": {"Depth": 9}},
          {"module": "MC_Disc", "quick": {"Discard": "FALSE"}, "violates": "Fresh"}]
RULE = ("histories of member replacements (valid, wrong kind, wrong dimension), pointer constructions, output-probability "
        "constructions, copies and solves on one discretization: one per transition of MC_Disc plus random ones of up to "
        "14 steps, some mostly of pointers, over pools of concrete sets in which every nearest-cell owner is unique, 1-4 processes; some of 20-90 samples in up to 5 dimensions")
ASSUMPTIONS = ["members are changed by replacement (possibly by themselves, after their samples were given anew) or by re-assigning bin probabilities",
               "processes are simulated in one address space; collectives have MPI's semantics"]


def scenarios(tier, rng):
    out = []
    for i in range(350 if tier == "quick" else 6000):
        R = rng.choice([1, 1, 2, 3, 4])
        pool = rpool(rng, big=i % 30 == 29)
        out.append({"R": R, "pool": pool, "ops": rops(rng, pool, rng.randint(5, 14)), "seed": i, "order": order(rng, R)})
    # all members there: mostly pointers, in both forms
    for i in range(80 if tier == "quick" else 1000):
        R = rng.choice([1, 2, 3, 4])
        pool = rpool(rng)
        ops = rops(rng, pool, rng.randint(5, 12), ["io", "ii", "oo", "oo", "gptr", "gptr", "l2g", "set", "g2l"], True)
        for o in ops:
            if o["do"] in ("io", "ii", "oo"):
                o["glob"] = rng.random() < 0.4
        out.append({"R": R, "pool": pool, "ops": ops, "seed": 20000 + i, "order": order(rng, R)})
    return out


def from_model(edges, tier, rng):
    hs, _ = pick_edges([{"R": 1, "ops": h} for h in edges["MC_Disc"]], 900 if tier == "quick" else 12000, rng)
    out = []
    for i, h in enumerate(hs):
        R = rng.choice([1, 1, 2, 3])
        pool = rpool(rng)
        ops = []
        for o in h["ops"]:
            o = dict(o)
            if o["do"] == "sfp":
                o = sfp_op(rng, pool)
            elif o["do"] == "set" and o["x"] == 0:
                o["w"] = rng.randrange(4)
            ops.append(o)
        out.append({"R": R, "pool": pool, "ops": ops, "seed": i, "order": order(rng, R)})
    return out


def execute(s):
    return run_disc(s)
