"""C02: emulated points share the probability of their bin equally."""
from props.discs import *
from props.sets import rsizes, order

MODELS = [{"module": "MC_Disc", "quick": {"Depth": 6}, "thorough": {"Depth": 9}},
          {"module": "MC_Inverse", "quick": {"MaxR": 2}, "thorough": {"MaxR": 3}}]
RULE = ("histories ending in solves on emulated points: member replacements, simple-function constructions, other solves "
        "and pointer constructions before; emulated points held globally or in irregular local pieces, empty ones "
        "included; norms 1, 2, inf; all four kinds of output partition; 1-5 processes; some of 20-90 samples in up to 5 dimensions")
ASSUMPTIONS = ["members are changed by replacement or by re-assigning bin probabilities, not by editing their values in place",
               "processes are simulated in one address space; collectives have MPI's semantics"]


def scenario(rng, i):
    R = rng.choice([1, 1, 2, 3, 5])
    pool = rpool(rng, n=rng.randint(1, 8), big=i % 30 == 29)
    for k in (7, 8):
        if pool[k - 1]["place"] == "l":
            pool[k - 1]["sizes"] = rsizes(rng, R, len(pool[k - 1]["vals"]))
    m = {"in": 1, "out": 3, "op": 5, "ei": 7, "eo": 0}
    ops = [{"do": "new", "m": m}]
    w = ["set"] * 5 + ["emu"] * 4 + ["prob", "vemu", "pset", "sfp", "io", "ii", "cp"]
    body = rops(rng, pool, rng.randint(2, 9), w)[1:] if rng.random() < 0.7 else []
    n0 = len(pool)
    have = set(m)
    for o in body:
        if o["do"] == "set" and (o["x"] == 0 or o["x"] > 10 or o["f"] == "eo"):
            continue
        ops.append(o)
    ops.append({"do": "emu", "glob": rng.random() < 0.7})
    # a least size of probabilities there is not
    pexp = -40 if i % 4 == 0 and not any(o["do"] == "sfp" for o in ops) else 0
    return {"R": R, "pool": pool, "ops": ops, "seed": i, "pexp": pexp, "order": order(rng, R)}


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(500 if tier == "quick" else 6000)]


def execute(s):
    return run_disc(s)
