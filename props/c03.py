"""C03: transferring probability between partitions conserves it cell by cell."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *
from props.sets import rsizes, order

MODELS = [{"module": "MC_Transfer", "quick": {"NOld": 3, "NNew": 2, "NEmu": 3}, "thorough": {"NOld": 3, "NNew": 2, "NEmu": 5}},
          {"module": "MC_Transfer", "quick": {"NOld": 2, "NNew": 2, "NEmu": 4}, "thorough": {"NOld": 3, "NNew": 3, "NEmu": 3}}]
RULE = ("chains of one to five transfers (direct, through emulated points, from a discretization's inputs or emulated "
        "inputs) among pools of four sets of all cell kinds and norms; sources held globally, distributed or only "
        "locally in irregular pieces; repeated transfers into and out of the same set; mismatched dimensions; 1-5 processes; some of up to 70 points in up to 4 dimensions")
ASSUMPTIONS = ["processes are simulated in one address space; collectives have MPI's semantics",
               "results whose exact denominator exceeds 10^4 are not compared"]


def total(rng, p):
    """some probabilities that do not sum to one"""
    if rng.random() > 0.2:
        return p
    m = rng.choice([Fraction(1, 2), Fraction(7, 8), Fraction(9, 8), 3])
    return [qq(fr(x) * m) for x in p]


def scenario(rng, i):
    R = rng.choice([1, 1, 2, 3, 5])
    dim = rng.choice([1, 1, 2])
    pool = []
    big = i % 25 == 24
    if big:
        dim = rng.choice([1, 2, 3, 4])
    parts = [rpart(rng, dim, nmax=12 if big else 5) for _ in range(2)] + [rpart(rng, dim, "vor", nmax=12 if big else 5) for _ in range(2)]

    def pts(n):
        out = []
        while len(out) < n:
            x = [qq(Fraction(rng.randint(-16, 48) * 2 + 1, 16)) for _ in range(dim)]
            if not any(has_tie(p, x) for p in parts):
                out.append(x)
        return out
    for p in parts:
        if p["kind"] == "vor":
            p["vals"] = [x for x in p["vals"]]
    # Voronoi generators must not tie in the other Voronoi sets when they are moved as points
    for a in range(2, 4):
        for t in range(50):
            if any(has_tie(q, v) for q in parts if q is not parts[a] for v in parts[a]["vals"]):
                parts[a] = rpart(rng, dim, "vor", nmax=5)
                parts[a]["vals"] = [[qq(fr(c) + Fraction(2 * rng.randint(0, 7) + 1, 64)) for c in v] for v in parts[a]["vals"]]
            else:
                break
    if any(has_tie(q, v) for p in parts for q in parts if q is not p and p["kind"] == "vor" for v in p["vals"]):
        return scenario(rng, i)
    for p in parts:
        vals = p["vals"] if p["kind"] == "vor" else []
        has = rng.random() < 0.6
        pool.append({"role": "cells", "dim": dim, "part": p, "vals": vals, "p": total(rng, rprobs(rng, ncells(p))) if has else [],
                     "place": rng.choice(["g", "gl"])})
    pool[2]["p"] = pool[2]["p"] or rprobs(rng, len(pool[2]["vals"]))
    # points: emulated sets, one carrying probability
    for k in range(2):
        n = rng.randint(1, 7) if not big else rng.choice([30, 70])
        o = {"role": "pts", "dim": dim, "part": {"kind": "none"}, "vals": pts(n), "p": total(rng, rprobs(rng, n)) if k == 0 else [],
             "place": rng.choice(["g", "gl", "l"])}
        if o["place"] == "l":
            o["sizes"] = rsizes(rng, R, n)
        pool.append(o)
    n = rng.randint(1, 3)
    wrong = rpart(rng, dim + 1, "vor")
    pool.append({"role": "cells", "dim": dim + 1, "part": wrong, "vals": wrong["vals"], "p": rprobs(rng, len(wrong["vals"])), "place": "g"})
    have = [bool(o["p"]) for o in pool]
    ops = [{"do": "new"}]
    em = 0
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["mc", "mc", "em", "disc", "dise"])
        if rng.random() < 0.08:
            ops.append({"do": rng.choice(["mc", "disc"]), "a": 7, "b": rng.choice([1, 2, 3, 4]), "c": 0} if rng.random() < 0.5
                       else {"do": "em", "a": 3, "b": 4, "c": 7})
            continue
        if k == "em":
            if em:
                continue
            a = rng.choice([j for j in range(4) if have[j]]) + 1
            b = rng.choice([j for j in range(1, 5) if j != a])
            ops.append({"do": "em", "a": a, "b": b, "c": rng.choice([5, 6])})
            em += 1
        elif k == "dise":
            b = rng.randint(1, 4)
            # without probabilities it must refuse
            a = rng.choice([5, 5, 5, 6])
            ops.append({"do": "disc", "a": a, "b": b, "c": 0, "emu": True})
            if a == 6:
                continue
        else:
            src = [j for j in (2, 3, 4) if have[j]]
            a = rng.choice(src) + 1
            if k == "disc" and pool[a - 1]["role"] == "pts" and pool[a - 1]["place"] == "l":
                k = "mc"
            b = rng.choice([j for j in range(1, 5) if j != a])
            ops.append({"do": k, "a": a, "b": b, "c": 0, "emu": False})
        have[b - 1] = True
    return {"R": R, "pool": pool, "ops": ops, "seed": i, "pexp": -40 if i % 4 == 0 else 0, "order": order(rng, R)}


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(500 if tier == "quick" else 7000)]


def build(o, rank, R, u):
    import bet.sample as S
    if o["role"] == "cells":
        s = make_part(o["part"], o["dim"])
        if o["p"]:
            s.set_probabilities(V(o["p"]) * u)
    else:
        s = S.sample_set(o["dim"])
        a = A(o["vals"])
        if o["place"] == "l":
            s.set_values_local(split(a, R, o["sizes"])[rank])
            if o["p"]:
                s.set_probabilities_local(split(V(o["p"]) * u, R, o["sizes"])[rank])
        else:
            s.set_values(a)
            if o["p"]:
                s.set_probabilities(V(o["p"]) * u)
    if o["place"] == "gl":
        s.global_to_local()
    return s


def execute(scn):
    R, ops = scn["R"], scn["ops"]
    steps = [[None] * R for _ in ops]

    def body(rank, R):
        import bet.sample as S
        import bet.calculateP.calculateP as C
        pool = [build(o, rank, R, 2.0 ** scn["pexp"]) for o in scn["pool"]]
        for i, e in enumerate(ops):
            exc, ret, b = "", None, pool[e.get("b", 1) - 1]
            try:
                if e["do"] == "mc":
                    ret = C.prob_from_sample_set(pool[e["a"] - 1], b)
                elif e["do"] == "em":
                    ret = C.prob_from_sample_set_with_emulated_volumes(pool[e["a"] - 1], b, pool[e["c"] - 1])
                elif e["do"] == "disc":
                    src = pool[e["a"] - 1]
                    if e.get("emu"):
                        inp = S.sample_set(src.get_dim())
                        inp.set_values(np.zeros((1, src.get_dim())))
                        D = S.discretization(inp, None)
                        D.set_emulated_input_sample_set(src)
                        D.set_output_sample_set(inp)
                    else:
                        out = S.sample_set(1)
                        out.set_values(np.zeros((src.check_num(), 1)))
                        D = S.discretization(src, out)
                    ret = C.prob_from_discretization_input(D, b)
            except Exception as x:
                exc = enc.exc_name(x)
            steps[i][rank] = {"exc": exc, "ret": enc.arr(unscaled(ret, scn["pexp"])), "ptype": enc.text(b.get_prob_type()),
                              "pr": [enc.arr(unscaled(s.get_probabilities(), scn["pexp"])) for s in pool]}
        return {}
    outs, logs = run(scn, body)
    ev = []
    for e, o in zip(ops, steps):
        x = dict(e, op="xfer", R=R)
        if e["do"] == "new":
            x["pool"] = [{"dim": q["dim"], "vals": q["vals"], "part": q["part"], "p": q["p"],
                          "loc": q["place"] == "l"} for q in scn["pool"]]
        if any(v is None for v in o):
            x["outs"] = [{"exc": z.get("exc") or "lost"} for z in outs]
            ev.append(x)
            break
        x["outs"] = o
        ev.append(x)
    return {"ev": ev, "init": []}
