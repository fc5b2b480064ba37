"""C01: the inverse measure on input cells."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Inverse", "quick": {"MaxR": 2}, "thorough": {"MaxR": 3}}]
RULE = ("random finite inverse problems: 1-8 (some 30-130) input cells in 1-5 dimensions, output partitions of all four kinds, dyadic bin "
        "probabilities with zeros, explicit/Monte Carlo/emulated volumes, data held globally or only locally, "
        "1-5 processes including empty ones; distinct by full recorded trace")
ASSUMPTIONS = ["floating point results are identified with the nearest rational of denominator <= 10^4 (error < 1e-9)",
               "processes are simulated in one address space; collectives have MPI's semantics"]


def scenario(rng, i):
    din, dout = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    n = rng.randint(1, 8)
    big = i % 25 == 24
    if big:
        din, dout, n = rng.choice([1, 2, 4, 5]), rng.choice([1, 2, 3, 4]), rng.choice([30, 65, 130])
    part = rpart(rng, dout, nmax=12 if big else 4)
    R = rng.choice([1, 1, 2, 2, 3, 5])
    call = rng.choice(["prob", "prob", "prob", "emu"])
    s = {"R": R, "din": din, "dout": dout, "call": call, "bins": part, "p": rprobs(rng, ncells(part)),
         "outv": untied(rng, part, dout, n), "glob": rng.random() < 0.7,
         "place": rng.choice(["g", "gl", "l"]) if call == "prob" else rng.choice(["g", "gl"]),
         "seed": i}
    s["p0"] = rprobs(rng, ncells(part)) if rng.random() < 0.3 else []       # solved before, for other probabilities
    s["inv"] = rpoints(rng, n, din, den=4 if not big or din > 1 else 64)
    vm = rng.choice(["set", "set", "mc"])
    # shares do not depend on the unit of volume
    s["vexp"] = rng.choice([0, 0, -30, -60, 20])
    s["vm"] = vm
    # nor do probabilities have a least size
    s["pexp"] = rng.choice([0, 0, 0, -40])
    s["stale"] = call == "emu" and rng.random() < 0.4        # volumes of before
    if vm == "set":
        s["vol"] = [qq(Fraction(rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([8, 8, 12])) if not big else
                       Fraction(rng.choice([0, 1, 1, 2]), 8)) for _ in range(n)]
        if all(v[0] == 0 for v in s["vol"]):
            s["vol"][0] = [1, 8]
    else:
        s["vol"] = [qq(Fraction(1, n))] * n
    if call == "emu":
        ip = {"kind": "vor", "p": rng.choice(["1", "2", "inf"]), "vals": s["inv"]}
        s["ip"] = ip["p"]
        s["emu"] = untied(rng, ip, din, rng.randint(1, 9) if not big else rng.choice([40, 150]))
        s["emul"] = rng.random() < 0.5
    else:
        s["ip"] = "2"
        s["emu"] = []
    if s["place"] == "gl" and call == "prob" and vm == "set" and rng.random() < 0.3:
        s["place"] = "gu"                                   # both views, in irregular pieces
    if s["place"] in ("l", "gu"):
        sizes = [0] * R
        for _ in range(n):
            sizes[rng.randrange(R)] += 1
        s["sizes"] = sizes
    if R > 1 and rng.random() < 0.5:
        o = list(range(R))
        rng.shuffle(o)
        s["order"] = o
    return s


def scenarios(tier, rng):
    n = 500 if tier == "quick" else 6000
    return [scenario(rng, i) for i in range(n)]


def body(s):
    def f_(rank, R):
        import bet.sample as S
        import bet.calculateP.calculateP as C
        inp, out = S.sample_set(s["din"]), S.sample_set(s["dout"])
        inp.set_p_norm(PN[s["ip"]])
        iv, ov, vol = A(s["inv"]), A(s["outv"]), V(s["vol"]) * 2.0 ** s["vexp"]
        if s["place"] in ("l", "gu"):
            inp.set_values_local(split(iv, R, s["sizes"])[rank])
            out.set_values_local(split(ov, R, s["sizes"])[rank])
        if s["place"] != "l":
            inp.set_values(iv)
            out.set_values(ov)
            if s["vm"] == "set" and s["call"] == "prob":
                inp.set_volumes(vol)
            if s["place"] == "gl":
                inp.global_to_local()
                out.global_to_local()
        if s["vm"] == "set" and s["place"] in ("l", "gu"):
            inp.set_volumes_local(split(vol, R, s["sizes"])[rank])
        if s["vm"] == "mc" and s["call"] == "prob":
            inp.estimate_volume_mc(globalize=s["place"] != "l")
        ps = make_part(s["bins"], s["dout"])
        ps.set_probabilities(V(s["p0"] or s["p"]) * 2.0 ** s["pexp"])
        if s["stale"]:
            inp.set_volumes(np.arange(1.0, len(iv) + 1))
        d = S.discretization(inp, out, output_probability_set=ps)
        if s["call"] == "emu":
            e = S.sample_set(s["din"])
            if s["emul"]:
                e.set_values_local(split(A(s["emu"], s["din"]), R)[rank])
            else:
                e.set_values(A(s["emu"]))
            d.set_emulated_input_sample_set(e)
            if s["p0"]:
                C.prob_with_emulated_volumes(d)
                ps.set_probabilities(V(s["p"]) * 2.0 ** s["pexp"])
            C.prob_with_emulated_volumes(d)
        else:
            if s["p0"]:
                C.prob(d, globalize=s["seed"] % 3 != 0)
                ps.set_probabilities(V(s["p"]) * 2.0 ** s["pexp"])
            C.prob(d, globalize=s["glob"])
        return {"prob": enc.arr(unscaled(inp.get_probabilities(), s["pexp"])), "probl": enc.arr(unscaled(inp.get_probabilities_local(), s["pexp"])),
                "vall": enc.arr(inp.get_values_local()),
                "vol": enc.arr(inp.get_volumes()), "ptype": enc.text(inp.get_prob_type()),
                "pbins": enc.arr(unscaled(ps.get_probabilities(), s["pexp"]))}
    return f_


def execute(s):
    outs, logs = run(s, body(s))
    fill(outs, {"prob": enc.NONE, "probl": enc.NONE, "vol": enc.NONE, "vall": enc.NONE, "ptype": "", "pbins": enc.NONE})
    ev = {"op": "prob", "R": s["R"], "call": s["call"], "bins": s["bins"], "p": s["p"], "outv": s["outv"],
          "vol": s["vol"], "inv": s["inv"], "ip": s["ip"], "emu": s["emu"],
          "glob": s["glob"] or s["call"] == "emu", "outs": outs}
    return {"ev": [ev]}
