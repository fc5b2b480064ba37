"""C23: choosing optimal quantities of interest."""
from itertools import combinations
import math
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_OptQoI", "quick": {}, "thorough": {"N": 7, "R": 4}},
          {"module": "MC_OptQoI", "quick": {"Merge": '"distinct"'}, "violates": "Smallest"}]
RULE = ("integer Jacobians of 2-7 quantities at 1-3 centres in 2-3 inputs with vanishing, parallel, repeated and degenerate "
        "quantities; averages over subsets in any order; best sets by skewness and by measure, of all sizes, more sets asked than "
        "there are, index lists in any order, tolerances away from the values; 1-5 processes; distinct by full trace")
ASSUMPTIONS = ["tolerances differ from the compared values", "sets with more quantities than inputs only through the averages",
               "which of two near-parallel quantities is kept is not specified"]


def cosine(G, i, j):
    t = 0.0
    for g in G:
        n = math.sqrt(sum(v * v for v in g[i]) * sum(v * v for v in g[j]))
        if n:
            t += sum(a * b for a, b in zip(g[i], g[j])) / n
    return abs(t) / len(G)


def jac(rng, nq, d):
    nc = rng.randint(1, 3)
    hi = rng.choice([1, 2, 3])
    G = [[[rng.randint(-hi, hi) for _ in range(d)] for _ in range(nq)] for _ in range(nc)]
    z = rng.random()
    if z < 0.25:
        q = rng.randrange(nq)
        for g in G[:rng.randint(1, nc)]:
            g[q] = [0] * d                     # vanishes at some centre
    elif z < 0.5 and nq > 2:
        a, b = rng.sample(range(nq), 2)
        k = rng.choice([1, -1])
        for g in G:
            g[b] = [k * v for v in g[a]]       # parallel everywhere
    return G


def scenario(rng, i):
    d = rng.choice([2, 2, 3])
    nq = rng.randint(2, 8 if d == 2 else 6)
    many = i % 20 == 19                        # many admissible sets, many asked for
    if many:
        d, nq = 2, rng.randint(7, 8)
    G = jac(rng, nq, d)
    s = {"seed": i, "R": rng.choice([1, 1, 2, 3, 5]), "G": G, "d": d, "bad": False, "do": rng.choice(["avg", "avg", "uniq", "best", "best", "best", "large", "large"])}
    if many:
        s["do"] = "best"
    s["unit"] = rng.choice([0, 0, 0, -12, -20, 8])           # of the outputs: what is best does not depend on it
    if s["do"] == "avg":
        s["which"] = rng.choice(["measure", "skew", "cond"])
        k = rng.randint(1, min(d, nq))
        s["s"] = [q + 1 for q in rng.sample(range(nq), k)]
        if k > 1 and rng.random() < 0.1:
            s["s"][0] = s["s"][-1]             # named twice: degenerate
        s["all"] = nq <= d and rng.random() < 0.5
        if s["all"]:
            s["s"] = list(range(1, nq + 1))
        s["bm"] = rng.choice([None, [1, 2], [3, 1]])
        if rng.random() < 0.08:
            s["bad"] = True
            s["why"] = "jac" if nq <= d else rng.choice(["jac", "many"])
        return s
    # tolerances away from what they are compared with
    cs = sorted(cosine(G, a, b) for a, b in combinations(range(nq), 2))
    cand = [t for t in (0.3, 0.5, 0.8, 0.95, 2.0) if all(abs(c - t) > 0.01 for c in cs)]
    if all(c < 0.99 for c in cs):
        cand += [1.0, 1.0]
    s["tolf"] = rng.choice(cand)
    s["I"] = [q + 1 for q in (range(nq) if rng.random() < 0.5 else rng.sample(range(nq), rng.randint(2, nq)))]
    s["rz"] = rng.random() < 0.6
    s["measure"] = rng.random() < 0.4
    s["n"] = rng.choice([1, 2, 3, 5, 12, 15])
    s["k"] = d if rng.random() < 0.6 else rng.randint(1, d)
    s["brief"] = s["do"] == "best" and rng.random() < 0.4
    s["defI"] = s["I"] == list(range(1, nq + 1)) and rng.random() < 0.5
    s["defk"] = s["k"] == d and rng.random() < 0.5
    if s["do"] == "large":
        s["k"] = d if s["k"] < 2 else s["k"]
        s["defk"] = s["defk"] and s["k"] == d
        # a tolerance no value is close to
        vals = sorted(value(G, c, s["measure"]) for m in range(2, s["k"] + 1) for c in combinations(range(nq), m))
        t = [x for x in (0.7, 1.3, 2.1, 3.3, 5.7) if all(abs(v - x) > 0.05 * x for v in vals)]
        s["mtolf"] = rng.choice(t + [None]) if not s["unit"] or not s["measure"] else None
    if many and s["do"] == "best":
        s.update(I=list(range(1, nq + 1)), tolf=2.0, k=2, n=rng.randint(11, 15), R=rng.choice([1, 1, 2]))
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def value(G, c, measure):
    out = []
    for g in G:
        M = np.array([g[q] for q in c], dtype=float)
        sv = np.prod(np.linalg.svd(M, compute_uv=False))
        if measure:
            out.append(sv)
            continue
        sk = []
        for i in range(len(c)):
            rest = np.delete(M, i, axis=0)
            v = np.prod(np.linalg.svd(rest, compute_uv=False)) if len(rest) else 1.0
            sk.append(np.linalg.norm(M[i]) * v / sv if sv > 1e-9 else np.inf)
        out.append(1 / max(sk) if max(sk) < np.inf else 0.0)
    m = np.mean(out)
    return 1 / m if m > 1e-9 else np.inf


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(900 if tier == "quick" else 5000)]


def execute(s):
    def body(rank, R):
        import bet.sample as S
        import bet.sensitivity.chooseQoIs as C
        u0 = 2.0 ** s["unit"]

        def back(m, k, measure):
            m = np.array(m, dtype=float)
            if measure and m.ndim == 2 and len(m):
                m[:, 0] *= u0 ** k
            return m
        i = S.sample_set(s["d"])
        i.set_values(np.arange(len(s["G"]) * s["d"], dtype=float).reshape(len(s["G"]), s["d"]))
        if not (s["bad"] and s["why"] == "jac"):
            i.set_jacobians(np.array(s["G"], dtype=float) * u0)
        if s["do"] == "avg":
            fun = {"measure": C.calculate_avg_measure, "skew": C.calculate_avg_skewness, "cond": C.calculate_avg_condnum}[s["which"]]
            q = None if s["all"] or s["bad"] else [x - 1 for x in s["s"]]
            v, dat = fun(i, q, None if s["bm"] is None else f(s["bm"])) if s["which"] == "measure" else fun(i, q)
            if s["which"] == "measure":
                v = v * u0 ** len(s["s"])
            if s["which"] != "skew":
                dat = np.asarray(dat) / u0
            return {"val": enc.fix(v, 1000), "data": enc.fixarr(dat, 10000)}
        I = None if s["defI"] else [q - 1 for q in s["I"]]
        u = enc.ints(C.find_unique_vecs(i, s["tolf"], I, s["rz"]))
        r = {"u": u}
        if s["do"] == "best":
            k = None if s["defk"] else s["k"]
            m, d = C.chooseOptQoIs_verbose(i, I, k, s["n"], s["tolf"], s["measure"], s["rz"])
            r["m"], r["d"] = enc.fixarr(back(m, s["k"], s["measure"]), 1000), enc.fixarr(np.asarray(d) / (u0 if s["measure"] else 1.0), 10000)
            r["m2"] = enc.fixarr(back(C.chooseOptQoIs(i, I, k, s["n"], s["tolf"], s["measure"], s["rz"]), s["k"], s["measure"]), 1000) if s["brief"] else enc.NONE
        elif s["do"] == "large":
            ms, ds = C.chooseOptQoIs_large_verbose(i, I, None if s["defk"] else s["k"], s["n"], s["tolf"], s["mtolf"], s["measure"], s["rz"])
            r["ms"], r["ds"] = [enc.fixarr(back(m, np.shape(m)[1] - 1 if np.ndim(m) == 2 else 0, s["measure"]), 1000) for m in ms], [
                enc.fixarr(np.asarray(d) / (u0 if s["measure"] else 1.0), 10000) for d in ds]
        return r
    outs, _ = run(s, body)
    fill(outs, {"val": 0, "data": enc.NONE, "u": enc.NONE, "m": enc.NONE, "d": enc.NONE, "m2": enc.NONE, "ms": [], "ds": []})
    ev = {"op": "opt", "do": s["do"], "bad": s["bad"], "outs": outs, "G": s["G"]}
    if s["do"] == "avg":
        ev.update({"s": s["s"], "which": s["which"], "bm": s["bm"] or [1, 1]})
    else:
        ev.update({k: s[k] for k in ("I", "rz", "measure", "n", "k", "brief")})
        ev["tol"] = int(s["tolf"] * 1000)
        if s["do"] == "large":
            ev["mtol"] = 100000000 if s["mtolf"] is None else int(s["mtolf"] * 1000)
    return {"ev": [ev]}
