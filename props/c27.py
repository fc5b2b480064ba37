"""C27: distances between distributions."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Compare", "quick": {"N": 2}, "thorough": {"N": 3}},
          {"module": "MC_Compare", "quick": {"N": 2, "Mode": '"keep"'}, "violates": "History"},
          {"module": "MC_Compare", "quick": {"N": 2, "Mode": '"half"'}, "violates": "Covers"}]
RULE = ("pairs of sets or discretizations (1-3 dimensions, 1-3 processes, with different numbers of samples, finite, infinite or no "
        "domains), each with an initial and an updated model (uniform, beta, normal, cells), through histories of 3-12 changes of "
        "models, probabilities and comparison points and distances of every functional, normalised or not, joint, marginal on given "
        "or default intervals, and integrated; distinct by full trace")
ASSUMPTIONS = ["densities on the comparison points are exact; results are compared to 0.0025 + 1.7 percent (integrals 0.01 + 2.5 percent)",
               "a normalised distance of a density that vanishes on all comparison points is not judged"]
FN = {"tv": ["tv", "totvar", "total variation", "total-variation", "1"], "mink1": ["mink"], "mink2": ["mink", "minkowski"], "norm": ["norm"],
      "euclid": ["euclidean", "2-norm", "2"], "sqhell": ["sqhell", "sqhellinger"], "hell": ["hell", "hellinger"],
      "kl": ["kl", "k-l", "kullback-leibler", "entropy"], "user": ["user"]}


def rvx(rng, dim):
    out = []
    for _ in range(dim):
        fam = "beta" if dim == 1 and rng.random() < 0.4 else "uniform"
        out.append({"f": fam, "a": qq(Fraction(rng.randint(-4, 2), 2)), "b": [rng.choice([1, 2, 2, 4]), 1], "s": rng.choice([[1, 2], [2, 1], [2, 2], [1, 1]])})
    return out


def rvn(rng, dim):
    return [{"f": "norm", "a": qq(Fraction(rng.randint(-2, 2), 2)), "b": rng.choice([[1, 2], [1, 1], [2, 1]]), "s": [1, 1]} for _ in range(dim)]


def model(rng, dim, ini, flavour):
    if flavour == "n":
        return {"t": "rv", "rv": rvn(rng, dim)}
    if not ini and rng.random() < 0.35 and dim < 3:
        return {"t": "voronoi"}
    return {"t": "rv", "rv": rvx(rng, dim)}


def aset(rng, dim):
    u = rng.random()
    part = {"kind": "vor", "p": "2", "vals": rpoints(rng, rng.randint(2, 5), dim, -2, 2, 2)}
    dom = []
    if u < 0.6:
        for _ in range(dim):
            a = rng.randint(-3, 0)
            dom.append([[a, 1], [a + rng.choice([2, 4, 8]), 1]])
        if rng.random() < 0.25:
            dom[rng.randrange(dim)][rng.randrange(2)] = None
    dom = [[[-1, 0] if a is None else a, [1, 0] if b is None else b] for a, b in dom]
    return {"dim": dim, "cells": part, "dom": dom}


def scenario(rng, i):
    dim = rng.choice([1, 1, 2, 3])
    S = [aset(rng, dim), aset(rng, dim)]
    for x in S:                                            # cells: densities need a finite domain or none
        x["fin"] = all(b[1] and a[1] for a, b in x["dom"])
    fl = "n" if rng.random() < 0.25 else "x"
    s = {"seed": i, "R": rng.choice([1, 1, 1, 2, 3]), "sets": S, "i1": rng.random() < 0.3, "i2": rng.random() < 0.3, "bad": "",
         "hold": rng.choice(["set", "set", "in", "out", "mixed"]), "view": rng.choice(["g", "gl"]), "steps": [], "kw": rng.random() < 0.5}
    if rng.random() < 0.04:
        s["bad"] = rng.choice(["dim", "obj"])
        return s
    st = s["steps"]
    mod = {}
    P = {1: None, 2: None}

    def setm(k, ini):
        while True:
            m = model(rng, dim, ini, fl)
            if m["t"] != "voronoi" or S[k - 1]["fin"]:
                break
        mod[(k, ini)] = m
        st.append({"do": "model", "k": k, "ini": ini, "m": m})
    for k in (1, 2):
        setm(k, True)
        setm(k, False)
        P[k] = rprobs(rng, len(S[k - 1]["cells"]["vals"]))
        st.append({"do": "P", "k": k, "v": P[k]})

    def asked(k):
        return mod[(k, s["i1"] if k == 1 else s["i2"])]

    def points(n):
        out = []
        while len(out) < n:
            p = rpoint(rng, dim, -2, 2, 4)
            if not has_tie(S[0]["cells"], p) and not has_tie(S[1]["cells"], p):
                out.append(p)
            elif rng.random() < 0.05:
                p = [qq(fr(x) + Fraction(1, 32)) for x in p]
                if not has_tie(S[0]["cells"], p) and not has_tie(S[1]["cells"], p):
                    out.append(p)
        return out
    fac = [[0, 1], [0, 1], [1, 2], [1, 4], [1, 1]]
    num = 0
    for _ in range(rng.randint(3, 9)):
        u = rng.random()
        if fl == "x" and num and st[-1]["do"] == "dist" and u < 0.5:
            # asked, changed, asked again
            st.append({"do": "cmp", "x": points(num), "bad": "", "how": rng.choice(["array", "set", "setl"])})
            st.append(dict(st[-2]))
        elif u < 0.12:
            setm(rng.choice([1, 2]), rng.random() < 0.5)
        elif u < 0.2:
            k = rng.choice([1, 2])
            P[k] = rprobs(rng, len(S[k - 1]["cells"]["vals"]))
            st.append({"do": "P", "k": k, "v": P[k]})
        elif u < 0.26:
            num = 0
            st.append({"do": "rand", "n": 400, "f": rng.choice(fac)})
        elif u < 0.3:
            st.append({"do": "cmp", "x": [], "bad": rng.choice(["dim", "setdim", "obj"]), "how": "array"})
        elif u < 0.48 and fl == "x":
            num = rng.choice([1, 2, 4, 8])
            st.append({"do": "cmp", "x": points(num), "bad": "", "how": rng.choice(["array", "set", "setl"])})
        elif fl == "n" and u < 0.85:
            a = {"do": "quad", "fn": rng.choice(["tv", "euclid", "sqhell", "hell", "kl", "user"]), "i": rng.randint(1, dim), "iv": [], "f": rng.choice(fac[:4]), "n": int(rng.random() < 0.6)}
            if rng.random() < 0.4:
                lo = rng.randint(-3, 1)
                a["iv"] = [[lo, 1], [lo + rng.choice([1, 2, 4]), 1]]
            st.append(a)
        elif fl == "x" and u < 0.7:
            st.append({"do": "dist", "fn": rng.choice(sorted(FN) + ["kl"]), "norm": rng.random() < 0.4})
        elif fl == "x" and asked(1)["t"] == "rv" and asked(2)["t"] == "rv":
            a = {"do": "marg", "fn": rng.choice(sorted(FN) + ["kl"]), "norm": rng.random() < 0.4, "i": rng.randint(1, dim), "iv": [], "f": rng.choice(fac), "n": rng.choice([3, 5, 9, 17])}
            if rng.random() < 0.4:
                lo = rng.randint(-3, 1)
                a["iv"] = [[lo, 1], [lo + rng.choice([1, 2, 4]), 1]]
            st.append(a)
    return s


def execute(s):
    import props.c26 as c26
    S_ = s["sets"]
    dim = S_[0]["dim"]

    def body(rank, R):
        import bet.sample as S
        import bet.postProcess.compareP as C
        T = []
        for k, x in enumerate(S_):
            o = S.sample_set(dim + (1 if s["bad"] == "dim" and k == 1 else 0))
            o.set_p_norm(2.0)
            if s["bad"] == "dim":
                T.append(o)
                continue
            if x["dom"]:
                o.set_domain(np.array([[-np.inf if a[1] == 0 else f(a), np.inf if b[1] == 0 else f(b)] for a, b in x["dom"]]))
            v = A(x["cells"]["vals"])
            o.set_values(v)
            if s["view"] == "gl":
                o.set_values_local(split(v, R)[rank])
            T.append(o)

        def hold(k):
            o = T[k]
            h = s["hold"]
            if h == "set" or (h == "mixed" and k == 0):
                return o
            other = S.sample_set(2)
            D = S.discretization(o, other) if h != "out" else S.discretization(other, o)
            if s["seed"] % 2:
                # other sets that are not compared
                for put in (D.set_output_observed_set, D.set_output_probability_set, D.set_emulated_output_sample_set, D.set_emulated_input_sample_set):
                    d = S.sample_set(dim if (put == D.set_emulated_input_sample_set) == (h != "out") else 2)
                    d.set_values(np.zeros((2, d.get_dim())))
                    d.set_prob_type_init("rv")
                    d.set_prob_type("rv")
                    for p in (d.set_prob_parameters, d.set_prob_parameters_init):
                        p([["norm", {"loc": 0.0, "scale": 1.0}]] * d.get_dim())
                    put(d)
            return D
        a1, a2 = hold(0), hold(1)
        if s["bad"] == "obj":
            a2 = [1, 2]
        c = C.compare(a1, a2, inputs=s["hold"] != "out", set1_init=s["i1"], set2_init=s["i2"])
        res = []
        for a in s["steps"]:
            r = {"exc": "", "v": 0, "pts": enc.NONE, "lo": [], "hi": []}
            try:
                if a["do"] == "model":
                    o = T[a["k"] - 1]
                    t, pp = c26.build(a["m"], dim)
                    if a["ini"]:
                        o.set_prob_type_init(t)
                        o.set_prob_parameters_init(pp)
                    else:
                        o.set_prob_type(t)
                        o.set_prob_parameters(pp)
                elif a["do"] == "P":
                    o = T[a["k"] - 1]
                    p = V(a["v"])
                    o.set_probabilities(p)
                    if s["view"] == "gl":
                        o.set_probabilities_local(split(p, R)[rank])
                elif a["do"] == "rand":
                    c.set_compare_set(a["n"], compare_factor=f(a["f"]))
                    y = c.compare_vals
                    lo, hi = span(s, a["f"])
                    l, w = np.array([float(z) for z in lo]), np.array([float(b - z) for z, b in zip(lo, hi)])
                    w = np.where(w == 0, 1.0, w)
                    r["pts"] = enc.fixarr((y - l) / w, 1000)
                    r["lo"], r["hi"] = [qq(z) for z in lo], [qq(z) for z in hi]
                elif a["do"] == "cmp":
                    if a["bad"] == "dim":
                        c.set_compare_set(np.zeros((3, dim + 1)))
                    elif a["bad"] == "setdim":
                        o = S.sample_set(dim + 1)
                        o.set_values(np.zeros((3, dim + 1)))
                        c.set_compare_set(o)
                    elif a["bad"] == "obj":
                        c.set_compare_set("points")
                    else:
                        y = A(a["x"])
                        if a["how"] == "array":
                            c.set_compare_set(y)
                        else:
                            o = S.sample_set(dim)
                            if a["how"] == "set":
                                o.set_values(y)
                            else:
                                o.set_values_local(split(y, R)[rank])
                            c.set_compare_set(o)
                else:
                    name = FN[a["fn"]][s["seed"] % len(FN[a["fn"]])]
                    kw = {}
                    if a["fn"] == "mink1":
                        kw["p"] = 1
                    elif a["fn"] == "mink2" and s["kw"]:
                        kw["p"] = 2
                    if a["fn"] == "user":
                        name = (lambda x, y: x * y) if a["do"] == "quad" else (lambda x, y: np.max(np.abs(x - y)))
                    if a["do"] == "dist":
                        v = c.distance(name, normalize=a["norm"], **kw)
                    elif a["do"] == "marg":
                        v = c.distance_marginal(a["i"] - 1, interval=[f(z) for z in a["iv"]] or None, num_points=a["n"], compare_factor=f(a["f"]),
                                                normalize=a["norm"], functional=name, **kw)
                    else:
                        v = c.distance_marginal_quad(a["i"] - 1, interval=[f(z) for z in a["iv"]] or None, compare_factor=f(a["f"]), functional=name,
                                                     **({"miniter": 80, "maxiter": 100} if a["n"] else {}))
                    r["v"] = enc.fix(v, 10000)
            except Exception as ex:
                r["exc"] = enc.exc_name(ex)
            res.append(r)
        return {"res": res}
    outs, logs = run(s, body)
    fill(outs, {"res": []})
    base = {"do": "", "k": 1, "ini": False, "m": {"t": "none"}, "v": [], "x": [], "bad": "", "fn": "", "norm": False, "i": 1, "iv": [], "f": [0, 1], "n": 0}
    steps = [{k: v for k, v in dict(base, **a).items() if k != "how"} for a in s["steps"]]
    none = {"t": "none"}
    s0 = [{"dim": dim, "ini": none, "upd": none, "P": [], "V": [], "cells": x["cells"], "dom": x["dom"]} for x in S_]
    return {"ev": [{"op": "cmp", "s0": {"s": s0, "cmp": []}, "steps": steps, "i1": s["i1"], "i2": s["i2"], "bad": bool(s["bad"]), "outs": outs}],
            "init": {}, "logs": logs}


def span(s, fac):
    lo, hi = [], []
    for i in range(s["sets"][0]["dim"]):
        v = [fr(r[i]) for x in s["sets"] for r in x["cells"]["vals"]]
        d = (max(v) - min(v)) * fr(fac)
        lo.append(min(v) - d)
        hi.append(max(v) + d)
    return lo, hi


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(350 if tier == "quick" else 4000)]
