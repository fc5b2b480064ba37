"""C26: densities of the probability models of a set."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Pdf", "quick": {"Grid": 2}, "thorough": {"Grid": 4}},
          {"module": "MC_Pdf", "quick": {"Grid": 2, "Entry": '"other"'}, "violates": "Marginal"},
          {"module": "MC_Pdf", "quick": {"Grid": 2, "Cache": "TRUE"}, "violates": "Follows"}]
RULE = ("sets of dimension 1-3 on 1-5 processes carrying an initial and an updated model each (independent uniform, normal, "
        "exponential and beta variables; weighted kernel estimates and normal mixtures of 1-3 clusters, some of them empty; cell "
        "probabilities with given or assumed volumes, with and without a domain, in global, distributed or both views; no or an "
        "unknown model), through histories of 3-12 model and probability changes and evaluations at points given in every accepted "
        "shape; distinct by full trace")
ASSUMPTIONS = ["densities other than of cells are compared in fixed point: 0.001 + 1.25 percent",
               "a user who holds global and distributed probabilities or volumes changes both",
               "cells of zero volume and sets with fewer than two distinct cells of positive probability (marginals) are not judged"]


def q2(rng, lo, hi, den=4):
    return qq(Fraction(rng.randint(lo * den, hi * den), den))


def rv(rng):
    fam = rng.choice(["uniform", "uniform", "norm", "norm", "expon", "beta"])
    return {"f": fam, "a": q2(rng, -2, 2, 2), "b": qq(Fraction(rng.choice([1, 2, 3, 4, 8]), 2)), "s": [rng.randint(1, 3), rng.randint(1, 3)]}


def kde1(rng):
    n = rng.randint(2, 5)
    while True:
        xs = [rng.randint(-4, 4) for _ in range(n)]
        if max(xs) - min(xs) >= 2:
            break
    return {"xs": [[qq(Fraction(x, 2))] for x in xs], "w": [rng.choice([1, 1, 2, 3]) for _ in range(n)], "f2": rng.choice([2500, 3600, 6400, 10000])}


def cov(rng, dim):
    if dim == 1:
        return [[qq(Fraction(rng.choice([1, 2, 4, 8]), 4))]]
    a, b = Fraction(rng.choice([1, 2, 4, 8]), 4), Fraction(rng.choice([1, 2, 4]), 4)
    c = rng.choice([0, 0, 1, -1, 2]) * min(a, b) / 4
    return [[qq(a), qq(c)], [qq(c), qq(b)]]


def weights(rng, k):
    w = [rng.randint(0, 4) for _ in range(k)]
    if not any(w):
        w[0] = 1
    return [qq(Fraction(x, 4 if rng.random() < 0 else sum(w))) for x in w]


def model(rng, dim, init, cells):
    ts = ["rv"] * 3 + ["kde"] * 3 + (["gmm"] * 3 if dim < 3 else []) + ["none", "other"] + ["voronoi"] * (4 if cells and not init else 1)
    t = rng.choice(ts)
    m = {"t": t}
    if t == "rv":
        m["rv"] = [rv(rng) for _ in range(dim)]
    elif t == "kde":
        k = rng.randint(1, 3)
        m["w"] = weights(rng, k)
        m["cl"] = [[] if (rng.random() < 0.25 and k > 1) else [kde1(rng) for _ in range(dim)] for _ in range(k)]
    elif t == "gmm":
        k = rng.randint(1, 3)
        m["w"] = weights(rng, k)
        m["m"] = [[] if (rng.random() < 0.25 and k > 1) else [q2(rng, -2, 2, 2) for _ in range(dim)] for _ in range(k)]
        m["C"] = [cov(rng, dim) for _ in range(k)]
    return m


def scenario(rng, i):
    dim = rng.choice([1, 1, 2, 2, 3])
    R = rng.choice([1, 1, 1, 2, 3, 5])
    cells = dim < 3 and rng.random() < 0.6
    part = {"kind": "vor", "p": rng.choice(["1", "2", "inf"]), "vals": rpoints(rng, rng.randint(2, 6), dim, -2, 3, 2)}
    n = len(part["vals"])
    dom = [] if rng.random() < 0.3 else [[[-2, 1], qq(Fraction(rng.choice([4, 6, 8]), 2))] for _ in range(dim)]
    s = {"seed": i, "R": R, "dim": dim, "cells": part, "dom": dom, "view": rng.choice(["g", "gl", "l"]), "hold": cells,
         "sizes": None, "steps": []}
    if s["view"] == "l" and rng.random() < 0.6:
        sz = [0] * R
        for _ in range(n):
            sz[rng.randrange(R)] += 1
        s["sizes"] = sz
    s["norm"] = None
    if dom and rng.random() < 0.3:
        # a set whose domain was normalised before: what it holds now is the scenario, what it held is stretched
        s["norm"] = [[rng.choice([2, 4, 8]), rng.randint(-3, 3)] for _ in range(dim)]
        s["dom"] = [[[0, 1], [1, 1]] for _ in range(dim)]
        part["vals"] = rpoints(rng, n, dim, 0, 1, 8)
    st = s["steps"]
    st.append({"do": "init", "m": model(rng, dim, True, cells)})
    st.append({"do": "upd", "m": model(rng, dim, False, cells)})
    P = None

    def newP():
        return rprobs(rng, n)
    if cells and rng.random() < 0.9:
        P = newP()
        st.append({"do": "P", "v": P})
    if cells and rng.random() < 0.6:
        st.append({"do": "V", "v": [qq(Fraction(rng.choice([1, 2, 4, 8]), 16)) for _ in range(n)]})
    upd = st[1]["m"]["t"]
    ini = st[0]["m"]["t"]
    hot = cells and upd == "voronoi" and P is not None
    vols = any(a["do"] == "V" for a in st)
    last = None
    for _ in range(rng.randint(2, 8)):
        u = rng.random()
        if hot and upd == "voronoi" and vols and rng.random() < 0.25:
            st.append({"do": "joint", "ini": False, "i": 1, "wid": dim, "x": part["vals"], "shape": "dens"})
        elif hot and upd == "voronoi" and last in ("joint", "change") and u < 0.6:
            # asked, changed, asked again
            if last == "joint":
                if rng.random() < 0.6:
                    P = newP()
                    st.append({"do": "P", "v": P})
                else:
                    st.append({"do": "V", "v": [qq(Fraction(rng.choice([1, 2, 4, 8]), 16)) for _ in range(n)]})
                    vols = True
                last = "change"
            elif vols and rng.random() < 0.4:
                st.append({"do": "joint", "ini": False, "i": 1, "wid": dim, "x": part["vals"], "shape": "dens"})
                last = "dens"
            else:
                st.append({"do": "joint", "ini": False, "i": 1, "wid": dim, "x": untied(rng, part, dim, rng.randint(1, 4), -3, 3, 4), "shape": "nd"})
                last = "joint"
            continue
        if u < 0.12:
            m = model(rng, dim, True, cells)
            ini = m["t"]
            st.append({"do": "init", "m": m})
        elif u < 0.24:
            m = model(rng, dim, False, cells)
            upd = m["t"]
            st.append({"do": "upd", "m": m})
        elif u < 0.36 and cells and P is not None:
            P = newP()
            st.append({"do": "P", "v": P})
        elif u < 0.42 and cells:
            vols = True
            st.append({"do": "V", "v": [qq(Fraction(rng.choice([1, 2, 4, 8]), 16)) for _ in range(n)]})
        else:
            a = {"do": rng.choice(["joint", "marg"]), "ini": rng.random() < 0.4, "i": rng.randint(1, dim), "wid": dim}
            k = rng.randint(1, 4)
            vor = (upd == "voronoi" and not a["ini"])
            a["x"] = untied(rng, part, dim, k, -3, 3, 4) if vor else rpoints(rng, k, dim, -3, 3, 4, False)
            if a["do"] == "joint":
                a["shape"] = "n" if dim == 1 and rng.random() < 0.4 else "nd"
                if rng.random() < 0.08:
                    a["wid"] = dim + 1 if dim == 1 or rng.random() < 0.5 else dim - 1
                    a["shape"] = "n" if a["wid"] == 1 and rng.random() < 0.5 else "nd"
            else:
                a["shape"] = rng.choice(["n", "n1", "nd"])
                if vor and cells and P is not None:
                    pos = {tuple(part["vals"][j][a["i"] - 1]) for j in range(n) if P[j][0] != 0}
                    if len(pos) < 2:
                        continue
            if vor and not cells and P is None and a["do"] == "marg" and False:
                continue
            st.append(a)
            last = "joint" if vor and a["do"] == "joint" and a["wid"] == dim else last
    return s


def build(m, dim):
    import scipy.stats as stats
    if m["t"] == "rv":
        out = []
        for d in m["rv"]:
            kw = {"loc": f(d["a"]), "scale": f(d["b"])}
            if d["f"] == "beta":
                kw["a"], kw["b"] = d["s"]
            out.append([d["f"], kw])
        return "rv", out
    if m["t"] == "kde":
        mar = []
        for i in range(dim):
            mar.append([None if not c else stats.gaussian_kde(A(c[i]["xs"])[:, 0], bw_method=(c[i]["f2"] / 10000.0) ** 0.5, weights=c[i]["w"])
                        for c in m["cl"]])
        return "kde", (mar, np.array([f(w) for w in m["w"]]))
    if m["t"] == "gmm":
        return "gmm", ([None if not x else V(x) for x in m["m"]], [None if not x else A(c) for x, c in zip(m["m"], m["C"])], np.array([f(w) for w in m["w"]]))
    return {"none": (None, None), "other": ("spline", [1, 2]), "voronoi": ("voronoi", None)}[m["t"]]


def densities(o, s, R):
    """the densities of the cells themselves"""
    from bet.Comm import comm
    if s["view"] == "g":
        o.set_densities()
        return o.get_densities()
    o.set_densities_local()
    return np.concatenate(comm.allgather(o.get_densities_local()))


def execute(s):
    dim = s["dim"]

    def body(rank, R):
        import bet.sample as S
        o = S.sample_set(dim)
        o.set_p_norm(PN[s["cells"]["p"]])
        if s["norm"]:
            w, z = np.array(s["norm"], dtype=float).T
            o.set_domain(np.vstack([z, z + w]).T)
        elif s["dom"]:
            o.set_domain(np.array([[f(a), f(b)] for a, b in s["dom"]]))

        def put(name, a):
            if s["view"] in ("g", "gl"):
                getattr(o, "set_" + name)(a.copy())
            if s["view"] in ("gl", "l"):
                getattr(o, "set_" + name + "_local")(split(a, R, s["sizes"])[rank].copy())
        if s["hold"]:
            x = A(s["cells"]["vals"])
            put("values", z + x * w if s["norm"] else x)
        if s["norm"]:
            o.normalize_domain()
        res = []
        for a in s["steps"]:
            r = {"exc": "", "v": enc.NONE, "q": enc.NONE}
            if a["do"] == "init":
                t, pp = build(a["m"], dim)
                o.set_prob_type_init(t)
                o.set_prob_parameters_init(pp)
            elif a["do"] == "upd":
                t, pp = build(a["m"], dim)
                o.set_prob_type(t)
                o.set_prob_parameters(pp)
            elif a["do"] == "P":
                put("probabilities", V(a["v"]))
            elif a["do"] == "V":
                put("volumes", V(a["v"]))
            else:
                x = A(a["x"])
                if a["do"] == "joint":
                    if a["wid"] > dim:
                        x = np.hstack([x, x[:, :1]])
                    elif a["wid"] < dim:
                        x = x[:, :a["wid"]]
                    if a["shape"] == "n":
                        x = x[:, 0]
                    if a["shape"] == "dens":
                        fun, args = (lambda y: densities(o, s, R)), (x,)
                    else:
                        fun, args = (o.pdf_init if a["ini"] else o.pdf), (x,)
                else:
                    if a["shape"] != "nd":
                        x = x[:, a["i"] - 1]
                        if a["shape"] == "n1":
                            x = x[:, None]
                    fun, args = (o.marginal_pdf_init if a["ini"] else o.marginal_pdf), (x, a["i"] - 1)
                try:
                    y = fun(*args)
                    r["v"] = enc.fixarr(y, 10000)
                    r["q"] = enc.arr(y)
                except Exception as ex:
                    r["exc"] = enc.exc_name(ex)
            res.append(r)
        return {"res": res}
    outs, logs = run(s, body)
    fill(outs, {"res": []})
    steps = [dict({"do": "", "m": {"t": "none"}, "v": [], "ini": False, "i": 1, "wid": dim, "x": []}, **a) for a in s["steps"]]
    for a in steps:
        a.pop("shape", None)
        if a["m"]["t"] == "kde":
            a["m"] = dict(a["m"])
    none = {"t": "none"}
    s0 = {"dim": dim, "ini": none, "upd": none, "P": [], "V": [], "cells": s["cells"], "dom": s["dom"]}
    return {"ev": [{"op": "pdf", "s0": s0, "steps": steps, "outs": outs}], "init": {}, "logs": logs}


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(350 if tier == "quick" else 4000)]
