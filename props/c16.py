"""C16: sampling designs."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Sampling", "quick": {"MaxN": 6, "MaxR": 3, "Den": 6}, "thorough": {"MaxN": 9, "MaxR": 4, "Den": 8}},
          {"module": "MC_Sampling", "quick": {"Method": '"sep"'}, "violates": "Shares"}]
RULE = ("random, Latin hypercube, grid, updated-distribution (random variables, kernel estimates and Gaussian mixtures of 1-4 "
        "clusters, some without contribution) and p-norm ball sampling, through functions and samplers, of sets, domains and "
        "dimensions, 1-6 processes, distributed or globalised; distinct by full recorded trace")
ASSUMPTIONS = ["distribution of random samples judged by quartile and orthant counts within six standard deviations",
               "clusters are far apart compared to their spread"]
TYPES = ["uniform", "norm", "expon", "beta"]


def rrv(rng):
    return {"t": rng.choice(TYPES), "loc": rng.randint(-6, 6), "scale": rng.randint(1, 8)}


def scenario(rng, i):
    call = rng.choice(["rand", "rand", "lhs", "lhs", "grid", "upd", "upd", "ball"])
    s = {"seed": i, "call": call, "R": rng.choice([1, 1, 2, 3, 4, 6]), "dim": rng.randint(1, 3), "bad": "", "kind": "",
         "glob": rng.random() < 0.7, "cls": rng.random() < 0.4, "obj": rng.choice(["set", "setdom", "int", "arr"]),
         "rv": [], "w": [], "act": [], "s": 1, "p": 2, "per": [], "centred": False}
    if call == "ball" or rng.random() < 0.1 and call in ("rand", "lhs", "upd"):
        s["dim"] = rng.randint(1, 5)
    dim = s["dim"]
    box = []
    for _ in range(dim):
        a = rng.randint(-8, 8)
        box.append([a, a + rng.randint(1, 12)])
    s["box"] = box if s["obj"] in ("setdom", "arr") else [[0, 2]] * dim          # halves
    s["n"] = rng.choice([1, 2, 3, 5, 7, 13, 160, 200, 241, 3000])
    s["again"] = rng.random() < 0.2 and s["obj"] in ("set", "setdom")
    if call == "rand":
        s["form"] = rng.choice(["str", "pair", "list", "tuple"])
        s["rv"] = [rrv(rng) for _ in range(dim)]
        if s["form"] in ("str", "pair"):
            s["rv"] = [s["rv"][0]] * dim
        if s["form"] == "str":
            t = rng.choice(["uniform", "uniform", "norm", "expon"])
            s["rv"] = [{"t": t, "loc": b[0], "scale": b[1] - b[0]} for b in s["box"]]
        s["alias"] = rng.choice(["r", "random", "uniform"])
        if rng.random() < 0.1:
            s["bad"] = rng.choice(["obj", "few", "rvtype", "unknown"])
            s["cls"] = rng.random() < 0.5
    elif call == "lhs":
        s["n"] = rng.choice([1, 2, 3, 5, 7, 8, 12, 13, 16, 40])
        s["crit"] = rng.choice(["center", "c", "maximin", "m", "centermaximin", "cm", None, "rv"])
        if s["n"] < 2 and s["crit"] not in ("center", "c", "rv"):
            s["crit"] = None
        s["centred"] = s["crit"] in ("center", "c", "centermaximin", "cm", "rv")
    elif call == "grid":
        s["glob"] = True
        s["perform"] = rng.choice(["num", "list", "arr", "tuple"])
        top = {1: 24, 2: 7, 3: 4}[dim]
        s["per"] = [rng.randint(1, top) for _ in range(dim)]
        if s["perform"] == "num":
            s["per"] = [s["per"][0]] * dim
        s["n"] = int(np.prod(s["per"]))
        if rng.random() < 0.06:
            s["bad"] = "obj"
    elif call == "upd":
        s["kind"] = rng.choice(["rv", "kde", "kde", "gmm", "gmm"])
        s["n"] = rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 50, 160, 203, 2003])
        s["holder"] = rng.choice(["set", "disc"])
        s["rv"] = [rrv(rng) for _ in range(dim)]
        s["s"] = rng.randint(2, 12)
        C = rng.randint(1, 4)
        k = rng.choice([2, 3, 7, 9, 10])
        while True:
            w = [rng.randint(0, k) for _ in range(C)]
            act = [rng.random() > 0.2 for _ in range(C)]
            if any(a and b for a, b in zip(w, act)):
                break
        s["w"] = [qq(Fraction(x, sum(w))) for x in w]
        s["act"] = act
        if rng.random() < 0.1:
            s["bad"] = rng.choice(["undef", "obj"])
    else:
        s["kind"] = rng.choice(["unif", "unif", "beta", "normal"])
        s["R"] = 1
        s["n"] = rng.choice([1, 7, 200, 300, 3000])
        s["p"] = rng.choice([1, 2, 3, 9]) if s["kind"] == "unif" else rng.choice([1, 2, 3])      # 9: infinity
        s["s"] = rng.randint(1, 40)
        s["loc"] = rng.random() < 0.5
    # each parameter has a unit of its own: designs do not depend on it
    s["unit"] = [0] * dim
    if call in ("rand", "lhs", "grid") and s["obj"] in ("setdom", "arr") and not s["bad"] and rng.random() < 0.35:
        s["unit"] = [rng.choice([0, -30, -12, 12, 20, 40]) for _ in range(dim)]
        if s.get("form") == "pair":
            s["unit"] = [s["unit"][0]] * dim
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(420 if tier == "quick" else 4000)]


def rvspec(r, u=1.0):
    d = {"loc": r["loc"] / 2 * u, "scale": r["scale"] / 2 * u}
    if r["t"] == "beta":
        d["a"], d["b"] = 2, 2
    return [r["t"], d]


def rvdom(r):
    lo, hi = r["loc"] / 2, (r["loc"] + r["scale"]) / 2
    return [-INF if r["t"] == "norm" else lo, hi if r["t"] in ("uniform", "beta") else INF]


def execute(s):
    dim, n, call, bad = s["dim"], s["n"], s["call"], s["bad"]
    box = np.array(s["box"], dtype=float) / 2
    want = {"ptype": "", "pars": "", "dom": enc.arr(None)}
    if call == "rand" or (call == "upd" and s["kind"] == "rv"):
        want = {"ptype": "rv", "pars": enc.deep([rvspec(r) for r in s["rv"]]), "dom": enc.arr([rvdom(r) for r in s["rv"]])}
    elif call == "lhs":
        want = {"ptype": "lhs", "pars": enc.deep("center" if s["crit"] == "rv" else s["crit"]), "dom": enc.arr(box)}
    elif call == "grid":
        want = {"ptype": "grid", "pars": enc.deep([float(x) for x in s["per"]]), "dom": enc.arr(box)}
    kdes, pars = None, None
    if call == "upd":
        import scipy.stats as st
        cs = range(1, len(s["w"]) + 1)
        w = [f(x) for x in s["w"]]
        if s["kind"] == "rv":
            pars = [rvspec(r) for r in s["rv"]]
        elif s["kind"] == "kde":
            pars = ([[st.gaussian_kde(20.0 * c + np.array([-1.0, -0.4, 0.4, 1.0]), weights=np.array([2.0, 1.0, 1.0, 2.0]))
                      if a else None for c, a in zip(cs, s["act"])] for _ in range(dim)], w)
        else:
            cov = (s["s"] / 10) ** 2 * (np.eye(dim) * 0.1 + 0.9)
            pars = ([np.array([20.0 * c] * dim) if a else None for c, a in zip(cs, s["act"])],
                    [cov if a else None for a in s["act"]], w)
        if s["kind"] != "rv":
            want = {"ptype": s["kind"], "pars": enc.deep(pars), "dom": enc.arr(None)}

    def body(rank, R):
        import bet.sample as S
        import bet.sampling.basicSampling as B
        import bet.sampling.LpGeneralizedSamples as L
        smp = B.sampler(lambda x: x)
        o = smp if s["cls"] else B
        uu = 2.0 ** np.array(s["unit"], dtype=float)
        raw = box * uu[:, None]
        obj = {"int": dim, "arr": raw.copy()}.get(s["obj"])
        if obj is None:
            obj = S.sample_set(dim)
            if s["obj"] == "setdom":
                obj.set_domain(raw.copy())
            if s["again"] and call != "grid":
                B.random_sample_set("uniform", obj, n + 3, globalize=False)
                if s["obj"] == "set":
                    obj._domain = None
        given = enc.deep(obj.get_domain()) if isinstance(obj, S.sample_set) else ""
        if bad == "obj":
            obj = "domain" if call != "rand" else [1.0]
        kept = True
        if call == "ball":
            p = np.inf if s["p"] == 9 else s["p"]
            loc = np.arange(1.0, dim + 1) if s["loc"] else None
            if s["kind"] == "unif":
                rad = s["s"] / 4
                x = L.Lp_generalized_uniform(dim, n, p, rad, loc)
            elif s["kind"] == "beta":
                rad = s["s"] / 4
                x = L.Lp_generalized_beta(dim, n, p, 2, rad, loc)
            else:
                # the p-th power of a coordinate has this scale
                rad = 1.0
                x = L.Lp_generalized_normal(dim, n, p, (s["s"] / 10.0) ** p * (2.0 if p == 2 else 1.0), loc)
            x = np.asarray(x)
            y = x - (loc if loc is not None else 0.0)
            nrm = np.linalg.norm(y, ord=p, axis=1) / rad
            # tenths of the scale in the unit of the quartile tables
            u = {"normal": 10000.0 / (np.sqrt(2.0) if s["p"] == 2 else 1.0)}.get(s["kind"], 1000.0)
            return {"loc": enc.fixarr(y / rad, u), "nrm": enc.fixarr(nrm, 1000)}
        if call == "rand":
            rv = {"str": s["rv"][0]["t"] if s["rv"][0]["t"] != "uniform" else s["alias"], "pair": rvspec(s["rv"][0], uu[0]),
                  "list": [rvspec(r, u) for r, u in zip(s["rv"], uu)], "tuple": tuple(rvspec(r, u) for r, u in zip(s["rv"], uu))}[s["form"]]
            if bad == "few":
                rv = [["norm", {}]] * (dim + 1)
            elif bad == "rvtype":
                rv = 3.0
            elif bad == "unknown":
                rv = "no_such_variable"
            a = o.random_sample_set(rv, obj, n, s["glob"])
        elif call == "lhs":
            if s["crit"] == "rv":
                a = o.random_sample_set("lhs", obj, n, globalize=s["glob"])
            else:
                a = o.lhs_sample_set(obj, n, s["crit"], globalize=s["glob"])
        elif call == "grid":
            per = {"num": s["per"][0], "list": s["per"], "arr": np.array(s["per"]), "tuple": tuple(s["per"])}[s["perform"]]
            a = o.regular_sample_set(obj, per)
            if isinstance(obj, S.sample_set):
                kept = obj.get_values() is None and enc.deep(obj.get_domain()) == given
        else:
            i = S.sample_set(dim)
            i.set_values(np.zeros((2, dim)))
            if bad != "undef":
                i.set_prob_type(s["kind"])
                i.set_prob_parameters(pars)
            i.set_prob_type_init("rv")
            i.set_prob_parameters_init([["uniform", {"loc": 500.0}]] * dim)
            h = i
            if s["holder"] == "disc":
                t = S.sample_set(1)
                t.set_values(np.zeros((2, 1)))
                h = S.discretization(i, t)
            a = B.sample_from_updated("set" if bad == "obj" else h, n, s["glob"])
            kept = (a is not i and enc.deep(i.get_prob_parameters()) == enc.deep(pars)
                    and i.get_values().shape == (2, dim) and i.get_prob_type_init() == "rv")
        if s["cls"] and call != "upd" and smp.input_sample_set is not a:
            kept = False
        lv = np.asarray(a.get_values_local(), dtype=float) / uu
        gv, dm = a.get_values(), a.get_domain()
        pp = a.get_prob_parameters_init()
        if call == "grid":
            pp = [float(x) for x in pp]
        elif want["ptype"] == "rv":
            pp = [[x[0], dict(x[1])] for x in pp]
            for x, u in zip(pp, uu):
                # standard location and scale may be left out
                x[1]["loc"] = x[1].get("loc", 0.0) / u
                x[1]["scale"] = x[1].get("scale", 1.0) / u
        r = {"loc": enc.fixarr(lv, 1000), "glo": enc.fixarr(None if gv is None else gv / uu, 1000), "ptype": enc.text(a.get_prob_type_init()),
             "pars": enc.deep(pp), "dom": enc.arr(None if dm is None else dm / uu[:, None]), "kept": kept}
        if call == "lhs":
            r["nrm"] = enc.fixarr((lv - box[:, 0]) / (box[:, 1] - box[:, 0]) * n, 1000)
        return r
    outs, logs = run(s, body)
    fill(outs, {"loc": enc.NONE, "glo": enc.NONE, "nrm": enc.NONE, "ptype": "", "pars": "", "dom": enc.NONE, "kept": True})
    ev = {"op": "smp", "outs": outs, "bad": bad != "", "box": [[qq(Fraction(x, 2)) for x in b] for b in s["box"]]}
    for k in ("call", "kind", "n", "dim", "glob", "rv", "w", "act", "s", "p", "per", "centred"):
        ev[k] = s[k]
    ev.update(want)
    return {"ev": [ev]}
