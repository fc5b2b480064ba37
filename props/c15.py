"""C15: data-consistent (density-based) updates."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Update", "quick": {"N": 3, "Grid": 2}, "thorough": {"N": 3, "Grid": 4}}]
RULE = ("random predicted and observed data of 1-3 clusters (shuffled membership, empty and single-value clusters, cluster maps, initial "
        "weights), one- and two-dimensional outputs, all five updates and rejection sampling on 1-4 processes, data held "
        "globally or distributed; distinct by full recorded trace")
ASSUMPTIONS = ["clusters taking part have at least three values on either side, not all equal or collinear, and weight on more than one sample",
               "densities are computed to 1e-4 absolute by a tabulated exponential; ratios judged to 2% + 0.006",
               "acceptance frequencies judged within six standard deviations over repeated runs"]


def good(v, d):
    """non-degenerate rows"""
    if d == 1:
        return len({r[0] for r in v}) > 1
    a = np.array([[float(x) for x in r] for r in v])
    return abs(np.linalg.det(np.cov(a.T))) > 0.05


def cloud(rng, n, d, lo=0, hi=8):
    while True:
        if n == 1:
            return [[Fraction(rng.randint(lo, hi), 2) for _ in range(d)]]
        v = [[Fraction(rng.randint(lo, hi), 2) for _ in range(d)] for _ in range(n)]
        if good(v, d):
            return v


def scenario(rng, i):
    C = rng.choice([1, 1, 2, 2, 3])
    dout, din = rng.choice([1, 1, 2]), rng.choice([1, 2])
    call = rng.choice(["inv", "gmm", "mg", "kde", "rv", "rej"])
    s = {"seed": i, "call": call, "C": C, "dout": dout, "din": din, "R": rng.choice([1, 1, 2, 3, 4])}
    s["regions"] = C > 1 or rng.random() < 0.4
    s["maps"] = s["regions"] and rng.random() < 0.3
    s["place"] = rng.choice(["g", "gl", "l"])
    while True:
        pn = [rng.randint(3, 6) for _ in range(C)]
        on = [rng.randint(3, 6) for _ in range(C)]
        if C > 1 and rng.random() < 0.35:
            pn[rng.randrange(C)] = rng.choice([0, 0, 1])
        if C > 1 and rng.random() < 0.3:
            on[rng.randrange(C)] = rng.choice([0, 1, 1])
        if any(a > 1 and b > 1 for a, b in zip(pn, on)):
            break
    # the number of clusters is that of the largest predicted label unless maps say so
    if pn[-1] == 0 and not s["maps"]:
        pn[-1] = 3
        if on[-1] == 0:
            on[-1] = 3
    s["pred"] = [[[qq(x) for x in r] for r in cloud(rng, n, dout)] if n else [] for n in pn]
    s["obs"] = [[[qq(x) for x in r] for r in cloud(rng, n, dout)] if n else [] for n in on]
    n = sum(pn)
    lab = [c for c in range(C) for _ in range(pn[c])]
    rng.shuffle(lab)
    s["lab"] = lab
    olab = [c for c in range(C) for _ in range(on[c])]
    # observations of a cluster that nothing predicted belongs to count in the shares of the others
    s["more"] = rng.randint(1, 3) if s["regions"] and not s["maps"] and rng.random() < 0.25 else 0
    s["mobs"] = [[qq(Fraction(rng.randint(0, 8), 2)) for _ in range(dout)] for _ in range(s["more"])]
    olab += [C] * s["more"]
    rng.shuffle(olab)
    s["olab"] = olab
    # kernels in a coordinate need different values of it
    cols = [rng.sample(range(-12, 16), n) for _ in range(din)]
    s["inq"] = [[c[k] for c in cols] for k in range(n)]
    s["winit"] = rng.random() < 0.3
    if s["winit"]:
        pw = [rng.choice([1, 1, 2]) for _ in range(n)]
    else:
        pw = [1] * n
    s["pw"] = pw
    s["bw"] = rng.choice([0, 0, 5625, 10000, 2500 * 9]) if not s["winit"] else rng.choice([5625, 10000])
    s["nrw"] = rng.choice([100, 1000, 10000])
    s["rvs"] = [rng.choice(["norm", "norm", "uniform"]) for _ in range(din)]
    s["rvform"] = rng.choice(["str", "pair", "list"])
    if s["rvform"] != "list":
        s["rvs"] = [s["rvs"][0]] * din
    # parameters that the caller fixes
    s["rvk"] = [{} for _ in range(din)]
    if s["rvform"] == "str":
        if rng.random() < 0.3:
            s["rvs"] = ["expon"] * din
    else:
        for k in range(din):
            if rng.random() < 0.5:
                s["rvs"][k], s["rvk"][k] = rng.choice([("norm", {"floc": rng.randint(-8, 8)}), ("gamma", {"fa": 2, "floc": -16}),
                                                       ("gamma", {"fa": 3, "floc": -20}), ("expon", {}),
                                                       ("beta", {"fa": 2, "fb": 5, "floc": -16}), ("beta", {"fa": 3, "fb": 4, "floc": -20})])
        if s["rvform"] == "pair":
            s["rvs"], s["rvk"] = [s["rvs"][0]] * din, [s["rvk"][0]] * din
    if all(x == "uniform" for x in s["rvs"]) and rng.random() < 0.5:
        s["nrw"] = rng.choice([10, 30])
    # regions on one side only do not say which clusters correspond
    s["half"] = rng.choice(["out", "obs"]) if not s["regions"] and not s["maps"] and rng.random() < 0.5 else ""
    s["bad"] = ""
    if call == "rv" and rng.random() < 0.15:
        s["bad"] = rng.choice(["few", "type"])
    s["reps"] = 60
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def spread(s):
    """no cluster's weight rests on one sample (a kernel estimate of one sample does not exist)"""
    from scipy.stats import gaussian_kde
    ms = {}
    for c, x in zip(s["lab"], s["pw"]):
        ms.setdefault(c, []).append(x)
    for i, (p, o) in enumerate(zip(s["pred"], s["obs"])):
        if len(p) > 1 and len(o) > 1:
            bw = None if s["bw"] == 0 else (s["bw"] / 10000.0) ** 0.5
            a, b = A(p).T, A(o).T
            w = gaussian_kde(b, bw)(a) / gaussian_kde(a, bw, weights=np.array(ms[i], dtype=float))(a)
            if not np.sum(w) > 0 or np.sum((w / np.sum(w)) ** 2) > 0.99:
                return False
    return True


def spread_scenario(rng, i):
    while True:
        s = scenario(rng, i)
        if spread(s):
            return s


def scenarios(tier, rng):
    return [spread_scenario(rng, i) for i in range(320 if tier == "quick" else 3000)]


def rows_by_label(lab, groups, d):
    """the j-th sample with label c holds the j-th row of group c"""
    pos = [0] * len(groups)
    out = []
    for c in lab:
        out.append([f(x) for x in groups[c][pos[c]]])
        pos[c] += 1
    return np.array(out, dtype=float).reshape(len(lab), d)


def execute(s):
    import bet.calculateP.calculateR as CR
    C = s["C"]
    idx = [[k for k, c in enumerate(s["lab"]) if c == i] for i in range(C)]
    pwc = [[s["pw"][k] for k in idx[i]] for i in range(C)]

    def body(rank, R):
        import bet.sample as S
        inp, out, obs = S.sample_set(s["din"]), S.sample_set(s["dout"]), S.sample_set(s["dout"])
        iv = np.array(s["inq"], dtype=float) / 4.0
        ov = rows_by_label(s["lab"], s["pred"], s["dout"])
        bv = rows_by_label(s["olab"], s["obs"] + [s["mobs"]], s["dout"])
        if s["maps"]:
            # what is compared is what the maps say
            out.set_cluster_maps([A(g, s["dout"]) for g in s["pred"]])
            obs.set_cluster_maps([A(g, s["dout"]) for g in s["obs"]])
            ov, bv = ov[::-1] * 3.0 + 1.0, bv[::-1] + 7.0
        for o, v in ((inp, iv), (out, ov)):
            if s["place"] == "l":
                o.set_values_local(split(v, R)[rank])
            else:
                o.set_values(v)
                if s["place"] == "gl":
                    o.global_to_local()
        obs.set_values(bv)
        if s["regions"]:
            out.set_region(np.array(s["lab"]))
            obs.set_region(np.array(s["olab"]))
        if s["half"]:
            o, k = (out, len(s["lab"])) if s["half"] == "out" else (obs, len(s["olab"]))
            o.set_region(np.arange(k) % 2)
        if s["winit"]:
            out.set_weights_init(np.array(s["pw"], dtype=float))
        d = S.discretization(inp, out, output_observed_set=obs)
        bw = None if s["bw"] == 0 else (s["bw"] / 10000.0) ** 0.5
        res = {"ret": True, "ptype": ""}
        if s["call"] == "rv":
            rv = [[a, {x: y / 4.0 if x == "floc" else float(y) for x, y in k.items()}] for a, k in zip(s["rvs"], s["rvk"])]
            if s["rvform"] == "str":
                rv = s["rvs"][0]
            elif s["rvform"] == "pair":
                rv = rv[0]
            if s["bad"] == "few":
                rv = [["norm", {}]] * (s["din"] + 1)
            elif s["bad"] == "type":
                rv = 5
            ret = CR.invert_to_random_variable(d, rv, s["nrw"], bw)
            if s["bad"]:
                return res
        elif s["call"] == "gmm":
            ret = CR.invert_to_gmm(d, bw)
        elif s["call"] == "mg":
            ret = CR.invert_to_multivariate_gaussian(d, bw)
        elif s["call"] == "kde":
            ret = CR.invert_to_kde(d, bw)
        isin = d.get_input_sample_set()
        if s["call"] == "rej":
            kept = np.zeros(len(iv), int)
            subset = probok = domok = True
            tok = []
            for k in range(s["reps"]):
                ns = CR.invert_rejection_sampling(d, bw)
                v = ns.get_values()
                tok.append(enc.deep(v))
                left = list(range(len(iv)))
                for row in v:
                    m = [j for j in left if np.array_equal(iv[j], row)]
                    if not m:
                        subset = False
                        continue
                    left.remove(m[0])
                    kept[m[0]] += 1
                p = ns.get_probabilities()
                probok = probok and len(p) == len(v) and np.allclose(p, 1.0 / len(v), atol=1e-12)
                dm = ns.get_domain()
                domok = domok and np.array_equal(dm[:, 0], v.min(0)) and np.array_equal(dm[:, 1], v.max(0))
            res.update(subset=subset, probok=bool(probok), domok=bool(domok),
                       kept={"sh": [len(kept)], "v": [int(x) for x in kept]}, rtok="".join(tok))
        w = isin.get_weights()
        if s["call"] not in ("inv", "rej"):
            # what the update recorded, before anything else is computed
            res["ptype"] = enc.text(isin.get_prob_type())
            rec = isin.get_prob_parameters()
            if s["call"] in ("gmm", "mg"):
                means, covs, cw = rec
                res["means"] = [enc.fixarr(None if m is None else np.asarray(m) * 4, 1000) for m in means]
                res["covs"] = [enc.fixarr(None if m is None else np.asarray(m) * 16, 1000) for m in covs]
                res["cw"] = enc.arr(cw)
                res["ret"] = len(ret) == 3 and enc.deep(list(ret)) == enc.deep(list(rec))
            elif s["call"] == "kde":
                ms, cw = rec
                res["cw"] = enc.arr(cw)
                res["kdes"] = [[{"ds": enc.NONE, "w": enc.NONE, "f2": 0, "f5": 0} if k is None else
                                {"ds": enc.arr(np.ravel(k.dataset)), "f2": enc.fix(k.factor ** 2, 10000), "f5": enc.fix(k.factor ** -5, 1000), "w": enc.fixarr(k.weights, 10000)} for k in a] for a in ms]
                res["ret"] = len(ret) == 2 and ret[0] is ms
            else:
                res["rv"] = [{"name": p[0], "loc": enc.fix(p[1].get("loc", 1e9) * 4, 1000),
                              "scale": enc.fix(p[1].get("scale", 1e9) * 4, 1000),
                              "a": enc.fix(p[1].get("a", 0), 1000), "b": enc.fix(p[1].get("b", 0), 1000)} for p in rec]
                res["ret"] = enc.deep([list(x) for x in ret]) == enc.deep([list(x) for x in rec])
        rs, r, lam = CR.invert(d, bw)
        w2 = isin.get_weights()
        res["weights"] = enc.fixarr(w, 10000) if w is not None else enc.fixarr(w2, 10000)
        res["r"] = [enc.NONE if x is None else enc.fixarr(x, 10000) for x in r]
        res["rs"] = [0 if x is None else enc.fix(x, 10000) for x in rs]
        res["lam"] = [enc.ints(x) for x in lam]
        rn, tw = [], []
        for x in r:
            rn.append([] if x is None else [int(round(y)) for y in 20000 * np.asarray(x) / np.max(x)] if np.max(x) > 0
                      else [0] * len(x))
        # total weights in the order of idx: ratio times share of observations
        big = max([np.max(x) * len(s["obs"][i]) for i, x in enumerate(r) if x is not None and len(x)] + [0])
        for i in range(C):
            if r[i] is None:
                tw += [0] * len(idx[i])
            else:
                tw += [int(round(20000 * y * len(s["obs"][i]) / big)) for y in r[i]]
        res["rn"], res["tw"] = rn, tw
        res["tok"] = enc.deep([res[k] for k in sorted(res)])
        return res
    outs, logs = run(s, body)
    fill(outs, {"ret": True, "ptype": "", "means": [], "covs": [], "cw": enc.NONE, "kdes": [], "rv": [], "r": [], "rs": [],
                "lam": [], "weights": enc.NONE, "rn": [], "tw": [], "subset": True, "probok": True, "domok": True,
                "kept": enc.NONE, "tok": ""})
    for o in outs:
        o.pop("rtok", None)
    ev = {"op": "dci", "outs": outs, "bad": s["bad"] != "", "idx": idx, "pw": pwc, "n": len(s["lab"]),
          "fix": [{"loc": k.get("floc", 99), "a": k.get("fa", 0), "b": k.get("fb", 0)} for k in s["rvk"]],
          "ptype": {"gmm": "gmm", "mg": "gmm", "kde": "kde", "rv": "rv"}.get(s["call"], "")}
    for k in ("call", "pred", "obs", "bw", "inq", "rvs", "nrw", "reps", "more"):
        ev[k] = s[k]
    return {"ev": [ev]}
