"""C14: simple-function output probabilities."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_SimpleFun", "quick": {"MaxC": 3, "MaxW": 3}, "thorough": {"MaxC": 5, "MaxW": 5}}]
RULE = ("random constructions of all ten kinds (regular/random/normal bins; rectangle by size, scale or domain; data, "
        "user partition) for arrays, sets and discretizations in 1-3 dimensions on 1-5 processes, scalar, list and "
        "array arguments, reference given or recorded, refused arguments; distinct by full recorded trace")
ASSUMPTIONS = ["random bins are judged against equal-mass quadrature within six standard deviations plus quadrature error",
               "user distributions given per process have equal lengths; data are held globally"]


def scenario(rng, i):
    dim = rng.choice([1, 1, 2, 2, 3])
    c = rng.choice(["us", "us", "us", "rs", "rs", "rs", "ds", "nn", "nn", "un", "un", "user", "user"])
    s = {"call": c, "dim": dim, "seed": i, "holder": rng.choice(["arr", "set", "disc", "disc"]), "bad": ""}
    s["R"] = rng.choice([1, 1, 2, 3, 5])
    s["vals"] = rpoints(rng, rng.randint(2, 6), dim, -3, 6, 4)
    if c in ("us", "rs"):
        # data must extend in every dimension for a scaled rectangle
        for k in range(dim):
            while len({tuple(v[k]) for v in s["vals"]}) < 2:
                s["vals"][0][k] = qq(Fraction(rng.randint(-12, 24), 4))
    if c == "ds" and rng.random() < 0.4:        # data may repeat
        s["vals"] += [list(rng.choice(s["vals"])) for _ in range(rng.randint(1, 3))]
    s["ref"] = rpoint(rng, dim, -2, 4, 4) if rng.random() < 0.8 else [[0, 1]] * dim
    s["refform"] = rng.choice(["arr", "list", "rec"] if s["holder"] != "arr" else ["arr", "list"])
    if dim == 1 and s["refform"] != "rec" and rng.random() < 0.4:
        s["refform"] = "num"
    s["form"] = rng.choice(["size", "scaled", "domain"])
    s["sizeform"] = rng.choice(["arr", "list", "num"])
    if s["form"] == "scaled":
        z = [Fraction(rng.choice([1, 2, 4, 5, 6]), 4) for _ in range(dim)]
    else:
        z = [Fraction(rng.choice([1, 2, 3, 5, 8, 12]), 2) for _ in range(dim)]
    if s["sizeform"] == "num":
        z = [z[0]] * dim
    s["size"] = [qq(x) for x in z]
    s["lo"] = [qq(fr(s["ref"][k]) - z[k] / 2) for k in range(dim)]
    s["hi"] = [qq(fr(s["ref"][k]) + z[k] / 2) for k in range(dim)]
    s["cells"] = [rng.randint(1, 4 if dim < 3 else 2) for _ in range(dim)]
    s["cellform"] = rng.choice(["list", "arr", "num"])
    if s["cellform"] == "num":
        s["cells"] = [s["cells"][0]] * dim
    st = [Fraction(rng.choice([1, 2, 3, 4]), 4) for _ in range(dim)]
    s["stdform"] = rng.choice(["arr", "list", "num"])
    if s["stdform"] == "num":
        st = [st[0]] * dim
    s["std"] = [qq(x) for x in st]
    if rng.random() < 0.3:
        s["M"], s["n"] = rng.choice([150, 300]), rng.choice([3, 10, 17])
    elif rng.random() < 0.75:
        s["M"], s["n"] = rng.randint(1, 5), rng.choice([2000, 4000, 4001, 10000])
    else:
        s["M"], s["n"] = rng.randint(1, 4), rng.randint(1, 30)
    s["nfloat"] = rng.random() < 0.5
    s["ints"] = rng.random() < 0.4               # whole numbers given as such
    if s["ints"] and rng.random() < 0.5:
        s["ref"] = [[rng.randint(-2, 4), 1] for _ in range(dim)]
        s["lo"] = [qq(fr(s["ref"][k]) - z[k] / 2) for k in range(dim)]
        s["hi"] = [qq(fr(s["ref"][k]) + z[k] / 2) for k in range(dim)]
    s["oldp"] = rng.random() < 0.4               # data that carry probabilities already
    if c == "user":
        s["bins"] = rpoints(rng, rng.randint(1, 5), dim, -2, 4, 2)
        P = {"kind": "vor", "p": "2", "vals": s["bins"]}
        s["vals"] = untied(rng, P, dim, len(s["vals"]))
        m = rng.randint(1, 8)
        if rng.random() < 0.5:
            s["distr"] = [untied(rng, P, dim, m)] * s["R"]
        else:
            s["distr"] = [untied(rng, P, dim, m) for _ in range(s["R"])]
        s["ph"], s["dh"] = rng.choice(["arr", "set", "disc"]), rng.choice(["arr", "set", "disc"])
    else:
        s["bins"], s["distr"] = [], []
    if rng.random() < 0.2:
        opts = {"us": ["nosize", "zerosize", "junk", "noref"], "rs": ["nosize", "zerosize", "junk", "noref"],
                "ds": ["junk"], "nn": ["reflen", "refshort", "noref", "bothlong"], "un": ["reflen", "refshort", "stdlen", "noref", "bothlong"],
                "user": ["junk", "junk2", "junk3", "dim2", "dim3"]}[c]
        b = rng.choice(opts)
        if b in ("nosize", "zerosize", "noref"):
            s["form"] = "size" if b == "nosize" else rng.choice(["size", "scaled"])
        if b == "stdlen":
            s["stdform"] = "list"
        if b == "reflen":
            s["refform"] = "list"
        s["bad"] = b
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(700 if tier == "quick" else 5000)]


def vec(q, form, ints=False):
    v = [f(x) for x in q]
    if ints and all(x == int(x) for x in v):
        v = [int(x) for x in v]
    return {"arr": np.array(v), "list": v, "num": v[0]}[form]


def hold(S, kind, vals, dim):
    if kind == "arr":
        return np.array(vals)
    o = S.sample_set(dim)
    o.set_values(np.array(vals))
    if kind == "set":
        return o
    i = S.sample_set(1)
    i.set_values(np.arange(float(len(vals))).reshape(-1, 1))
    i.set_reference_value(np.array([9.5]))
    return S.discretization(i, o)


def unit(s):
    """1/unit is the accuracy at which the bins' generating points are recorded (500 or finer, for small regions)"""
    f = lambda q: abs(q[0] / q[1])
    d = s["dim"]
    if s["call"] != "us":
        ext = [10 * f(q) for q in s["std"]]
    elif s["form"] == "domain":
        ext = [1.5 * abs(s["hi"][i][0] / s["hi"][i][1] - s["lo"][i][0] / s["lo"][i][1]) for i in range(d)]
    elif s["form"] == "scaled":
        ext = [1.5 * f(s["size"][i]) * (lambda c: max(c) - min(c))([v[i][0] / v[i][1] for v in s["vals"]]) for i in range(len(s["size"]))]
    else:
        ext = [1.5 * f(q) for q in s["size"]]
    u = 500
    while u < 16000 and 2 * u * max(ext, default=1) <= 20000:
        u *= 2
    return u


def execute(s):
    import bet.calculateP.simpleFunP as F
    dim, bad = s["dim"], s["bad"]

    def body(rank, R):
        import bet.sample as S
        v = A(s["vals"])
        h = hold(S, s["holder"], v, dim)
        if s["oldp"] and s["holder"] != "arr":
            w = np.arange(len(v)) % 3
            (h if s["holder"] == "set" else h._output_sample_set).set_probabilities(w / max(1, w.sum()))
        if s["refform"] == "rec" and bad != "noref":
            (h if s["holder"] == "set" else h._output_sample_set).set_reference_value(vec(s["ref"], "arr", s["ints"]))
        elif s["holder"] != "arr" and bad != "noref" and s["seed"] % 2:
            # a recorded reference value that the given one takes precedence over
            (h if s["holder"] == "set" else h._output_sample_set).set_reference_value(vec(s["ref"], "arr") + 1.75)
        ref = None if s["refform"] == "rec" or bad == "noref" else vec(s["ref"], s["refform"], s["ints"])
        if bad == "reflen":
            ref = [0.5] * (dim + 1)
        if bad == "bothlong":
            ref = [0.5] * (dim + 1)
        if bad == "refshort":
            ref = [0.5] * (dim - 1)
        size = vec(s["size"], s["sizeform"], s["ints"])
        if bad == "zerosize":
            size = np.array(vec(s["size"], "arr"))
            size[s["seed"] % dim] = [0.0, -1.0][s["seed"] % 2]
        if bad == "nosize":
            size = None
        std = vec(s["std"], s["stdform"], s["ints"])
        if bad == "stdlen":
            std = std + [1.0]
        if bad == "bothlong":
            std = [0.5] * (dim + 1)
        cells = {"num": s["cells"][0], "list": s["cells"], "arr": np.array(s["cells"])}[s["cellform"]]
        n = float(s["n"]) if s["nfloat"] else s["n"]
        dom = np.array([[f(x) for x in s["lo"]], [f(x) for x in s["hi"]]])
        for k in range(dim):
            if s["seed"] >> k & 1:  # any two opposite corners
                dom[:, k] = dom[::-1, k]
        arg = "data" if bad == "junk" else h
        kept = True
        try:
            c = s["call"]
            if c == "us":
                o = {"size": lambda: F.uniform_partition_uniform_distribution_rectangle_size(arg, ref, size, s["M"], n),
                     "scaled": lambda: F.uniform_partition_uniform_distribution_rectangle_scaled(arg, ref, size, s["M"], n),
                     "domain": lambda: F.uniform_partition_uniform_distribution_rectangle_domain(arg, dom, s["M"], n)
                     }[s["form"]]()
            elif c == "rs":
                o = {"size": lambda: F.regular_partition_uniform_distribution_rectangle_size(arg, ref, size, cells),
                     "scaled": lambda: F.regular_partition_uniform_distribution_rectangle_scaled(arg, ref, size, cells),
                     "domain": lambda: F.regular_partition_uniform_distribution_rectangle_domain(arg, dom, cells)
                     }[s["form"]]()
            elif c == "ds":
                o = F.uniform_partition_uniform_distribution_data_samples(arg)
            elif c == "nn":
                o = F.normal_partition_normal_distribution(arg, ref, std, s["M"], n)
            elif c == "un":
                o = F.uniform_partition_normal_distribution(arg, ref, std, s["M"], n)
            else:
                pv, dv = A(s["bins"]), A(s["distr"][rank])
                pd = dd = dim
                if bad == "dim2":
                    pv, pd = np.ones((2, dim + 1)), dim + 1
                if bad == "dim3":
                    dv, dd = np.ones((2, dim + 1)), dim + 1
                o = F.user_partition_user_distribution(
                    arg, "x" if bad == "junk2" else hold(S, s["ph"], pv, pd),
                    7 if bad == "junk3" else hold(S, s["dh"], dv, dd))
        except Exception as e:
            if s["holder"] == "disc":
                kept = h._output_probability_set is None and h._io_ptr is None
            return {"exc": enc.exc_name(e), "kept": kept}
        r = {"odim": o.get_dim(), "prob": enc.arr(o.get_probabilities()), "probf": enc.fixarr(o.get_probabilities())}
        if s["call"] == "rs":
            r["left"], r["right"] = enc.arr(o._left[:-1]), enc.arr(o._right[:-1])
        elif s["call"] in ("ds", "user"):
            r["val"] = enc.arr(o.get_values())
        else:
            r["valf"] = enc.fixarr(o.get_values(), 500)
            r["valg"] = enc.fixarr(o.get_values(), unit(s))
            x = np.asarray(o.get_probabilities(), float) * s["n"]
            r["cnt"] = {"sh": list(x.shape), "v": [int(round(y)) if np.isfinite(y) and abs(y - round(y)) < 1e-6 else -1 for y in x.ravel()]}
        if s["holder"] == "disc":
            r["isout"] = h.get_output_probability_set() is o if hasattr(h, "get_output_probability_set") else h._output_probability_set is o
            r["ptr"] = enc.ints(h.get_io_ptr() if False else h._io_ptr_local)
        hv = h if s["holder"] == "arr" else (h if s["holder"] == "set" else h._output_sample_set).get_values()
        r["datakept"] = bool(hv.shape == v.shape and np.all(hv == v))
        return r
    outs, logs = run(s, body)
    fill(outs, {"odim": -1, "prob": enc.NONE, "probf": enc.NONE, "left": enc.NONE, "right": enc.NONE, "val": enc.NONE,
                "valf": enc.NONE, "valg": enc.NONE, "cnt": enc.NONE, "isout": False, "ptr": enc.NONE, "datakept": True, "kept": True})
    ev = {"op": "sf", "outs": outs, "bad": bad != ""}
    ev["unit"] = unit(s)
    for k in ("call", "form", "dim", "holder", "vals", "ref", "size", "lo", "hi", "cells", "std", "M", "n", "bins", "distr"):
        ev[k] = s[k]
    return {"ev": [ev]}
