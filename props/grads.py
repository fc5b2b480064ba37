"""C21/C22: gradients from clusters of samples."""
from fractions import Fraction
import math
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Gradient", "quick": {"Kind": '"ffd"', "Deg": 1}, "thorough": {"Kind": '"ffd"', "Deg": 2}},
          {"module": "MC_Gradient", "quick": {"Kind": '"cfd"', "Deg": 2}, "thorough": {"Kind": '"cfd"', "Deg": 2}},
          {"module": "MC_Gradient", "quick": {"Kind": '"cfd"', "Deg": 2, "Shared": "TRUE"}, "violates": "Exact"}]
RULE = ("clusters around 1-12 centres in 1-3 (some 6) dimensions, any unit of length, scalar and per-coordinate radii, arbitrary rational output tables "
        "(floating and integer), domains kept, norms scaled or not; kernels by name (also names built at run time), shape "
        "parameters, neighbourhoods of 2-13 samples, smaller than clusters too, norms of the set; random clusters judged by count, radius and domain; "
        "distinct by full trace")
KERNELS = ["C4Matern", "Gaussian", "Multiquadric", "InverseMultiquadric"]


def rads(rng, dim):
    if rng.random() < 0.4:
        r = [1, rng.choice([1, 2, 4, 8])]
        return [r] * dim, True
    return [qq(Fraction(rng.randint(1, 3), rng.choice([1, 2, 4]))) for _ in range(dim)], False


def dom(rng, dim):
    if rng.random() < 0.3:                      # stencils reach beyond it
        return [[0, 1 + k] for k in range(dim)]
    return [[-20, 20 + k] for k in range(dim)] if rng.random() < 0.5 else None


def stencil(rng):
    big = rng.random() < 0.05
    dim = rng.randint(1, 3) if not big else rng.randint(4, 6)
    rad, scalar = rads(rng, dim)
    return {"do": "stencil", "kind": rng.choice(["ffd", "cfd"]), "rad": rad, "scalar": scalar, "bad": rng.random() < 0.04,
            "c": rpoints(rng, rng.randint(1, 4) if not big else rng.choice([5, 12]), dim), "dom": dom(rng, dim),
            "unit": rng.choice([0, 0, 0, -10, -26, -45, 14])}       # results do not depend on the unit of length


def fd(rng):
    s = stencil(rng)
    s["do"] = "fd"
    od = rng.randint(1, 3) if len(s["c"]) < 5 else rng.randint(4, 6)
    d = len(s["c"][0])
    n = len(s["c"]) * (1 + d * (1 if s["kind"] == "ffd" else 2))
    s["int"] = rng.random() < 0.25
    if s["int"]:
        s["unit"] = 0
    den = 1 if s["int"] else rng.choice([1, 2, 3, 4])
    s["y"] = [[qq(Fraction(rng.randint(-20, 20), den)) for _ in range(od)] for _ in range(n)]
    if rng.random() < 0.3:
        o = rng.randrange(od)
        for r in s["y"]:
            r[o] = [3, 1]                    # a constant output has a zero row
    s["nrm"] = rng.random() < 0.4
    s["default"] = s["nrm"] and rng.random() < 0.5
    s["odom"] = rng.random() < 0.4
    s["yunit"] = s["unit"] + rng.choice([0, 0, -20, -60, 30]) if not s["int"] else 0
    return s


def phi(kernel, r, ep):
    e = ep * r
    if kernel == "C4Matern":
        return (1 + e + e * e / 3) * math.exp(-e)
    if kernel == "Gaussian":
        return math.exp(-e * e)
    if kernel == "Multiquadric":
        return math.sqrt(1 + e * e)
    return 1 / math.sqrt(1 + e * e)


def rbf(rng):
    dim = rng.randint(1, 2)
    p = rng.choice(["2", "2", "2", "1", "inf"])
    kernel = rng.choice(KERNELS)
    ep = rng.choice([[1, 1], [1, 1], [1, 2], [3, 2], [2, 1]])
    nc = rng.randint(1, 3)
    size = dim + 2 if rng.random() < 0.5 else rng.randint(dim + 1, dim + 4)
    nn = size if rng.random() < 0.6 else rng.randint(2, size)
    lat = [Fraction(k, 4) for k in range(-8, 9)]
    if rng.random() < 0.08:                   # many neighbours, far enough apart to be told apart
        dim, p, kernel, ep, nc = 2, "2", "C4Matern", [2, 1], rng.randint(1, 2)
        size = rng.randint(10, 13)
        nn = rng.randint(9, size)
        lat = [Fraction(k, 2) for k in range(-7, 8)]

    def cluster(c):
        pts, D = [], set()
        while len(pts) < size - 1:
            q = tuple(rng.choice(lat) for _ in range(dim))
            r = distp(p, [qq(v) for v in q], [[0, 1]] * dim)
            if any(q) and r not in D:
                D.add(r)
                pts.append(q)
        return [[qq(fr(c[k]) + q[k]) for k in range(dim)] for q in pts]
    cs = [[qq(Fraction(40 * i + rng.randint(-2, 2), 2)) for _ in range(dim)] for i in range(nc)]
    rest, owner = [], []
    for i, c in enumerate(cs):
        for q in cluster(c):
            rest.append(q)
            owner.append(i)
    z = list(zip(rest, owner))
    rng.shuffle(z)                            # the order of the samples does not matter
    x = cs + [q for q, _ in z]
    od = rng.randint(1, 2)
    a = [[rng.randint(-3, 3) for _ in x] for _ in range(od)]
    if rng.random() < 0.2:
        a[0] = [0] * len(x)
    return {"do": "rbf", "x": x, "a": a, "p": p, "kernel": kernel, "ep": ep, "nc": nc, "nn": nn, "nrm": rng.random() < 0.3,
            "dom": None, "bad": False, "dyn": rng.random() < 0.7,
            "defk": kernel == "Gaussian" and rng.random() < 0.4, "defe": ep == [1, 1] and rng.random() < 0.5,
            "defn": nn == dim + 2 and rng.random() < 0.6, "defc": size == dim + 2 and rng.random() < 0.6}


def rbfbad(rng):
    s = rbf(rng)
    s["bad"], s["badk"] = True, rng.choice(["gaussian", "", "Gaussian ", "Matern"])
    s["defk"] = False
    return s


def kern(rng):
    kernel = rng.choice(KERNELS)
    ep = rng.choice([[1, 1], [1, 2], [3, 2], [2, 1]])
    n = rng.randint(1, 6)
    s = {"do": "kern", "kernel": kernel, "ep": ep, "bad": rng.random() < 0.1, "dyn": rng.random() < 0.7,
         "r": [[rng.randint(0, 8), 4] for _ in range(n)], "xi": [[rng.randint(-8, 8), 4] for _ in range(n)],
         "defe": ep == [1, 1] and rng.random() < 0.5, "defk": kernel == "C4Matern" and rng.random() < 0.4}
    if s["bad"]:
        s["badk"] = rng.choice(["c4matern", "", "Multi"])
        s["defk"] = False
    return s


def ball(rng):
    dim = rng.randint(1, 3)
    rad, scalar = rads(rng, dim)
    p = rng.choice(["2", "1", "inf"])
    hasdom = rng.random() < 0.6
    if rng.random() < 0.9:
        c = rpoints(rng, rng.randint(1, 4), dim, 0, 4)
    else:
        c = [[qq(Fraction(v, 4))] + [[2, 1]] * (dim - 1) for v in rng.sample(range(17), rng.choice([9, 12]))]
    if hasdom and rng.random() < 0.6:
        c[0] = [rng.choice([[0, 1], [4, 1]]) for _ in range(dim)]     # in a corner
    return {"do": "ball", "c": c, "rad": rad, "scalar": scalar, "p": p, "k": rng.choice([1, 2, 5, 12]), "hasdom": hasdom,
            "bad": rng.random() < 0.03, "named": rng.random() < 0.5, "lo": [[0, 1]] * dim, "hi": [[4, 1]] * dim}


def execute(s):
    do = s["do"]
    ev = {"op": "grad", "do": do, "bad": s["bad"]}

    def body(rank, R):
        import bet.sample as S
        import bet.sensitivity.gradients as G

        def back(a):
            return a if a is None or not s.get("unit") else np.asarray(a) / 2.0 ** s["unit"]

        def name():
            k = s.get("badk", s["kernel"])
            if s.get("defk"):
                return None
            return "".join(list(k)) if s["dyn"] else k
        if do == "kern":
            r, xi = V(s["r"]), V(s["xi"])
            ep = None if s["defe"] else f(s["ep"])
            if s["bad"]:
                if s["seed"] % 2:
                    G.radial_basis_function(r, name(), ep)
                else:
                    G.radial_basis_function_dxi(r, xi, name(), ep)
                return {}
            return {"v": enc.fixarr(G.radial_basis_function(r, name(), ep)), "d": enc.fixarr(G.radial_basis_function_dxi(r, xi, name(), ep))}
        if do in ("stencil", "ball") or do == "fd":
            dim = len(s["c"][0])
            i = S.sample_set(dim)
            unit = 2.0 ** s.get("unit", 0)
            if not (s["bad"] and do != "fd"):
                i.set_values(A(s["c"]) * unit)
            if do == "ball":
                if s["hasdom"]:
                    i.set_domain(np.array([[f(a), f(b)] for a, b in zip(s["lo"], s["hi"])]))
            elif s["dom"]:
                i.set_domain(np.array(s["dom"], dtype=float) * unit)
            rad = f(s["rad"][0]) * unit if s["scalar"] else V(s["rad"]) * unit
            if do == "ball":
                if s["named"] and s["p"] == "inf":
                    q = G.sample_linf_ball(i, s["k"], rad)
                elif s["named"] and s["p"] == "1":
                    q = G.sample_l1_ball(i, s["k"], rad)
                elif s["named"] and s["p"] == "2":
                    q = G.sample_lp_ball(i, s["k"], rad)
                else:
                    q = G.sample_lp_ball(i, s["k"], rad, p_num=PN[s["p"]])
                return {"x": enc.fixarr(q.get_values())}
            q = (G.pick_ffd_points if s["kind"] == "ffd" else G.pick_cfd_points)(i, rad)
            if do == "stencil":
                return {"x": enc.arr(back(q.get_values())), "dom": enc.arr(back(q.get_domain()))}
            y = A(s["y"]) * 2.0 ** s["yunit"]
            if s["int"]:
                y = A(s["y"]).astype(int)
            o = S.sample_set(y.shape[1])
            if not s["bad"]:
                o.set_values(y)
            d = S.discretization(q, o)
            if s["odom"]:
                o.set_domain(np.array([[-50.0, 50.0]] * y.shape[1]))
            was = enc.deep([q.get_values(), o.get_values()])
            fun = G.calculate_gradients_ffd if s["kind"] == "ffd" else G.calculate_gradients_cfd
            c = fun(d) if s["default"] else fun(d, normalize=s["nrm"])
        else:
            dim = len(s["x"][0])
            q = S.sample_set(dim)
            q.set_p_norm(PN[s["p"]])
            q.set_values(A(s["x"]))
            o = S.sample_set(len(s["a"]))
            o.set_values(data(s))
            d = S.discretization(q, o)
            was = enc.deep([q.get_values(), enc.fixarr(o.get_values())])
            c = G.calculate_gradients_rbf(d, num_centers=None if s["defc"] else s["nc"], num_neighbors=None if s["defn"] else s["nn"],
                                          RBF=name(), ep=None if s["defe"] else f(s["ep"]), normalize=s["nrm"])
        I, O = c.get_input_sample_set(), c.get_output_sample_set()
        e2 = enc.fixarr if do == "rbf" else enc.arr
        J, cy = I.get_jacobians(), O.get_values()
        if do == "fd":
            cy = cy if cy is None else cy / 2.0 ** s["yunit"]
            if not s["nrm"] and J is not None:
                J = J * 2.0 ** (s["unit"] - s["yunit"])
        return {"cx": enc.arr(back(I.get_values())), "cy": e2(cy), "J": e2(J),
                "dom": enc.arr(back(I.get_domain())), "odom": enc.arr(O.get_domain()),
                "kept": was == enc.deep([q.get_values(), enc.fixarr(o.get_values()) if do == "rbf" else o.get_values()])}
    if do == "rbf":
        ev["yfix"] = [[enc.fix(v) for v in r] for r in data(s).tolist()]
    outs, _ = run(s, body)
    fill(outs, {k: enc.NONE for k in ("x", "cx", "cy", "J", "dom", "odom", "v", "d")})
    fill(outs, {"kept": False})
    ev["outs"] = outs
    for k in ("kind", "c", "rad", "y", "nrm", "x", "a", "p", "kernel", "ep", "nc", "nn", "k", "hasdom", "lo", "hi"):
        if k in s:
            ev[k] = s[k]
    if do in ("stencil", "fd", "rbf"):
        ev["dom"] = enc.arr(None if not s["dom"] else np.array(s["dom"]))
    if do == "fd":
        ev["odom"] = enc.arr(None if not s["odom"] else np.array([[-50, 50]] * len(s["y"][0])))
        ev["x"] = points(s)
    if do == "kern":
        e2 = fr(s["ep"]) ** 2
        ev["s"] = [qq(e2 * fr(r) ** 2) for r in s["r"]]
        ev["e2x"] = [qq(e2 * fr(x)) for x in s["xi"]]
    return {"ev": [ev]}


def points(s):
    """the stencil (judged on its own by the stencil events)"""
    out = list(s["c"])
    for c in s["c"]:
        for sg in ((1,) if s["kind"] == "ffd" else (1, -1)):
            for k in range(len(c)):
                out.append([qq(fr(v) + sg * fr(s["rad"][k]) * (j == k)) for j, v in enumerate(c)])
    return out


def data(s):
    """values, near each centre, of a combination of kernels at its nn nearest samples"""
    x = A(s["x"])
    ep, n = f(s["ep"]), len(s["x"])
    y = np.ones((n, len(s["a"])))
    y *= np.arange(n)[:, None] % 7 + 5.0
    for c in range(s["nc"]):
        near = sorted(range(n), key=lambda i: distp(s["p"], s["x"][i], s["x"][c]))[:s["nn"]]
        for i in near:
            for o, a in enumerate(s["a"]):
                y[i, o] = sum(a[m] * phi(s["kernel"], np.linalg.norm(x[i] - x[m]), ep) for m in near)
    return y
