"""C24/C25: selections by density and marginals."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Post", "quick": {"N": 3}, "thorough": {"N": 4}},
          {"module": "MC_Post", "quick": {"Step": '"one"'}, "violates": "Selects"}]


def order(rng, s):
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def select(rng, i):
    dim = rng.randint(1, 3)
    n = rng.randint(1, 9)
    unit = 32
    if i % 25 == 24:
        dim, n, unit = rng.randint(1, 5), rng.choice([20, 60]), 256
    w = [rng.choice([0, 1, 1, 2, 3, 4]) for _ in range(n)]
    if not any(w):
        w[0] = 1
    P = [qq(Fraction(x, unit)) for x in w]
    V = [qq(Fraction(rng.choice([1, 2, 4, 8]), 32)) for _ in range(n)]
    if rng.random() < 0.3:
        for k in range(n):
            if w[k] == 0 and rng.random() < 0.6:
                V[k] = [0, 1]                 # cells that no Monte Carlo point fell into
    s = {"seed": i, "R": 1, "do": rng.choice(["sort", "sel", "sel"]), "x": rpoints(rng, n, dim), "P": P, "V": V, "hasv": rng.random() < 0.7,
         "disc": rng.random() < 0.5, "bad": rng.random() < 0.03, "low": rng.random() < 0.5, "sorted": rng.random() < 0.7,
         "pct": qq(Fraction(rng.randint(0, sum(w) + 1), unit)), "named": rng.random() < 0.5, "cls": rng.choice(["sample_set", "voronoi"])}
    s["hasy"] = s["disc"] and rng.random() < 0.85
    s["y"] = [[[rng.randint(-9, 9), 1] for _ in range(rng.choice([1, 2]))] for _ in range(1)]
    od = len(s["y"][0])
    s["y"] = [[[rng.randint(-9, 9), 1] for _ in range(od)] for _ in range(n)]
    s["punit"] = rng.choice([-30, -45, -60, 4, 20]) if rng.random() < 0.2 else 0      # very small probabilities, or any measure
    # samples much less likely than the others, still of positive probability: w / 2048 stands for w * 2^-75
    s["rare"] = [k for k in range(n) if w[k] and rng.random() < 0.4] if s["do"] == "sort" and unit == 32 and rng.random() < 0.2 else []
    for k in s["rare"]:
        s["P"][k] = qq(Fraction(w[k], 2048))
    return s


def marg(rng, i):
    d2 = rng.random() < 0.5
    dim = rng.randint(2 if d2 else 1, 3)
    n = rng.randint(1, 10)
    dom = []
    for _ in range(dim):
        lo = rng.randint(-3, 2)
        dom.append([[lo, 1], [lo + rng.choice([1, 2, 4]), 1]])
    nb = [rng.choice([1, 2, 4, 3] if rng.random() < 0.3 else [1, 2, 4, 8]) for _ in range(dim)]
    if rng.random() < 0.4:
        nb = [nb[0]] * dim
    dflt = rng.random() < 0.06
    if dflt:
        # the default number of bins, on a domain where their edges are exact
        dim, n, nb = rng.randint(2 if d2 else 1, 4), rng.choice([5, 40]), [20] * 4
        nb = nb[:dim]
        dom = [[[lo, 1], [lo + rng.choice([5, 20]), 1]] for lo in (rng.randint(-3, 2) for _ in range(dim))]
    x = []
    for _ in range(n):
        r = []
        for k in range(dim):
            lo, hi = fr(dom[k][0]), fr(dom[k][1])
            z = rng.random()
            if z < 0.15:
                v = lo
            elif z < 0.3:
                v = hi
            elif z < 0.55 and nb[k] not in (3, 20):
                v = lo + (hi - lo) * Fraction(rng.randint(0, nb[k]), nb[k])     # on an edge
            elif z < 0.7:
                v = rng.choice([lo - Fraction(1, 4), hi + Fraction(1, 4)])
            else:
                v = lo + (hi - lo) * Fraction(rng.randint(0, 64), 64)
            r.append(qq(v))
        x.append(r)
    P = rprobs(rng, n)
    if rng.random() < 0.15:
        m = rng.choice([Fraction(1, 8), 2, 5])             # of any total
        P = [qq(fr(p) * m) for p in P]
    s = {"seed": i, "R": rng.choice([1, 1, 2, 3, 5]), "do": "m2" if d2 else "m1", "x": x, "P": P, "dom": dom, "nb": nb,
         "scalar": len(set(nb)) == 1 and rng.random() < 0.6, "default": dflt, "hold": rng.choice(["set", "set", "disc", "emul"]),
         "view": rng.choice(["g", "gl", "l"]), "bad": False, "cls": rng.choice(["sample_set", "voronoi"])}
    if rng.random() < 0.05:
        s["bad"] = rng.choice(["prob", "obj"] + (["dim"] if d2 else []))
        s["view"] = "g"
        if s["bad"] == "dim":
            s["x"], s["dom"], s["nb"] = [r[:1] for r in x], dom[:1], nb[:1]
    return order(rng, s)


def smooth(rng, i):
    d2 = rng.random() < 0.5
    s = {"seed": i, "R": rng.choice([1, 1, 2]), "do": "s2" if d2 else "s1", "bad": False}
    dim = rng.randint(2, 3) if d2 else rng.randint(1, 3)
    nb = [rng.choice([5, 6, 7, 8] if d2 else [1, 5, 8, 9, 12, 16]) for _ in range(dim)]
    dx = [qq(Fraction(1, rng.choice([1, 2, 4, 5]))) for _ in range(dim)]
    # sigma small against the domain: at most an eighth of it
    sg = [qq(fr(dx[k]) * Fraction(rng.choice([1, 2, 4]), 8) * max(1, nb[k] // 4)) for k in range(dim)]
    s["scalar"] = rng.random() < 0.3
    if s["scalar"]:
        m = min(range(dim), key=lambda k: fr(sg[k]))
        sg = [sg[m]] * dim
    if rng.random() < 0.2:
        sg[0] = qq(fr(dx[0]) / 20)             # narrower than a bin: nothing changes
        if s["scalar"]:
            sg = [sg[0]] * dim
    edge = rng.random() < 0.25
    if edge:
        # wide along one axis, narrow along the others, with probability at the ends
        w = rng.randrange(dim)
        nb[w] = 16
        sg = [qq(fr(dx[k]) * Fraction(1, 8)) for k in range(dim)]
        sg[w] = qq(fr(dx[w]) * 2)
        s["scalar"] = False
    s["dx"], s["sg"], s["nb"] = dx, sg, nb
    s["lo"] = [rng.randint(-3, 3) for _ in range(dim)]
    keys = [(a, b) for a in range(dim) for b in range(a + 1, dim)] if d2 else [(a,) for a in range(dim)]
    if len(keys) > 1 and rng.random() < 0.3:
        keys = rng.sample(keys, len(keys) - 1)
    keys.sort()
    s["keys"] = keys
    s["w"] = []
    for k in keys:
        m = int(np.prod([nb[a] for a in k]))
        w = [0] * m
        for _ in range(rng.choice([1, 2, 16])):
            w[rng.randrange(m) if not edge else rng.choice([0, m - 1, rng.randrange(m)])] += 1
        s["w"].append(w)
    return s


def draw(rng, i):
    kind = rng.choice([1, 2])
    s = {"seed": i, "R": rng.choice([1, 2]), "do": "draw", "kind": kind, "bad": False, "surface": kind == 2 and rng.random() < 0.3,
         "contour": kind == 2 and rng.random() < 0.3}
    s["nb"] = [rng.choice([2, 3, 4]) for _ in range(2)]
    s["dx1"] = [qq(Fraction(1, rng.choice([1, 2, 4]))) for _ in range(2)]
    if kind == 1:
        s["m"] = [rprobs(rng, n) for n in s["nb"]]
    else:
        s["m"] = [rprobs(rng, s["nb"][0] * s["nb"][1])]
    return s


def execute(s):
    do = s["do"]
    import matplotlib
    matplotlib.use("Agg")

    def body(rank, R):
        import bet.sample as S
        import bet.postProcess.postTools as T
        import bet.postProcess.plotP as PP
        if do in ("sort", "sel"):
            dim = len(s["x"][0])
            i = (S.sample_set if s["cls"] == "sample_set" else S.voronoi_sample_set)(dim)
            i.set_values(A(s["x"]))
            unit = 2.0 ** s["punit"]
            pr = V(s["P"])
            for k in s["rare"]:
                pr[k] *= 2.0 ** -64
            i.set_probabilities(pr * unit)
            if s["hasv"]:
                i.set_volumes(V(s["V"]))
            q = i
            if s["disc"]:
                o = S.sample_set(len(s["y"][0]))
                if s["hasy"]:
                    o.set_values(A(s["y"]))
                q = S.discretization(i, o)
            if s["bad"]:
                q = A(s["x"])
            was = enc.deep([i.get_values(), i.get_probabilities(), i.get_volumes()])
            if do == "sort":
                r, ind = T.sort_by_rho(q)
                num = len(ind)
            elif s["named"]:
                num, r, ind = (T.sample_lowest_prob if s["low"] else T.sample_highest_prob)(f(s["pct"]) * unit, q, sort=s["sorted"])
            else:
                num, r, ind = T.sample_prob(f(s["pct"]) * unit, q, sort=s["sorted"], descending=s["low"])
            I = r.get_input_sample_set() if s["disc"] else r
            po = I.get_probabilities() / unit
            po = np.where(np.abs(po) < 2.0 ** -50, po * 2.0 ** 64, po)
            y = r.get_output_sample_set().get_values() if s["disc"] else None
            return {"x": enc.arr(I.get_values()), "p": enc.arr(po), "vol": enc.arr(I.get_volumes()), "y": enc.arr(y),
                    "ind": enc.ints(ind), "num": int(num), "kept": was == enc.deep([i.get_values(), i.get_probabilities(), i.get_volumes()])}
        if do in ("m1", "m2"):
            dim = len(s["x"][0])
            i = (S.sample_set if s["cls"] == "sample_set" else S.voronoi_sample_set)(dim)
            i.set_domain(np.array([[f(a), f(b)] for a, b in s["dom"]]))
            x, p = A(s["x"]), V(s["P"])
            if s["view"] in ("g", "gl"):
                i.set_values(x)
                if s["bad"] != "prob":
                    i.set_probabilities(p)
                if s["view"] == "gl":
                    i.global_to_local()
            else:
                i.set_values_local(split(x, R)[rank])
                i.set_probabilities_local(split(p, R)[rank])
            q = i
            if s["hold"] != "set":
                o = S.sample_set(1)
                if s["hold"] == "disc":
                    q = S.discretization(i, o)
                else:
                    other = S.sample_set(dim)
                    other.set_values(np.zeros((2, dim)))
                    other.set_probabilities(np.array([1.0, 0.0]))
                    other.set_domain(np.array([[0.0, 1.0]] * dim))
                    q = S.discretization(other, o)
                    q.set_emulated_input_sample_set(i)
            if s["bad"] == "obj":
                q = x
            fun = PP.calculate_1D_marginal_probs if do == "m1" else PP.calculate_2D_marginal_probs
            bins, m = fun(q) if s["default"] else fun(q, nbins=int(s["nb"][0]) if s["scalar"] else list(s["nb"]) if s["seed"] % 2 else np.array(s["nb"]))
            keys = sorted(m.keys())
            return {"bins": [enc.arr(b) for b in bins], "keys": [[k + 1, 0] if do == "m1" else [k[0] + 1, k[1] + 1] for k in keys],
                    "marg": [enc.arr(m[k]) for k in keys]}
        bins = [s["lo"][k] + f(s["dx"][k]) * np.arange(s["nb"][k] + 1) for k in range(len(s["nb"]))] if do != "draw" else None
        if do in ("s1", "s2"):
            m = {}
            for k, w in zip(s["keys"], s["w"]):
                a = np.array(w, dtype=float) / sum(w)
                m[k[0] if do == "s1" else tuple(k)] = a if do == "s1" else a.reshape(s["nb"][k[0]], s["nb"][k[1]])
            sg = f(s["sg"][0]) if s["scalar"] else V(s["sg"])
            was = {k: v.copy() for k, v in m.items()}
            r = (PP.smooth_marginals_1D if do == "s1" else PP.smooth_marginals_2D)(m, bins, sigma=sg)
            if any(not np.array_equal(was[k], m[k]) for k in m):
                return {"sm": []}
            return {"sm": [enc.fixarr(r[k]) for k in sorted(r)]}
        # drawing, the figure is caught when it is saved
        import matplotlib.figure as MF
        drawn = []

        def save(self, *a, **k):
            ax = self.axes[0]
            if s["kind"] == 1:
                drawn.append(np.array(ax.lines[0].get_ydata()))
            elif ax.images:
                drawn.append(np.asarray(ax.images[0].get_array()).transpose())
        i = S.sample_set(2)
        i.set_domain(np.array([[0.0, f(s["dx1"][k]) * s["nb"][k]] for k in range(2)]))
        i.set_reference_value(np.array([0.1, 0.2]))
        bins = [f(s["dx1"][k]) * np.arange(s["nb"][k] + 1) for k in range(2)]
        old, MF.Figure.savefig = MF.Figure.savefig, save
        try:
            if s["kind"] == 1:
                PP.plot_1D_marginal_probs({k: V(s["m"][k]) for k in range(2)}, bins, i, filename="/nowhere/f")
            else:
                mm = {(0, 1): V(s["m"][0]).reshape(s["nb"])}
                PP.plot_2D_marginal_probs(mm, bins, i, filename="/nowhere/f", plot_surface=s["surface"])
                if s["contour"]:
                    PP.plot_2D_marginal_contours(mm, bins, i, filename="/nowhere/f")
        finally:
            MF.Figure.savefig = old
        return {"drawn": [enc.arr(a) for a in drawn]}
    outs, _ = run(s, body)
    fill(outs, {k: enc.NONE for k in ("x", "p", "vol", "y", "ind")})
    fill(outs, {"num": -1, "kept": False, "bins": [], "keys": [], "marg": [], "sm": [], "drawn": []})
    ev = {"op": "post", "do": do, "bad": bool(s["bad"]), "outs": outs}
    for k in ("x", "P", "V", "hasv", "y", "hasy", "low", "sorted", "pct", "dom", "nb", "w", "kind", "m"):
        if k in s:
            ev[k] = s[k]
    if do in ("s1", "s2"):
        ev["r2"] = [[qq((fr(s["dx"][a]) / fr(s["sg"][a])) ** 2) for a in k] for k in s["keys"]]
        ev["ni"] = [s["nb"][k[0]] for k in s["keys"]]
        ev["nj"] = [s["nb"][k[-1]] for k in s["keys"]]
    if do == "draw":
        ev["dx"] = s["dx1"] if s["kind"] == 1 else [s["dx1"][0]]
        ev["dy"] = [s["dx1"][1]] * len(s["m"])
    return {"ev": [ev]}
