"""Histories of error estimations on one discretization (C19, C20)."""
import itertools
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

RULE = ("histories of 1-5 error estimations (adjacency, contour and region bounds, model errors) on one discretization: 1-3 "
        "dimensional samples in general position in any order, outputs in partitions of four kinds, bins of no probability, "
        "volumes given, local only, by emulated points or by the Monte Carlo assumption, 1-4 processes; distinct by full trace")


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def general(pts, d):
    """no d + 1 on a hyperplane, no d + 2 on a sphere"""
    for c in itertools.combinations(pts, d + 1):
        if det([[a - b for a, b in zip(p, c[0])] for p in c[1:]]) == 0:
            return False
    for c in itertools.combinations(pts, d + 2):
        m = [[a - b for a, b in zip(p, c[0])] for p in c[1:]]
        if det([r + [sum(v * v for v in r)] for r in m]) == 0:
            return False
    return True


def samples(rng, d):
    if d == 1:
        n = rng.randint(2, 9)
        return [[v] for v in rng.sample(range(-20, 21), n)]
    n = rng.randint(d + 2, 8 if d == 2 else 6)
    while True:
        pts = [[rng.randint(0, 9 if d == 2 else 6) for _ in range(d)] for _ in range(n)]
        if general(pts, d):
            return pts


def region_args(rng, s, qx):
    d = s["dim"]
    sv = {"kind": "vor", "p": rng.choice(["1", "2", "inf"])}
    for _ in range(2000):
        sv["vals"] = rpoints(rng, rng.randint(1, 4), d, -2, 8, 2)
        if not any(has_tie(sv, x) for x in qx + s["emu"]):
            break
    else:
        sv["vals"] = sv["vals"][:1]
    lab = [rng.randint(0, 2) for _ in sv["vals"]]
    return {"svals": sv["vals"], "sp": sv["p"], "lab": lab, "region": rng.choice(lab), "sv": sv}


def base(rng, i, dims=(1, 1, 2, 2, 3)):
    d = rng.choice(dims)
    s = {"seed": i, "dim": d, "R": rng.choice([1, 1, 2, 3, 4]), "x": samples(rng, d), "dout": rng.choice([1, 1, 2])}
    n = len(s["x"])
    s["bins"] = rpart(rng, s["dout"], nmax=4)
    s["prob"] = rprobs(rng, ncells(s["bins"]))
    qx = [[[v, 1] for v in r] for r in s["x"]]
    s["p"] = "2"
    own = {"kind": "vor", "p": "2", "vals": qx}
    s["hasemu"] = rng.random() < 0.35
    s["emu"] = untied(rng, own, d, rng.randint(4, 24), -2, 8 if d > 1 else 20, 4)
    # outputs mostly in few bins, so that inner sets are not empty
    if rng.random() < 0.6:
        few = untied(rng, s["bins"], s["dout"], 2)
        cut = rng.randint(-10, 10) if d == 1 else rng.randint(0, 9)
        s["y"] = [few[0] if r[0] <= cut else few[1] for r in s["x"]]
    else:
        s["y"] = untied(rng, s["bins"], s["dout"], n)
    ee = []
    for y in s["y"]:
        for _ in range(500):
            g = [qq(Fraction(rng.choice([0, 0, 0, 1, -1, 4, -6]), 4)) for _ in y]
            if not has_tie(s["bins"], [qq(fr(a) + fr(b)) for a, b in zip(y, g)]):
                break
        else:
            g = [[0, 1] for _ in y]
        ee.append(g)
    if rng.random() < 0.15:
        ee = [[[0, 1] for _ in y] for y in s["y"]]
    s["ee"] = ee
    s["volmode"] = rng.choice(["none", "none", "g", "l"])
    s["hasvol"] = s["volmode"] != "none"
    s["vol"] = [qq(Fraction(rng.randint(1, 6), 16)) for _ in range(n)]
    s["pexp"] = rng.choice([0, 0, 0, -40])         # bounds are proportional to the probabilities
    s["vexp"] = rng.choice([0, 0, -30, 20])        # and do not depend on the unit of volume
    s["place"] = rng.choice(["g", "gl", "lg"])
    s["int"] = all(v[1] == 1 for y in s["y"] for v in y)
    s["ptr"] = rng.choice(["none", "none", "g", "l"])
    s["emuptr"] = rng.choice(["none", "g", "l"]) if s["hasemu"] else "none"
    s["cls"] = "voronoi"
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def calls(rng, s, kinds):
    qx = [[[v, 1] for v in r] for r in s["x"]]
    own = {"kind": "vor", "p": "2", "vals": qx}
    out = []
    for _ in range(rng.randint(1, 5)):
        c = {"do": rng.choice(kinds), "pts": "", "bad": "", "emu": [], "svals": [], "sp": "2", "lab": [], "region": 0, "fresh": rng.random() < 0.3}
        if c["do"] in ("region", "mregion"):
            c["pts"] = rng.choice(["arg", "", "", "mc"]) if c["do"] == "mregion" else rng.choice(["arg", "", ""])
            a = region_args(rng, s, qx)
            sv = a.pop("sv")
            c.update(a)
            if c["pts"] == "arg":
                for _ in range(300):
                    c["emu"] = untied(rng, own, s["dim"], rng.randint(3, 16), -2, 8 if s["dim"] > 1 else 20, 4)
                    if not any(has_tie(sv, x) for x in c["emu"]):
                        break
                else:
                    c["pts"] = ""
            if rng.random() < 0.08:
                c["bad"] = rng.choice(["absent", "none"])
        elif c["do"] == "conn" and rng.random() < 0.1:
            c["bad"] = rng.choice(["type", "disc", "norm"])
        out.append(c)
    return out


def execute(s):
    evs = []
    n = len(s["x"])

    def body(rank, R):
        import bet.sample as S
        import bet.calculateP.calculateError as E
        vol = V(s["vol"]) * 2.0 ** s["vexp"]
        X, Yv, EEv = np.array(s["x"], dtype=float), A(s["y"]), A(s["ee"])
        if s["int"]:
            Yv = Yv.astype(int)
        inp, out = S.voronoi_sample_set(s["dim"]), S.sample_set(s["dout"])
        inp.set_p_norm(2.0)
        for o, v in ((inp, X), (out, Yv)):
            if s["place"] == "lg":
                o.set_values_local(split(v, R)[rank])
                o.local_to_global()
            else:
                o.set_values(v)
        out.set_error_estimates(EEv)
        if s["place"] == "gl":
            inp.global_to_local()
            out.global_to_local()
        if s["volmode"] == "g":
            inp.set_volumes(vol)
        elif s["volmode"] == "l":
            inp.global_to_local()
            inp.set_volumes_local(split(vol, R)[rank])
        bins = make_part(s["bins"], s["dout"])
        bins.set_probabilities(V(s["prob"]) * 2.0 ** s["pexp"])
        d = S.discretization(inp, out, output_probability_set=bins)
        if s["hasemu"]:
            em = S.sample_set(s["dim"])
            em.set_values(A(s["emu"]))
            d.set_emulated_input_sample_set(em)
            if s["emuptr"] != "none":
                d.set_emulated_ii_ptr(globalize=s["emuptr"] == "g")
        if s["ptr"] != "none":
            d.set_io_ptr(globalize=s["ptr"] == "g")
        tok = lambda: [enc.deep(v) for v in (out.get_values(), out.get_values_local(), out.get_error_estimates(),
                                             out.get_error_estimates_local(), d._io_ptr, d._io_ptr_local,
                                             d._emulated_ii_ptr, d._emulated_ii_ptr_local)]
        before = tok()
        est = {}

        def get(kind, fresh):
            if fresh or kind not in est:
                est[kind] = E.sampling_error(d) if kind == "s" else E.model_error(d)
            return est[kind]

        def un(v):
            return enc.fixarr(np.asarray(v, dtype=float) / 2.0 ** s["pexp"])

        def one(c):
            r = {}
            bad = c["bad"]
            if c["do"] in ("region", "mregion"):
                ss = S.sample_set(s["dim"])
                ss.set_p_norm(PN[c["sp"]])
                ss.set_values(A(c["svals"]))
                if bad != "none":
                    ss.set_region(np.array(c["lab"]))
                reg = 77 if bad == "absent" else c["region"]
                em = None
                if c["pts"] == "arg":
                    em = S.sample_set(s["dim"])
                    em.set_values(A(c["emu"]))
            if c["do"] == "conn":
                q = d
                if bad:
                    q = d.copy()
                    if bad == "type":
                        q = inp
                    elif bad == "disc":
                        q._input_sample_set = S.ball_sample_set(s["dim"])
                        q._input_sample_set.set_values(X)
                    else:
                        q._input_sample_set.set_p_norm(1.0)
                nei = E.cell_connectivity_exact(q)
                bn, cn = E.boundary_sets(q, nei)
                nb = len(s["prob"])
                r["nei"] = [enc.ints(np.array(list(nei[i]), dtype=float)) for i in range(n)]
                r["bn"] = [enc.ints(np.array(bn[b] if b in bn else [], dtype=float)) for b in range(nb)]
                r["cn"] = [enc.ints(np.array(cn[b] if b in cn else [], dtype=float)) for b in range(nb)]
            elif c["do"] == "contour":
                up, lo = get("s", c["fresh"]).calculate_for_contour_events()
                r["up"], r["lo"] = un(up), un(lo)
            elif c["do"] == "region":
                up, lo = get("s", c["fresh"]).calculate_for_sample_set_region(ss, reg, em)
                r["up"], r["lo"] = un([up]), un([lo])
            elif c["do"] == "mcontour":
                r["up"] = un(get("m", c["fresh"]).calculate_for_contour_events())
            else:
                m = get("m", c["fresh"])
                if c["pts"] == "mc":
                    r["up"] = un([m.calculate_for_sample_set_region_mc(ss, reg)])
                    r["eid"] = un(inp._error_id_local)
                else:
                    r["up"] = un([m.calculate_for_sample_set_region(ss, reg, em)])
            return r
        res = []
        for c in s["calls"]:
            try:
                res.append(dict(one(c), exc=""))
            except Exception as e:
                if type(e).__name__ in ("Deadlock", "Abort", "SpmdError"):
                    raise
                res.append({"exc": enc.exc_name(e)})
        after = tok()
        # what was missing may be computed, nothing changed
        kept = all(b == "~" or b == a for b, a in zip(before, after))
        res.append({"exc": "", "kept": bool(kept)})
        return {"res": res}
    outs, logs = run(s, body)
    base0 = {"nei": [], "bn": [], "cn": [], "up": enc.NONE, "lo": enc.NONE, "eid": {"sh": [0], "v": []}, "kept": False}
    for k, c in enumerate(s["calls"] + [{"do": "kept", "pts": "", "bad": "", "emu": [], "svals": [], "sp": "2", "lab": [], "region": 0}]):
        os_ = [dict(o["res"][k]) if "res" in o else {"exc": o["exc"]} for o in outs]
        fill(os_, base0)
        ev = {"op": "err", "outs": os_, "bad": c["bad"] != ""}
        for f0 in ("do", "pts", "emu", "svals", "sp", "lab", "region"):
            ev[f0] = c[f0]
        if c["pts"] == "mc":
            ev["pts"] = "mc"
        evs.append(ev)
    init = {k: s[k] for k in ("x", "y", "ee", "bins", "prob", "p", "hasvol", "vol", "hasemu", "emu")}
    return {"ev": evs, "init": init}
