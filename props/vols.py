"""Volume and radius scenarios shared by C05 and C06."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

SCALES = [Fraction(1), Fraction(1, 4), Fraction(1, 8), Fraction(2), Fraction(1, 16)]


def ranks(rng, s):
    s["R"] = rng.choice([1, 1, 2, 3, 4, 6])
    s["unit"] = rng.choice([0, 0, 0, -12, -34, 16])      # shares do not depend on the unit of length
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def geo1(rng, nmax=7):
    """distinct samples of an interval, in any order"""
    n = rng.randint(1, nmax)
    W = rng.choice([8, 12, 16, 20, 32])
    if nmax < 9 and rng.random() < 0.03:
        n, W = rng.choice([25, 60]), 128
    sc, off = rng.choice(SCALES), Fraction(rng.randint(-8, 8), 4)
    xs = rng.sample(range(0, W + 1), n)
    if rng.random() < 0.2:
        xs.sort()
    return {"geo": "1d", "dim": 1, "p": rng.choice(["1", "2", "inf"]), "dom": [[qq(off), qq(off + W * sc)]],
            "xs": [qq(off + x * sc) for x in xs]}


def geo2(rng, nmin=1, nmax=7, square=False):
    n = rng.randint(nmin, nmax)
    W = rng.choice([8, 12, 16])
    H = W if square else rng.choice([8, 12, 16])
    sc = rng.choice(SCALES)
    off = [Fraction(rng.randint(-8, 8), 4) for _ in range(2)]
    pts = []
    while len(pts) < n:
        p = [rng.randint(1, W - 1), rng.randint(1, H - 1)]
        if p not in pts:
            pts.append(p)
    if rng.random() < 0.12 and nmin <= 4:
        # a regular grid of samples
        pts = [[W * (2 * i + 1) // 4, H * (2 * j + 1) // 4] for i in range(2) for j in range(2)]
        rng.shuffle(pts)
    return {"geo": "2d", "dim": 2, "p": "2", "W": W, "H": H, "s": pts,
            "dom": [[qq(off[0]), qq(off[0] + W * sc)], [qq(off[1]), qq(off[1] + H * sc)]],
            "vals": [[qq(off[k] + p[k] * sc) for k in range(2)] for p in pts]}


RING = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]


def georing(rng):
    """one cell with many neighbours: a sample within a ring of 7 to 12 others"""
    W, H = rng.choice([(12, 12), (16, 12), (14, 16)])
    c = [rng.randint(6, W - 6), rng.randint(6, H - 6)]
    pts = [c] + [[c[0] + x, c[1] + y] for x, y in rng.sample(RING, rng.randint(7, 12))]
    rng.shuffle(pts)
    sc = rng.choice(SCALES)
    off = [Fraction(rng.randint(-8, 8), 4) for _ in range(2)]
    return {"geo": "2d", "dim": 2, "p": "2", "W": W, "H": H, "s": pts,
            "dom": [[qq(off[0]), qq(off[0] + W * sc)], [qq(off[1]), qq(off[1] + H * sc)]],
            "vals": [[qq(off[k] + p[k] * sc) for k in range(2)] for p in pts]}


def georect(rng):
    dim = rng.choice([1, 2, 2, 3, 3, 4, 5])
    W = 8 if dim < 4 else 4
    sides = [sorted(rng.sample(range(0, W + 1), rng.choice([2, 3, 4] if dim < 3 else [2, 3]))) for _ in range(dim)]
    off = [Fraction(rng.randint(-8, 8), 4) for _ in range(dim)]
    sc = [rng.choice(SCALES[:3]) for _ in range(dim)]
    xi = [[off[d] + sc[d] * v for v in sides[d]] for d in range(dim)]
    dom = [[qq(off[d]), qq(off[d] + sc[d] * W)] for d in range(dim)]
    L, R = cart_boxes(xi)
    s = {"geo": "rect", "dim": dim, "dom": dom}
    if rng.random() < 0.4:
        s["bins"] = {"kind": "rect", "xi": [[qq(v) for v in x] for x in xi],
                     "left": [[qq(v) for v in r] for r in L], "right": [[qq(v) for v in r] for r in R]}
    else:
        idx = list(range(len(L)))
        rng.shuffle(idx)
        idx = idx[:rng.randint(1, len(idx))]
        s["bins"] = {"kind": "rect", "left": [[qq(v) for v in L[i]] for i in idx],
                     "right": [[qq(v) for v in R[i]] for i in idx]}
    return s


def geogrid(rng, equal=False):
    """samples in the centres of the boxes of a regular grid: their cells are the boxes in the norms 1 and 2"""
    dim = rng.choice([2, 2, 3])
    cells = [rng.randint(1, 3 if dim < 3 else 2) for _ in range(dim)]
    p = rng.choice(["1", "2", "inf"])
    if p == "inf":
        cells = [1] * dim           # more samples have equally distant points of positive measure
    wid = [Fraction(rng.choice([12, 24, 6]), 4) for _ in range(dim)]
    if equal:
        wid = [wid[0]] * dim
    off = [Fraction(rng.randint(-8, 8), 4) for _ in range(dim)]
    vals = [[]]
    for k in range(dim):
        vals = [v + [qq(off[k] + wid[k] * Fraction(2 * j + 1, 2 * cells[k]))] for v in vals for j in range(cells[k])]
    rng.shuffle(vals)
    return {"geo": "grid", "dim": dim, "p": p, "cells": cells, "vals": vals,
            "dom": [[qq(off[k]), qq(off[k] + wid[k])] for k in range(dim)]}


def geoball(rng):
    """disjoint balls inside a domain"""
    dim = rng.choice([1, 2, 2, 3, 3, 4, 5])
    p = rng.choice(["1", "2", "inf"])
    sc = rng.choice(SCALES[:3])
    off = [Fraction(rng.randint(-4, 4), 2) for _ in range(dim)]
    n = rng.randint(1, 3) if dim < 4 else 1
    # centres on a lattice of cells of width 4, radius at most 2
    cells = rng.sample(range(3), n)
    vals = [[off[d] + sc * (4 * cells[k] + 2 if d == 0 else 2) for d in range(dim)] for k in range(n)]
    rad = [sc * rng.choice([Fraction(1, 2), 1, Fraction(3, 2), 2] if dim < 4 else [2]) for _ in range(n)]
    if n == 3 and rng.random() < 0.5:
        p, rad = "inf", [sc * 2] * 3                       # nothing is left outside
    dom = [[qq(off[d]), qq(off[d] + sc * (12 if d == 0 else 4))] for d in range(dim)]
    return {"geo": "ball", "dim": dim, "p": p, "dom": dom, "rad": [qq(r) for r in rad],
            "bins": {"kind": "ball", "p": p, "vals": [[qq(v) for v in r] for r in vals], "rad": [qq(r) for r in rad]}}


def scaled(part, u):
    """the partition in another unit of length"""
    if not u:
        return part
    z = Fraction(2) ** u
    part = dict(part)
    for k in ("left", "right", "vals", "xi"):
        if part.get(k):
            part[k] = [[qq(fr(v) * z) for v in r] for r in part[k]]
    if "rad" in part:
        part["rad"] = [qq(fr(v) * z) for v in part["rad"]]
    return part


def make_set(s):
    import bet.sample as S
    u = s.get("unit", 0)
    if "bins" in s:
        o = make_part(scaled(s["bins"], u), s["dim"])
    else:
        o = (S.voronoi_sample_set if s.get("cls") == "v" else S.sample_set)(s["dim"])
        o.set_p_norm(PN[s["p"]])
        o.set_values(A([[x] for x in s["xs"]] if s["geo"] == "1d" else s["vals"]) * 2.0 ** u)
    if s.get("dom"):
        o.set_domain(A(s["dom"]) * 2.0 ** u)
    return o


FIELDS = {"vol": enc.NONE, "voll": enc.NONE, "volf": enc.NONE, "volfl": enc.NONE, "cnt": enc.NONE,
          "radf": enc.NONE, "radfl": enc.NONE, "other": enc.NONE}
BASE = {"xs": [], "s": [], "W": 1, "H": 1, "p": "2", "rad": [], "bins": {"kind": "none"}, "dom": [], "emu": [],
        "n": 0, "ratio4": 4, "glob": True, "bad": False, "geo": "", "cells": [], "norm": True, "fine": False}


def cnts(v, n):
    """volumes times n, -1 for what is no integer"""
    out = []
    for x in np.asarray(v, dtype=float).ravel():
        y = x * n
        out.append(int(round(y)) if np.isfinite(y) and abs(y - round(y)) < 1e-6 * max(1, n) else -1)
    return {"sh": [len(out)], "v": out}


def report(o, s):
    w = (fr(s["dom"][0][1]) - fr(s["dom"][0][0])) * Fraction(2) ** s.get("unit", 0) if s.get("dom") else 1
    r = {"vol": enc.arr(o.get_volumes()), "voll": enc.arr(o.get_volumes_local()),
         "volf": enc.fixarr(o.get_volumes()), "volfl": enc.fixarr(o.get_volumes_local())}
    if s["call"] in ("est", "rv"):
        r["cnt"] = cnts(o.get_volumes(), s["n"])
    if s["call"] in ("rad", "rv"):
        if s["norm"]:
            a, b, other = o._normalized_radii, o._normalized_radii_local, o._radii
            c = 1
        else:
            a, b, other, c = o._radii, o._radii_local, o._normalized_radii, 1 / float(w)
        r["radf"] = enc.fixarr(None if a is None else np.asarray(a, float) * c)
        r["radfl"] = enc.fixarr(None if b is None else np.asarray(b, float) * c)
        r["other"] = enc.arr(other)
    return r


def execute(s):
    def body(rank, R):
        import bet.sample as S
        o = make_set(s)
        c = s["call"]
        if c == "1d":
            o.exact_volume_1D()
        elif c == "2d":
            o.exact_volume_2D(s["ratio4"] / 4.0)
        elif c == "rect":
            o.exact_volume_lebesgue()
        elif c == "ball":
            o.exact_volume()
        elif c == "emu":
            e = S.sample_set(s["dim"])
            if s["emul"]:
                e.set_values_local(split(A(s["emu"], s["dim"]) * 2.0 ** s.get("unit", 0), R, s.get("sizes"))[rank])
            else:
                e.set_values(A(s["emu"]) * 2.0 ** s.get("unit", 0))
            if s["via"] == "set":
                o.estimate_volume_emulated(e)
            else:
                oth = S.sample_set(1)
                oth.set_values(np.arange(o.check_num(), dtype=float).reshape(-1, 1))
                if s["via"] == "in":
                    d = S.discretization(o, oth, emulated_input_sample_set=e)
                    d.estimate_input_volume_emulated()
                else:
                    d = S.discretization(oth, o, emulated_output_sample_set=e)
                    d.estimate_output_volume_emulated()
        elif c == "mca":
            if s["place"] == "l":
                v = o.get_values()
                o = S.sample_set(s["dim"])
                o.set_values_local(split(v, R, s["sizes"])[rank])
            elif s["place"] == "gl":
                o.global_to_local()
            o.estimate_volume_mc(s["glob"])
        elif c == "est":
            o.estimate_volume(s["n"])
        elif c == "rad":
            o.estimate_radii(s["n"], s["norm"])
        elif c == "rv":
            o.estimate_radii_and_volume(s["n"], s["norm"])
        elif c == "local":
            if s["pre"]:
                o.estimate_radii(8000, True)
                for k in s.get("zero", []):          # cells without a radius get a guessed one
                    o._normalized_radii[k] = 0.0
            if s.get("fine"):
                o.estimate_local_volume(20000, 50000)
            else:
                o.estimate_local_volume()
        return report(o, s)
    outs, logs = run(s, body)
    fill(outs, FIELDS)
    ev = {"op": "vol", "R": s["R"], "call": s["call"], "outs": outs}
    for k, v in BASE.items():
        ev[k] = s.get(k, v)
    return {"ev": [ev]}
