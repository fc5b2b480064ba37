"""C06: estimated volumes and radii."""
from props.vols import *

MODELS = [{"module": "MC_Volume", "quick": {"N1": 3, "Grid1": 6, "N2": 2, "Grid2": 4},
           "thorough": {"N1": 4, "Grid1": 7, "N2": 3, "Grid2": 3}},
          {"module": "MC_Inverse", "quick": {"MaxR": 2}, "thorough": {"MaxR": 3}}]
RULE = ("random sets (1D, 2D, regular grids in any norm up to 3D, boxes, balls) with exactly known cells: emulated points given globally or in any "
        "distribution over 1-6 processes, through a set or a discretization; 1-20000 Monte Carlo points, including fewer "
        "points than processes and cells without points; local estimates with radii estimated, kept or guessed; distinct by full recorded trace")
ASSUMPTIONS = ["random estimates are judged as multiples of 1/n summing to one and within six standard deviations of the exact volume",
               "radii: exact upper bound; lower bound 26/n of the width in 1D, one half in 2D and 0.78 on grids for cells certain to be hit",
               "local volume estimates are compared on domains of equal widths, within 0.015 + 40% of the exact volume (0.005 + 3% in 1D with 100000 points per cell)"]


def scenario(rng, i):
    u = rng.random()
    if u < 0.4:
        dim = rng.choice([1, 1, 2, 3])
        part = rpart(rng, dim)
        s = {"geo": "part", "dim": dim, "p": part.get("p", "2"), "bins": part, "call": "emu",
             "via": rng.choice(["set", "set", "in", "out"]), "emul": rng.random() < 0.5,
             "emu": untied(rng, part, dim, rng.randint(1, 10))}
        ranks(rng, s)
        if s["emul"] and rng.random() < 0.5:
            s["sizes"] = rsz(rng, len(s["emu"]), s["R"])
    elif u < 0.5:
        s = geo1(rng)
        s.update({"call": "mca", "n": len(s["xs"]), "place": rng.choice(["g", "gl", "l"])})
        s["glob"] = rng.random() < 0.6 if s["place"] == "gl" else s["place"] == "g"
        ranks(rng, s)
        s["sizes"] = rsz(rng, s["n"], s["R"])
    elif u < 0.7:
        s = rng.choice([geo1, lambda r: geo2(r, 2, 6), georect, geoball, geogrid])(rng)
        s.update({"call": "est", "n": rng.choice([1, 2, 7, 50, 2000, 2003, 5000])})
        ranks(rng, s)
    elif u < 0.92:
        s = rng.choice([geo1, lambda r: geo2(r, 2, 6, True), geogrid, geogrid])(rng)
        s.update({"call": rng.choice(["rad", "rv"]), "n": rng.choice([1, 3, 10, 2000, 5000, 8000, 8003]),
                  "norm": rng.random() < 0.6})
        ranks(rng, s)
    else:
        s = rng.choice([geo1, lambda r: geo2(r, 3, 6, True), lambda r: geogrid(r, True)])(rng)
        s.update({"call": "local", "pre": rng.random() < 0.7, "n": 0})
        if s["pre"] and s["geo"] == "1d":
            z = guessable(s)
            if z:
                s["zero"] = rng.sample(z, rng.randint(1, len(z)))
        ranks(rng, s)
        s["fine"] = s["geo"] == "1d" and len(s["xs"]) < 9 and rng.random() < 0.8
    s["seed"] = i
    return s


def guessable(s):
    """samples whose cell lies within twice the deviation of half the distances to the others"""
    lo, hi = [f(x) for x in s["dom"][0]]
    x = [(f(v) - lo) / (hi - lo) for v in s["xs"]]
    out = []
    for i, a in enumerate(x):
        h = [abs(a - b) / 2 for j, b in enumerate(x) if j != i]
        left = min([(a - b) / 2 for b in x if b < a] or [a])
        right = min([(b - a) / 2 for b in x if b > a] or [1 - a])
        if h and 2 * np.std(h) >= max(left, right) * 1.05:
            out.append(i)
    return out


def rsz(rng, n, R):
    sz = [0] * R
    for _ in range(n):
        sz[rng.randrange(R)] += 1
    return sz


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(500 if tier == "quick" else 5000)]
