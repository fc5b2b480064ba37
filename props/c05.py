"""C05: exact volumes."""
from props.vols import *

MODELS = [{"module": "MC_Volume", "quick": {"N1": 3, "Grid1": 6, "N2": 2, "Grid2": 4},
           "thorough": {"N1": 4, "Grid1": 7, "N2": 3, "Grid2": 3}}]
RULE = ("random sets: 1-7 (some 60) samples of an interval in any order, 1-9 samples of a 2D lattice domain (including co-circular "
        "ones) with side ratios 1/4, 1/2, 1, disjoint boxes (given, or a tensor grid) and disjoint p-norm balls in 1-5 "
        "dimensions; any unit of length, dyadic scale and offset; 1-6 processes; distinct by full recorded trace")
ASSUMPTIONS = ["2D polygon areas and 2-norm balls are compared to 4/10000 (fixed point), everything else exactly",
               "a 2D cell that touches a side across which its sample is not reflected is not judged (documented precondition)"]


def collinear(p):
    (x0, y0) = p[0]
    for a in p[1:]:
        for b in p[1:]:
            if (a[0] - x0) * (b[1] - y0) != (a[1] - y0) * (b[0] - x0):
                return False
    return True


def scenario(rng, i):
    u = rng.random()
    if u < 0.3:
        s = geo1(rng)
        s["call"] = "1d"
    elif u < 0.75:
        s = geo2(rng, 1, 9) if rng.random() < 0.85 else georing(rng)
        s["call"] = "2d"
        s["ratio4"] = rng.choice([1, 1, 2, 4])
        if len(s["s"]) < 4 or collinear(s["s"]):
            s["ratio4"] = 4
    elif u < 0.87:
        s = georect(rng)
        s["call"] = "rect"
    elif u < 0.97:
        s = geoball(rng)
        s["call"] = "ball"
    else:
        s = geo1(rng) if rng.random() < 0.5 else geo2(rng)
        s["call"] = "2d" if s["geo"] == "1d" else "1d"
        s["bad"] = True
    s["cls"] = rng.choice(["v", "s"])
    s["seed"] = i
    return ranks(rng, s)


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(700 if tier == "quick" else 8000)]
