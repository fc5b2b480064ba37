"""Shared by the property drivers: scenario vocabulary and object builders.

Scenarios are JSON: numbers are [n, d] pairs with d a power of two wherever the
code compares them, so that floats are exact and boundaries are real.
"""
from fractions import Fraction
import numpy as np
from harness import enc, simmpi

INF = float("inf")
PN = {"1": 1.0, "2": 2.0, "inf": INF}


def f(q):
    return q[0] / q[1]


def fr(q):
    return Fraction(q[0], q[1])


def qq(x):
    x = Fraction(x)
    return [x.numerator, x.denominator]


def A(rows, dim=None):
    """rows of rationals -> float array (n, dim)"""
    if len(rows) == 0:
        return np.zeros((0, dim or 1))
    return np.array([[f(x) for x in r] for r in rows], dtype=float)


def V(vec):
    return np.array([f(x) for x in vec], dtype=float)


def split(a, R, sizes=None):
    """pieces of array a over R ranks (sizes: explicit distribution)"""
    if sizes is None:
        return np.array_split(a, R)
    cuts = np.cumsum(sizes)[:-1]
    return np.split(a, cuts)


def make_part(part, dim):
    """an implementation set for a partition record"""
    import bet.sample as S
    if part["kind"] == "vor":
        s = S.voronoi_sample_set(dim) if part.get("cls") != "sample_set" else S.sample_set(dim)
        s.set_p_norm(PN[part["p"]])
        s.set_values(A(part["vals"]))
    elif part["kind"] == "rect":
        if part.get("xi"):
            s = S.cartesian_sample_set(dim)
            s.setup([np.array([f(v) for v in x]) for x in part["xi"]])
        else:
            s = S.rectangle_sample_set(dim)
            s.setup([[f(v) for v in r] for r in part["right"]], [[f(v) for v in r] for r in part["left"]])
    else:
        s = S.ball_sample_set(dim)
        s.set_p_norm(PN[part["p"]])
        s.setup([[f(v) for v in r] for r in part["vals"]], [f(v) for v in part["rad"]])
    return s


def ncells(part):
    if part["kind"] == "vor":
        return len(part["vals"])
    return (len(part["left"]) if part["kind"] == "rect" else len(part["vals"])) + 1


def distp(p, x, y):
    d = [abs(fr(a) - fr(b)) for a, b in zip(x, y)]
    if p == "1":
        return sum(d)
    if p == "2":
        return sum(v * v for v in d)
    return max(d)


def has_tie(part, x):
    if part["kind"] != "vor":
        return False
    D = sorted(distp(part["p"], x, v) for v in part["vals"])
    return len(D) > 1 and D[0] == D[1]


def rpoint(rng, dim, lo=-2, hi=6, den=4):
    return [qq(Fraction(rng.randint(lo * den, hi * den), den)) for _ in range(dim)]


def rpoints(rng, n, dim, lo=-2, hi=6, den=4, distinct=True):
    out = []
    if distinct and 2 * n > ((hi - lo) * den + 1) ** dim:
        lo, hi = lo - n, hi + n                 # room for n of them
    while len(out) < n:
        p = rpoint(rng, dim, lo, hi, den)
        if distinct and p in out:
            continue
        out.append(p)
    return out


def untied(rng, part, dim, n, lo=-2, hi=6, den=4, distinct=False):
    out = []
    tries = 0
    while len(out) < n:
        p = rpoint(rng, dim, lo, hi, den)
        tries += 1
        if tries < 4000 and (has_tie(part, p) or (distinct and p in out)):
            continue
        if tries >= 4000 and has_tie(part, p):
            # fall back to a finer lattice, where ties are rare
            p = [qq(fr(x) + Fraction(rng.choice([1, 3, 5]), 64)) for x in p]
            if has_tie(part, p):
                continue
        out.append(p)
    return out


def rpart(rng, dim, kind=None, nmax=4, ps=("1", "2", "inf"), lo=-1, hi=5):
    kind = kind or rng.choice(["vor", "vor", "rect", "rect", "cart", "ball"])
    if kind == "vor":
        n = rng.randint(1, nmax)
        return {"kind": "vor", "p": rng.choice(ps), "vals": rpoints(rng, n, dim, lo, hi, 2),
                "cls": rng.choice(["voronoi", "sample_set"])}
    if kind == "rect":
        n = rng.randint(1, 3)
        L, R = [], []
        for _ in range(n):
            a = [rng.randint(lo * 2, hi * 2 - 2) for _ in range(dim)]
            b = [x + rng.randint(1, 6) for x in a]
            L.append([qq(Fraction(x, 2)) for x in a])
            R.append([qq(Fraction(x, 2)) for x in b])
        return {"kind": "rect", "left": L, "right": R}
    if kind == "cart":
        xi = []
        for _ in range(dim):
            k = rng.randint(2, 4 if dim == 1 else 3)
            pts = sorted(rng.sample(range(lo * 2, hi * 2 + 1), k))
            xi.append([Fraction(x, 2) for x in pts])
        L, R = cart_boxes(xi)
        return {"kind": "rect", "xi": [[qq(v) for v in x] for x in xi],
                "left": [[qq(v) for v in r] for r in L], "right": [[qq(v) for v in r] for r in R]}
    n = rng.randint(1, 3)
    return {"kind": "ball", "p": rng.choice(ps), "vals": rpoints(rng, n, dim, lo, hi, 2),
            "rad": [qq(Fraction(rng.randint(1, 6), 2)) for _ in range(n)]}


def cart_boxes(xi):
    """boxes of a tensor grid in the implementation's documented order: the
    first dimension slowest for 1D/2D (np.meshgrid(...).T)"""
    lows = [x[:-1] for x in xi]
    highs = [x[1:] for x in xi]
    dim = len(xi)
    if dim == 1:
        return [[v] for v in lows[0]], [[v] for v in highs[0]]
    g = [np.array(np.meshgrid(*[np.arange(len(x)) for x in lows])).T]
    idx = np.vstack(g[0]) if dim == 2 else np.vstack(g[0])
    idx = idx.reshape((-1, dim))
    L = [[lows[d][int(r[d])] for d in range(dim)] for r in idx]
    H = [[highs[d][int(r[d])] for d in range(dim)] for r in idx]
    return L, H


def unscaled(a, e):
    """an array of probabilities whose unit was 2^e"""
    if a is None or not e or not np.sum(np.abs(a)) < 2.0 ** -20:
        return a
    return np.asarray(a) * 2.0 ** -e


def rprobs(rng, n, zeros=True):
    """dyadic probabilities summing to one"""
    while True:
        w = [rng.choice([0, 1, 1, 2, 3] if zeros else [1, 2, 3]) for _ in range(n)]
        if sum(w):
            break
    # distribute 16ths
    tot = 16
    out = [0] * n
    for _ in range(tot):
        k = rng.choices(range(n), weights=w)[0]
        out[k] += 1
    return [qq(Fraction(x, tot)) for x in out]


def run(scn, body):
    """body(rank, R) on every rank -> list of per-rank output records"""
    R = scn.get("R", 1)
    order = scn.get("order")
    outs, logs = simmpi.spmd(R, lambda r: body(r, R), seed=scn.get("seed", 0), order=order)
    res = []
    for kind, val in outs:
        if kind == "ok":
            val = dict(val)
            val.setdefault("exc", "")
            res.append(val)
        else:
            res.append({"exc": enc.exc_name(val)})
    return res, logs


def fill(outs, fields):
    """every rank's record gets every field, so the judge never misses one"""
    for o in outs:
        for k, v in fields.items():
            o.setdefault(k, v)
    return outs
