"""Projection of implementation values onto the specification's value space.

Everything the trace specifications see goes through here.  The encoding is
total: whatever an implementation returns becomes *some* JSON value, so a wrong
result can only ever be a mismatch, never a crash of the judge.

  number   [n, d]      reduced rational, d >= 1, |n|, d <= LIM
           [0, 0] NaN   [1, 0] +inf   [-1, 0] -inf   [0, -1] not representable
  array    {"sh": [...], "v": [num, ...]}   row-major
           {"sh": [-1], "v": []} None       {"sh": [-2], "v": []} not an array
  fixed    int, value * scale, clamped (for quantities that are irrational)
"""
from fractions import Fraction
import math
import numpy as np

LIM = 30000
NAN = [0, 0]
UNREP = [0, -1]
NONE = {"sh": [-1], "v": []}
BADARR = {"sh": [-2], "v": []}


def num(x):
    try:
        if isinstance(x, (bool, np.bool_)):
            return [int(x), 1]
        if isinstance(x, (int, np.integer)):
            x = int(x)
            return [x, 1] if abs(x) <= LIM else list(UNREP)
        if isinstance(x, Fraction):
            if abs(x.numerator) <= LIM and x.denominator <= LIM:
                return [x.numerator, x.denominator]
            return list(UNREP)
        f = float(x)
    except Exception:
        return list(UNREP)
    if math.isnan(f):
        return list(NAN)
    if math.isinf(f):
        return [1, 0] if f > 0 else [-1, 0]
    if abs(f) > LIM:
        return list(UNREP)
    q = Fraction(f).limit_denominator(10000)
    if abs(float(q) - f) > 1e-9 * max(1.0, abs(f)):
        return list(UNREP)
    if abs(q.numerator) > LIM:
        return list(UNREP)
    return [q.numerator, q.denominator]


def arr(a):
    if a is None:
        return dict(NONE)
    try:
        a = np.asarray(a)
        if a.dtype == object:
            return dict(BADARR)
        if a.size > 4000:
            return dict(BADARR)
        return {"sh": [int(s) for s in a.shape],
                "v": [num(x) for x in a.ravel().tolist()]}
    except Exception:
        return dict(BADARR)


def fix(x, scale=10000, lim=2 * 10 ** 8):
    """Fixed point; NaN -> lim+1, +-inf -> +-lim."""
    try:
        f = float(x)
    except Exception:
        return lim + 1
    if math.isnan(f):
        return lim + 1
    f = f * scale
    if f >= lim:
        return lim
    if f <= -lim:
        return -lim
    return int(round(f))


def fixarr(a, scale=10000):
    if a is None:
        return dict(NONE)
    try:
        a = np.asarray(a, dtype=float)
        if a.size > 20000:
            return dict(BADARR)
        return {"sh": [int(s) for s in a.shape],
                "v": [fix(x, scale) for x in a.ravel().tolist()]}
    except Exception:
        return dict(BADARR)


def ints(a):
    """An index-like array: every entry an int (non-integers become -99999)."""
    if a is None:
        return dict(NONE)
    try:
        a = np.asarray(a)
        if a.dtype == object or a.size > 20000:
            return dict(BADARR)
        out = []
        for x in a.ravel().tolist():
            try:
                out.append(int(x) if float(x) == int(x) and abs(x) < 10 ** 9 else -99999)
            except Exception:
                out.append(-99999)
        return {"sh": [int(s) for s in a.shape], "v": out}
    except Exception:
        return dict(BADARR)


def text(x):
    return x if isinstance(x, str) else ("" if x is None else "?" + type(x).__name__)


def exc_name(e):
    return type(e).__name__


def deep(x):
    """canonical token of any carried value ("~" for None); equal data, equal token"""
    if x is None:
        return "~"
    if isinstance(x, str):
        return "s" + x
    if isinstance(x, (bool, np.bool_)):
        return "b%d" % int(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return "n%r" % (num(x),)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return "o" + deep(list(x.ravel()))
        return "a%r%s" % (x.shape, ",".join("%d/%d" % tuple(num(v)) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ("[%s]" if isinstance(x, list) else "(%s)") % ";".join(deep(v) for v in x)
    if isinstance(x, dict):
        return "{%s}" % ";".join("%s=%s" % (k, deep(x[k])) for k in sorted(x, key=str))
    if type(x).__name__ == "gaussian_kde":
        return "K" + "|".join("%r%s" % (np.shape(y), ",".join("%d" % round(float(v) * 10 ** 6) for v in np.ravel(y)))
                             for y in (x.dataset, x.weights, np.atleast_2d(x.covariance)))
    return "?" + type(x).__name__
