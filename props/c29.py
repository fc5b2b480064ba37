"""C29: shapes of data."""
import itertools
import sys
import numpy as np
from harness import enc, simmpi
from props.common import *

MODELS = [{"module": "MC_Shape", "quick": {"Depth": 2}, "thorough": {"Depth": 3, "Most": 4}},
          {"module": "MC_Shape", "quick": {"Depth": 1, "Grids": "TRUE"}, "thorough": {"Depth": 1, "Grids": "TRUE", "Most": 4}},
          {"module": "MC_Shape", "quick": {"Depth": 2, "StoreFirst": "TRUE"}, "violates": "StoredAsRows"},
          {"module": "MC_Shape", "quick": {"Depth": 2, "Moves": "TRUE"}, "violates": "InOrder"}]
RULE = ("every helper with every array of up to two axes of length 1..4 (and some of three), as numbers, tuples, lists, nested lists, C, Fortran and strided "
        "arrays of integers and floats, every dimension 1..4; grids of 1..10 vectors; cleaning of data with non-finite entries; histories of "
        "set/append values (whole and distributed part), domains and reference values of fitting and of wrong shapes; distinct by full trace")
ASSUMPTIONS = ["fix_dimensions_data given an impossible shape is judged where the data are stored", "arrays without axes are not given",
               "matrices of dim rows and dim columns are rows of samples"]
HIST = ["set", "set", "append", "set_local", "append_local", "domain", "ref"]
FORMS = ["list", "tuple", "C", "F", "strided", "int"]


def shapes(most=4):
    return [[]] + [[n] for n in range(1, most + 1)] + [[n, m] for n in range(1, most + 1) for m in range(1, most + 1)]


def scenarios(tier, rng):
    out = []
    most = 4 if tier == "quick" else 6

    def ent(sh):
        n = int(np.prod(sh)) if sh else 1
        return rng.sample(range(-60, 61), n)
    for sh in shapes(most):
        for kind in ["vector", "column", "domain", "data"]:
            if kind == "domain" and not sh:
                continue
            for dim in (range(0, 5) if kind == "data" else [0]):
                for form in (FORMS if tier != "quick" else rng.sample(FORMS, 2)):
                    out.append({"seed": len(out), "R": 1, "kind": kind, "dim": dim, "form": form, "a": {"sh": sh, "v": ent(sh)}})
    for i in range(60 if tier == "quick" else 600):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 10])
        most_n = 4 if n <= 3 else 3 if n == 4 else 2
        out.append({"seed": i, "R": 1, "kind": "grid", "form": rng.choice(FORMS), "vs": [rng.sample(range(-50, 51), rng.randint(1, most_n)) for _ in range(n)]})
    for i in range(80 if tier == "quick" else 800):
        sh = rng.choice([s for s in shapes() if s])
        v = [[x, 1] for x in ent(sh)]
        for k in range(len(v)):
            if rng.random() < 0.4:
                v[k] = rng.choice([[0, 0], [1, 0], [-1, 0]])
        out.append({"seed": i, "R": 1, "kind": "clean", "form": rng.choice(["C", "F", "strided"]), "a": {"sh": sh, "v": v}})
    for i in range(250 if tier == "quick" else 3000):
        dim = rng.randint(1, 4)
        steps = []
        has = set()
        for _ in range(rng.randint(1, 7)):
            what = rng.choice(HIST)
            if what.startswith("append") and what[7:] not in has:
                what = what.replace("append", "set")
            if what.startswith("set"):
                has.add(what[4:])
            if what == "domain":
                sh = rng.choice([[dim, 2]] * 4 + [[dim], [2], [dim, 3], [dim, 1], [2, dim], [dim + 1, 2], [dim, 2, 2]])
            elif what == "ref":
                sh = rng.choice([[dim]] * 4 + [[dim, 1], [1, dim], [dim + 1], [dim + 2]])
            else:
                sh = rng.choice(shapes() + [[rng.randint(1, 5), dim]] * 5 + [[dim, rng.randint(1, 5)]] * 5 + [[dim]] * 3 + [[rng.randint(1, 3), dim, 2], [2, rng.randint(1, 3), dim]])
            form = rng.choice(["C", "F", "strided", "int"] if what in ("domain", "ref") else FORMS)
            steps.append({"what": what, "form": form, "a": {"sh": sh, "v": ent(sh)}})
        # what is set first decides whether appending is possible: an impossible first one leaves nothing to append to
        out.append({"seed": i, "R": 1, "kind": "history", "dim": dim, "cls": rng.choice(["sample_set", "voronoi_sample_set"]), "steps": steps})
    return out


def build(a, form):
    sh, v = a["sh"], [x if not isinstance(x, list) else (x[0] / x[1] if x[1] else {0: np.nan, 1: np.inf, -1: -np.inf}[x[0]]) for x in a["v"]]
    if not sh:
        return v[0] if form in ("list", "tuple", "int") else float(v[0])
    m = np.array(v, dtype=np.int64 if form == "int" else float).reshape(sh)
    if form == "list":
        return m.tolist()
    if form == "tuple":
        return tuple(m.tolist())
    if form == "F":
        return np.asfortranarray(m)
    if form == "strided":
        big = np.full([2 * s for s in sh], 777.0)
        view = big[tuple(slice(None, None, 2) for _ in sh)]
        view[...] = m
        return view
    return m


def whole(a):
    if a is None:
        return {"sh": [-1], "v": []}
    return enc.ints(a)


def codes(a):
    big = sys.float_info.max
    return [[2, 0] if x == big else [-2, 0] if x == -big else enc.num(x) for x in np.asarray(a).ravel().tolist()]


def execute(s):
    import bet.sample as S
    from bet import util
    kind = s["kind"]
    if kind == "history":
        ss = getattr(S, s["cls"])(s["dim"])
        call = {"set": ss.set_values, "append": ss.append_values, "set_local": ss.set_values_local, "append_local": ss.append_values_local,
                "domain": ss.set_domain, "ref": ss.set_reference_value}
        steps = []
        for st in s["steps"]:
            o = {"exc": ""}
            try:
                call[st["what"]](build(st["a"], st["form"]))
            except Exception as e:
                o["exc"] = enc.exc_name(e)
            o.update(whole=whole(ss._values), part=whole(ss._values_local), dom=whole(ss._domain), ref=whole(ss._reference_value))
            try:
                # through the getters, too
                g = {"whole": whole(ss.get_values()), "dom": whole(ss.get_domain()), "ref": whole(ss.get_reference_value()), "part": whole(ss.get_values_local())}
                if any(g[k] != o[k] for k in g):
                    o.update(g)
            except Exception as e:
                o["exc"] = "getter:" + enc.exc_name(e)
            steps.append({"what": st["what"], "a": st["a"], "o": o})
        return {"ev": [{"op": "shape", "kind": kind, "dim": s["dim"], "steps": steps, "outs": []}]}
    o = {"exc": "", "same": True, "sh": [-3], "v": []}
    ev = {"op": "shape", "kind": kind, "dim": s.get("dim", 0), "a": s.get("a", 0), "vs": s.get("vs", 0)}
    try:
        if kind == "grid":
            vs = [build({"sh": [len(v)], "v": v}, s["form"]) for v in s["vs"]]
            got = whole(util.meshgrid_ndim(vs if s["seed"] % 2 else tuple(vs)))
        else:
            a = build(s["a"], s["form"])
            before = repr(a)
            if kind == "clean":
                r = util.clean_data(a)
                got = {"sh": list(np.asarray(r).shape), "v": codes(r)}
            else:
                r = {"vector": util.fix_dimensions_vector, "column": util.fix_dimensions_vector_2darray, "domain": util.fix_dimensions_domain,
                     "data": util.fix_dimensions_data}[kind](*([a, s["dim"]] if kind == "data" and s["dim"] else [a]))
                got = whole(r)
                if not isinstance(r, np.ndarray):
                    got = {"sh": [-2], "v": []}
            o["same"] = repr(a) == before
        o.update(got)
    except Exception as e:
        o["exc"] = enc.exc_name(e)
    ev["outs"] = [o]
    return {"ev": [ev]}
