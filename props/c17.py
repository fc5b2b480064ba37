"""C17: model evaluation through a sampler."""
import os
import shutil
import tempfile
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Sampler", "quick": {"N": 5, "R": 4}, "thorough": {"N": 9, "R": 7}},
          {"module": "MC_Sampler", "quick": {"Gather": '"arrival"'}, "violates": "Aligned"}]
RULE = ("samplers with quadratic integer models of several styles (whole arrays, row by row, columns) and all accepted return "
        "forms, sets given globally, locally or both, made by the sampler, reused samplers, with and without reference value, "
        "error estimates, Jacobians, file, on 1-6 processes (more processes than samples included); distinct by full trace")
ASSUMPTIONS = ["the model is a function of the sample alone", "evaluations at the reference value are not counted"]


def scenario(rng, i):
    dim, od = rng.randint(1, 3), rng.randint(1, 3)
    if i % 25 == 24:
        dim, od = rng.randint(1, 6), rng.randint(1, 6)
    s = {"seed": i, "R": rng.choice([1, 1, 2, 3, 4, 6]), "dim": dim, "od": od, "glob": rng.random() < 0.7,
         "ee": rng.random() < 0.4, "jac": rng.random() < 0.4, "style": rng.choice(["dot", "rows", "cols"]),
         "saved": rng.random() < 0.35, "hasref": rng.random() < 0.5, "bad": "", "random": False,
         "how": rng.choice(["g", "l", "gl", "grid", "pre"]), "old": rng.random() < 0.2, "class": rng.choice(["sample_set", "voronoi"])}
    n = rng.choice([1, 2, 3, 5, 8, 11]) if i % 25 != 24 else rng.choice([17, 33, 50])
    s["m"] = {"a": [[rng.randint(-3, 3) for _ in range(dim)] for _ in range(od)], "b": [rng.randint(-9, 9) for _ in range(od)]}
    rows, seen = [], set()
    while len(rows) < n + 1:
        r = tuple(rng.randint(-9, 9) for _ in range(dim)) if dim > 1 else (rng.randint(-30, 30),)
        if r not in seen:
            seen.add(r)
            rows.append(list(r))
    s["ref"], s["x"] = rows[0], rows[1:]
    if n > 2 and rng.random() < 0.3:
        s["x"][1] = list(s["x"][0])              # equal samples are evaluated like any others
    if s["how"] == "grid":
        # centres of unit bins are integers
        per = [rng.randint(1, 3) for _ in range(dim)]
        lo = [rng.randint(-5, 5) for _ in range(dim)]
        s["per"], s["lo"] = per, lo
        g = np.meshgrid(*[np.arange(l, l + p) for l, p in zip(lo, per)], indexing="ij")
        s["x"] = [list(map(int, r)) for r in np.stack([a.ravel() for a in g], axis=1)]
        s["ref"] = [50] * dim
    # forms of the returned data
    forms = ["arr", "tup"] if not s["ee"] and not s["jac"] else ["tup"]
    if s["ee"] and s["jac"]:
        forms = ["tup"]
    s["form"] = rng.choice(forms)
    s["extra"] = s["form"] == "tup" and not (s["ee"] and s["jac"]) and rng.random() < 0.3   # three data, fewer used
    s["flat"] = od == 1 and rng.random() < 0.5
    s["again"] = rng.random() < 0.25
    if rng.random() < 0.06:
        s["bad"] = rng.choice(["list", "none"])
    elif rng.random() < 0.12:
        s["random"] = True
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(400 if tier == "quick" else 4000)]


def execute(s):
    dim, od = s["dim"], s["od"]
    a, b = np.array(s["m"]["a"], dtype=float), np.array(s["m"]["b"], dtype=float)
    root = tempfile.mkdtemp(prefix="betv")

    def body(rank, R):
        import bet.sample as S
        import bet.util as U
        import bet.sampling.basicSampling as B
        calls = []

        def vals(x):
            calls.append(np.array(x, dtype=float))
            if s["random"]:
                return np.array(x) * 2.0
            if s["style"] == "dot":
                y = np.dot(x ** 2, a.T) + b
            elif s["style"] == "rows":
                y = np.array([[b[j] + sum(a[j, k] * r[k] * r[k] for k in range(dim)) for j in range(od)] for r in x]).reshape(len(x), od)
            else:
                y = np.stack([b[j] + sum(a[j, k] * x[:, k] ** 2 for k in range(dim)) for j in range(od)], axis=1)
            return y[:, 0] if s["flat"] and y.ndim == 2 else y

        def model(x):
            y = vals(x)
            if s["bad"] == "list":
                return y.tolist()
            if s["bad"] == "none":
                return None
            if s["form"] == "arr" or s["random"]:
                return y
            x2 = np.reshape(x, (-1, dim))
            ee = np.array([[j + 1 + sum((k + 1) * r[k] for k in range(dim)) for j in range(od)] for r in x2]).reshape(len(x2), od)
            jac = 2 * a[None, :, :] * x2[:, None, :]
            if s["extra"] or (s["ee"] and s["jac"]):
                return y, ee, jac
            return (y, ee) if s["ee"] else ((y, jac) if s["jac"] else (y,))
        smp = B.sampler(model, error_estimates=s["ee"] and not s["random"], jacobians=s["jac"] and not s["random"])
        fn = os.path.join(root, "f") if s["saved"] else None
        if s["again"]:
            o = S.sample_set(dim)
            o.set_values(np.arange(4.0 * dim).reshape(4, dim))
            d0 = smp.compute_qoi_and_create_discretization(o, None if fn is None else fn + "0", True)
            o0 = d0.get_output_sample_set()
            kept = (o.get_values().copy(), o0.get_values().copy())
            del calls[:]
        if s["random"]:
            d = smp.create_random_discretization("uniform", dim, savefile=fn, num_samples=len(s["x"]), globalize=s["glob"])
        else:
            X = np.array(s["x"], dtype=float)
            if s["how"] == "grid":
                dom = np.array([[l - 0.5, l + p - 0.5] for l, p in zip(s["lo"], s["per"])])
                i = smp.regular_sample_set(dom, s["per"])
            else:
                i = (S.sample_set if s["class"] == "sample_set" else S.voronoi_sample_set)(dim)
                if s["how"] == "l":
                    i.set_values_local(split(X, R)[rank])
                else:
                    i.set_values(X)
                    if s["how"] != "g":
                        i.global_to_local()
            if s["hasref"]:
                i.set_reference_value(np.array(s["ref"], dtype=float))
            fun = smp.compute_QoI_and_create_discretization if s["old"] else smp.compute_qoi_and_create_discretization
            if s["how"] in ("grid", "pre"):
                smp.input_sample_set = i
                d = fun(savefile=fn, globalize=s["glob"])
            else:
                d = fun(i, fn, s["glob"])
            if d.get_input_sample_set() is not i:
                return {"held": False}
        I, O = d.get_input_sample_set(), d.get_output_sample_set()
        same = True
        if s["again"]:
            # the discretization handed out before is the caller's
            same = d is not d0 and d0.get_input_sample_set() is o and d0.get_output_sample_set() is o0 and o0 is not O \
                and np.array_equal(o.get_values(), kept[0]) and np.array_equal(o0.get_values(), kept[1])
        r = {"held": bool(same) and smp.discretization is d and smp.input_sample_set is I, "refin": enc.ints(I.get_reference_value()),
             "refout": enc.ints(O.get_reference_value()), "calls": [enc.ints(np.reshape(c, (-1, dim)) if c.size or c.ndim < 2 else c) for c in calls]}

        def put(tag, I, O, loc):
            e2 = (lambda v: enc.fixarr(v, 1000)) if s["random"] else enc.ints
            iv = I.get_values_local() if loc else I.get_values()
            ov = O.get_values_local() if loc else O.get_values()
            r["in" + tag] = e2(iv if iv is None else (iv * 2 if s["random"] else iv))
            r["out" + tag] = e2(ov)
            r["ee" + tag] = enc.ints(O.get_error_estimates_local() if loc else O.get_error_estimates())
            r["jac" + tag] = enc.ints(I.get_jacobians_local() if loc else I.get_jacobians())
        put("_l", I, O, True)
        put("", I, O, False)
        if fn is not None:
            q = U.load_object(fn)
            if not s["glob"]:
                q.local_to_global()
            put("_f", q.get_input_sample_set(), q.get_output_sample_set(), False)
        return r
    try:
        outs, logs = run(s, body)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    base = {"held": False, "refin": enc.NONE, "refout": enc.NONE, "calls": []}
    for f0 in ("in", "out", "ee", "jac"):
        for t in ("", "_l", "_f"):
            base[f0 + t] = enc.NONE
    fill(outs, base)
    ev = {"op": "qoi", "outs": outs, "bad": s["bad"] != "", "n": len(s["x"])}
    for k in ("m", "x", "ref", "hasref", "ee", "jac", "glob", "saved", "random", "dim"):
        ev[k] = s[k]
    return {"ev": [ev]}
