"""C18: piecewise polynomial surrogates."""
from fractions import Fraction
import numpy as np
from harness import enc
from props.common import *

MODELS = [{"module": "MC_Surrogate", "quick": {"Grid": 4}, "thorough": {"Grid": 7}},
          {"module": "MC_Surrogate", "quick": {"Away": "TRUE"}, "violates": "Exact1|Order2"}]
RULE = ("histories of generating surrogates of order 0 and 1 for new input sets and computing region probabilities and errors, "
        "with and without update of the training samples, from training data with rational outputs and Jacobians in any "
        "p-norm, 1-3 dimensional inputs, 1-2 dimensional outputs, 1-4 processes; distinct by full recorded trace")
ASSUMPTIONS = ["new inputs are not equidistant from two training samples, new outputs not from two bins",
               "training data distributed over processes in balanced blocks"]


def owner(p, vals, x):
    return min(range(len(vals)), key=lambda i: distp(p, x, vals[i]))


def scenario(rng, i):
    d, m = rng.randint(1, 3), rng.randint(1, 2)
    s = {"seed": i, "R": rng.choice([1, 1, 2, 3, 4]), "dim": d, "dout": m, "p": rng.choice(["2", "2", "1", "inf"])}
    n = rng.randint(1, 6)
    s["x"] = rpoints(rng, n, d, -1, 5, 2)
    s["bins"] = rpart(rng, m, nmax=4)
    s["prob"] = rprobs(rng, ncells(s["bins"]))
    s["int"] = rng.random() < 0.2
    s["y"] = untied(rng, s["bins"], m, n, -1, 4, 1 if s["int"] else 2)
    if any(v[1] != 1 for y in s["y"] for v in y):
        s["int"] = False
    s["jac"] = [[qq(Fraction(rng.randint(-4, 4), 2)) for _ in range(d * m)] for _ in range(n)]
    s["ee"] = [[qq(Fraction(rng.choice([0, 0, 1, -1, 3, -5]), 4) + Fraction(rng.choice([0, 1]), 32)) for _ in range(m)] for _ in range(n)]
    s["hasee"] = rng.random() < 0.85
    s["hasjac"] = rng.random() < 0.9
    s["place"] = rng.choice(["g", "gl", "lg", "lg", "l"])
    s["eplace"], s["jplace"] = rng.choice("ggl"), rng.choice(["g", "g", "l", "late"])
    s["oldprob"] = rng.random() < 0.4
    s["dom"] = rng.random() < 0.5
    tr = {"kind": "vor", "p": s["p"], "vals": s["x"]}
    s["calls"] = []
    cur = None
    for _ in range(rng.randint(1, 5)):
        if cur is None or rng.random() < 0.45:
            c = {"do": "gen", "order": rng.choice([0, 1, 1]), "bad": "", "place": rng.choice(["g", "gl", "l"]), "vol": [], "hasvol": False,
                 "volmode": rng.choice(["none", "none", "g", "l", "late"])}
            for _ in range(200):
                c["new"] = untied(rng, tr, d, rng.randint(1, 8), -2, 6, 4)
                ok = True
                for x in c["new"]:
                    o = owner(s["p"], s["x"], x)
                    y = [fr(v) for v in s["y"][o]]
                    if c["order"] == 1:
                        y = [y[j] + sum(fr(s["jac"][o][j * d + k]) * (fr(x[k]) - fr(s["x"][o][k])) for k in range(d)) for j in range(m)]
                    z = [a + fr(b) for a, b in zip(y, s["ee"][o])]
                    if has_tie(s["bins"], [qq(v) for v in y]) or has_tie(s["bins"], [qq(v) for v in z]):
                        ok = False
                if ok:
                    break
            else:
                return scenario(rng, i)
            if rng.random() < 0.08:
                c["bad"] = rng.choice(["order", "dim"])
            if c["order"] == 1 and not s["hasjac"]:
                c["bad"] = c["bad"] or "nojac"
            if not c["bad"]:
                c["vol"] = [qq(Fraction(rng.randint(1, 8), 16)) for _ in c["new"]]
                c["hasvol"] = c["volmode"] != "none"
                cur = c
            c["p0"], c["qdom"] = rng.random() < 0.3, rng.random() < 0.3       # an earlier solve's probabilities; a domain of its own
            s["calls"].append(c)
        else:
            sv = {"kind": "vor", "p": rng.choice(["1", "2", "inf"])}
            for _ in range(500):
                sv["vals"] = rpoints(rng, rng.randint(1, 4), d, -2, 6, 4)
                if not any(has_tie(sv, x) for x in cur["new"]):
                    break
            else:
                sv["vals"] = sv["vals"][:1]
            lab = [rng.randint(0, 2) for _ in sv["vals"]]
            c = {"do": "prob", "bad": "", "svals": sv["vals"], "sp": sv["p"], "lab": lab, "update": rng.random() < 0.6,
                 "regions": [rng.choice(lab) for _ in range(rng.randint(1, 3))],
                 "prob": rprobs(rng, ncells(s["bins"])) if rng.random() < 0.2 else None}       # the distribution of the data changes
            if not s["hasee"]:
                c["bad"] = "noee"
            elif rng.random() < 0.08:
                c["bad"] = rng.choice(["type", "absent"])
            s["calls"].append(c)
    if s["calls"][0]["do"] == "gen" and rng.random() < 0.05:
        s["calls"].insert(0, {"do": "prob", "bad": "early", "svals": [s["x"][0]], "sp": "2", "lab": [0], "update": True, "regions": [0]})
    if s["R"] > 1 and rng.random() < 0.5:
        o = list(range(s["R"]))
        rng.shuffle(o)
        s["order"] = o
    return s


def shifted(rng, i):
    """every bin keeps outputs when they are corrected, some outputs change bins: the error is finite and not zero"""
    d = rng.randint(1, 2)
    s = {"seed": i, "R": rng.choice([2, 2, 3, 4, 1]), "dim": d, "dout": 1, "p": rng.choice(["2", "1", "inf"]), "int": False, "hasee": True,
         "hasjac": True, "place": rng.choice(["g", "gl", "lg", "l"]), "eplace": rng.choice("gl"), "jplace": "g", "oldprob": rng.random() < 0.5,
         "dom": False}
    s["bins"] = {"kind": "vor", "p": "2", "vals": [[[0, 1]], [[2, 1]]] if rng.random() < 0.7 else [[[2, 1]], [[0, 1]], [[5, 1]]]}
    s["prob"] = [[1, 4], [3, 4]] if len(s["bins"]["vals"]) == 2 else [[1, 4], [1, 2], [1, 4]]
    for _ in range(2000):
        n = rng.randint(1, 3)
        s["x"] = rpoints(rng, n, d, 0, 3, 2)
        s["y"] = [[qq(Fraction(rng.randint(-2, 8), 2) + Fraction(1, 8))] for _ in range(n)]
        s["jac"] = [[qq(Fraction(rng.randint(-4, 4), 2)) for _ in range(d)] for _ in range(n)]
        s["ee"] = [[qq(Fraction(rng.choice([0, 1, -1, 3, -3]), 4) + Fraction(1, 32))] for _ in range(n)]
        new = untied(rng, {"kind": "vor", "p": s["p"], "vals": s["x"]}, d, rng.randint(6, 16), -1, 4, 4)
        y, z = [], []
        for x in new:
            o = owner(s["p"], s["x"], x)
            v = fr(s["y"][o][0]) + sum(fr(s["jac"][o][k]) * (fr(x[k]) - fr(s["x"][o][k])) for k in range(d))
            y.append([qq(v)])
            z.append([qq(v + fr(s["ee"][o][0]))])
        if any(has_tie(s["bins"], v) for v in y + z):
            continue
        a, b = ([owner("2", s["bins"]["vals"], v) for v in w] for w in (y, z))
        nb = len(s["prob"])
        if len(set(a)) < nb or len(set(b)) < nb or a == b:
            continue
        sv = {"kind": "vor", "p": "2", "vals": rpoints(rng, rng.randint(2, 3), d, -1, 4, 4)}
        if any(has_tie(sv, x) for x in new):
            continue
        break
    else:
        return scenario(rng, i)
    lab = [0] + [1] * (len(sv["vals"]) - 1)
    s["calls"] = [{"do": "gen", "order": 1, "bad": "", "place": rng.choice(["g", "gl", "l"]), "vol": [qq(Fraction(rng.randint(1, 8), 16)) for _ in new],
                   "volmode": rng.choice(["none", "g", "l"]), "new": new}]
    s["calls"][0]["hasvol"] = s["calls"][0]["volmode"] != "none"
    for _ in range(2):
        s["calls"].append({"do": "prob", "bad": "", "svals": sv["vals"], "sp": "2", "lab": lab, "update": rng.random() < 0.8,
                           "regions": [rng.randint(0, 1) for _ in range(rng.randint(1, 2))]})
    return s


def scenarios(tier, rng):
    return [scenario(rng, i) for i in range(300 if tier == "quick" else 3000)] + \
           [shifted(rng, 10000 + i) for i in range(60 if tier == "quick" else 600)]


def execute(s):
    d, m, n = s["dim"], s["dout"], len(s["x"])

    def body(rank, R):
        import bet.sample as S
        import bet.surrogates as U
        inp, out = S.sample_set(d), S.sample_set(m)
        inp.set_p_norm(PN[s["p"]])
        if s["dom"]:
            inp.set_domain(np.array([[-3.0, 7.0]] * d))
        J = A(s["jac"]).reshape(n, m, d)
        for o, v in ((inp, A(s["x"])), (out, A(s["y"]).astype(int if s["int"] else float))):
            if s["place"] in ("lg", "l"):
                o.set_values_local(split(v, R)[rank])
                if s["place"] == "lg":
                    o.local_to_global()
            else:
                o.set_values(v)
        if s["hasee"]:
            if s["eplace"] == "l" or s["place"] == "l":
                out.set_error_estimates_local(split(A(s["ee"]), R)[rank])
            else:
                out.set_error_estimates(A(s["ee"]))
        if s["hasjac"]:
            if s["jplace"] == "late":
                pass
            elif s["jplace"] == "l" or s["place"] == "l":
                inp.set_jacobians_local(split(J, R)[rank])
            else:
                inp.set_jacobians(J)
        if s["oldprob"] and s["place"] != "l":
            inp.set_probabilities(np.ones(n) / n)
        if s["place"] == "gl":
            inp.global_to_local()
            out.global_to_local()
        bins = make_part(s["bins"], m)
        bins.set_probabilities(V(s["prob"]))
        disc = S.discretization(inp, out, output_probability_set=bins)
        sur = U.piecewise_polynomial_surrogate(disc)
        if s["hasjac"] and s["jplace"] == "late":  # given after the surrogate was set up
            inp.set_jacobians_local(split(J, R)[rank])
        # local parts are compared where there are only those; gathering them is no change
        either = lambda o, a: getattr(o, a + "_local") if gone[a, o is inp] else getattr(o, a)
        gone = {(a, o is inp): getattr(o, a) is None for o in (inp, out) for a in ("_values", "_jacobians", "_error_estimates")}
        tok = lambda: [enc.deep(v) for v in (either(inp, "_values"), either(inp, "_jacobians"), either(out, "_values"),
                                             either(out, "_error_estimates"), inp._domain, bins._probabilities)]
        ptok = lambda: [enc.deep(v) for v in (inp._probabilities, inp._probabilities_local, inp._error_id)]
        t0 = [tok()]
        res = []
        cur = {}

        def one(c):
            r = {}
            if c["do"] == "gen":
                k = d + 1 if c["bad"] == "dim" else d
                q = S.sample_set(k)
                if c.get("qdom"):
                    q.set_domain(np.array([[-4.0, 9.0]] * k))
                v = A(c["new"]) if k == d else np.ones((3, k))
                if c["place"] == "l":
                    q.set_values_local(split(v, R)[rank])
                else:
                    q.set_values(v)
                    if c["place"] == "gl":
                        q.global_to_local()
                if c["hasvol"]:
                    if c["volmode"] == "l" or c["place"] == "l":
                        if c["place"] == "g":
                            q.global_to_local()
                        q.set_volumes_local(split(V(c["vol"]), R)[rank])
                    elif c["volmode"] == "g":
                        q.set_volumes(V(c["vol"]))
                if c.get("p0"):
                    w = np.arange(1.0, len(v) + 1) / sum(range(1, len(v) + 1))
                    if c["place"] == "l":
                        q.set_probabilities_local(split(w, R)[rank])
                    else:
                        q.set_probabilities(w)
                        if c["place"] == "gl":
                            q.global_to_local()
                dom = q.get_domain()
                dom = None if dom is None else np.copy(dom)
                g = sur.generate_for_input_set(q, 2 if c["bad"] == "order" else c["order"])
                if c["hasvol"] and c["volmode"] == "late" and c["place"] != "l":
                    q.set_volumes(V(c["vol"]))
                cur["g"] = g
                r = {"in": enc.arr(g._input_sample_set.get_values_local()), "out": enc.arr(g._output_sample_set.get_values_local()),
                     "ee": enc.arr(g._output_sample_set.get_error_estimates_local())}
                r["kept"] = tok() == t0[0] and g._input_sample_set is q and (dom is None or bool(np.array_equal(q.get_domain(), dom)))
                return r
            ss = S.sample_set(d)
            ss.set_p_norm(PN[c["sp"]])
            ss.set_values(A(c["svals"]))
            ss.set_region(np.array(c["lab"]))
            if c.get("prob"):
                bins.set_probabilities(V(c["prob"]))
                t0[0] = tok()
            pb = ptok()
            regs = c["regions"]
            if c["bad"] == "absent":
                regs = [55]
            pr, er = sur.calculate_prob_for_sample_set_region("set" if c["bad"] == "type" else ss, regs, update_input=c["update"])
            return {"probs": enc.fixarr(pr), "errs": enc.fixarr(er), "tp": enc.fixarr(inp._probabilities),
                    "tpl": enc.fixarr(inp._probabilities_local), "te": enc.fixarr(inp._error_id),
                    "eid": enc.fixarr(cur["g"]._input_sample_set._error_id_local), "kept": tok() == t0[0], "pkept": ptok() == pb}
        for c in s["calls"]:
            try:
                res.append(dict(one(c), exc=""))
            except Exception as e:
                if type(e).__name__ in ("Deadlock", "Abort", "SpmdError"):
                    raise
                res.append({"exc": enc.exc_name(e)})
        return {"res": res}
    outs, logs = run(s, body)
    base = {k: enc.NONE for k in ("in", "out", "ee", "probs", "errs", "tp", "tpl", "te", "eid")}
    base.update(kept=False, pkept=False)
    evs, prob, cur = [], s["prob"], {"new": [], "order": 0, "hasvol": False, "vol": []}
    for k, c in enumerate(s["calls"]):
        if c["do"] == "gen" and not c["bad"]:
            cur = c
        prob = c.get("prob") or prob
        os_ = [dict(o["res"][k]) if "res" in o else {"exc": o["exc"]} for o in outs]
        fill(os_, base)
        ev = {"op": "sur", "outs": os_, "bad": c["bad"] != "", "do": c["do"], "prob": prob}
        for f0 in ("new", "order", "hasvol", "vol"):
            ev[f0] = (c if c["do"] == "gen" else cur)[f0]
        if c["do"] == "prob":
            for f0 in ("svals", "sp", "lab", "update", "regions"):
                ev[f0] = c[f0]
        evs.append(ev)
    return {"ev": evs, "init": {k: s[k] for k in ("x", "y", "jac", "ee", "hasee", "p", "bins", "prob")}}
