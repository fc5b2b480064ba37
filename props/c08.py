"""C08: any number of processes gives the serial answer."""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from harness import enc, simmpi
from props import errs
from props.common import *

MODELS = [{"module": "MC_Comm", "quick": {"R": 3, "Depth": 3}, "thorough": {"R": 4, "Depth": 3}},
          {"module": "MC_Comm", "quick": {"R": 3, "Depth": 2, "Branch": "TRUE"}, "violates": "Progress|Paired|Agree"},
          {"module": "MC_Par", "quick": {"N": 4, "R": 3}, "thorough": {"N": 6, "R": 4}},
          {"module": "MC_Par", "quick": {"N": 3, "R": 2, "Race": "TRUE"}, "violates": "Serial|SameEverywhere"},
          {"module": "MC_Par", "quick": {"N": 3, "R": 2, "LocalSum": "TRUE"}, "violates": "Serial|SameEverywhere"}]
RULE = ("programs of 2-9 operations (distribute, gather, pointers, volumes, probabilities, transfer, error estimates, surrogates, gradients and "
        "QoI selection, marginals, densities, inference, sampling, solving, subsets and merges, save and load, queries) on one discretization "
        "run on one process and on 2-6 processes under permuted schedules of the test runtime, and on 2 and 3 processes of the installed MPI "
        "library; distinct by full trace")
ASSUMPTIONS = ["sums may round differently: results are compared to 1e-4", "no nearest-neighbour ties", "runs of the installed library that do not answer in time are dropped"]
STEPS = ["dist", "gather", "io", "io", "ii", "volmc", "volemu", "exact", "prob", "prob", "prob", "pemu", "pemu", "pvol", "old2new", "inp2new", "serr", "serr", "merr", "merr",
         "sregion", "mregion", "sur", "sur", "marg", "marg", "save", "save", "dens", "pdf", "opt", "ffd", "rbf", "kde", "solve", "grid", "choose",
         "clip", "merge", "query", "norm", "regular", "userpart", "datasamples", "sorted", "bound", "copy", "nums"]


def scenario(rng, i):
    s = errs.base(rng, i)
    s["R"] = rng.choice([2, 2, 3, 3, 4, 5, 6])
    s["order"] = list(range(s["R"]))
    rng.shuffle(s["order"])
    s["hasemu"] = True
    if s["volmode"] == "none":
        s["volmode"] = "g"
    n = len(s["x"])
    s["jac"] = [[[rng.randint(-4, 4) for _ in range(s["dim"])] for _ in range(s["dout"])] for _ in range(n)]
    own = {"kind": "vor", "p": "2", "vals": [[[v, 1] for v in r] for r in s["x"]]}
    s["qry"] = untied(rng, own, s["dim"], rng.randint(1, 7), -2, 8 if s["dim"] > 1 else 20, 4)
    for _ in range(200):
        a = errs.region_args(rng, s, own["vals"])
        sv = a["sv"]
        if not any(has_tie(sv, x) for x in s["emu"] + own["vals"]):
            break
    else:
        a = {"svals": [[[0, 1]] * s["dim"]], "sp": "2", "lab": [1], "region": 1}
    s["reg"] = {k: a[k] for k in ("svals", "sp", "lab", "region")}
    s["opt"] = [[[rng.randint(-5, 5) for _ in range(2)] for _ in range(rng.choice([3, 4]))] for _ in range(rng.randint(1, 6))]
    m = min(len(q) for q in s["opt"])
    s["opt"] = [q[:m] for q in s["opt"]]
    s["steps"] = [{"do": rng.choice(STEPS), "a": rng.randint(0, 5), "b": rng.randint(0, 5), "g": rng.random() < 0.5} for _ in range(rng.randint(2, 9))]
    return s


def scenarios(tier, rng):
    out = [scenario(rng, i) for i in range(420 if tier == "quick" else 4000)]
    seen = {t["do"] for s in out for t in s["steps"]}
    for k in STEPS:
        if k not in seen:
            s = scenario(rng, len(out))
            s["steps"][0]["do"] = k
            out.append(s)
    real = json.loads(json.dumps(out[:60 if tier == "quick" else 800]))
    for s in real:
        s["R"] = 2 + s["seed"] % 2
        s.pop("order", None)
    for s, got in zip(real, mpi(real, 120 if tier == "quick" else 1500)):
        if got is not None:
            s["got"] = got
            out.append(s)
    return out


def mpi(scns, limit):
    """results of scenarios on the installed MPI library (None: no answer)"""
    res = [None] * len(scns)
    here = os.path.abspath(__file__)
    for R in (2, 3):
        mine = [k for k, s in enumerate(scns) if s["R"] == R]
        d = tempfile.mkdtemp(prefix="c08mpi")
        try:
            with open(os.path.join(d, "in.json"), "w") as fh:
                json.dump([scns[k] for k in mine], fh)
            env = dict(os.environ, BET_REPO=os.environ.get("BET_REPO", "/repo"), PYTHONPATH=os.path.dirname(os.path.dirname(here)), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            subprocess.run(["mpiexec", "--allow-run-as-root", "--oversubscribe", "-n", str(R), sys.executable, here, d], env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=limit)
        except Exception:
            pass
        try:
            parts = []
            for r in range(R):
                with open(os.path.join(d, "out%d.json" % r)) as fh:
                    parts.append([json.loads(x) for x in fh])
            for j in range(min(len(p) for p in parts)):
                res[mine[j]] = [p[j] for p in parts]
        except Exception:
            pass
        shutil.rmtree(d, ignore_errors=True)
    return res


class World(object):
    def __init__(self, s, rank, R, comm, tmp):
        import bet.sample as S
        self.s, self.rank, self.R, self.comm, self.tmp = s, rank, R, comm, tmp
        self.S = S
        self.res = []
        X, Y, E = np.array(s["x"], dtype=float), A(s["y"]), A(s["ee"])
        self.inp, self.out = S.voronoi_sample_set(s["dim"]), S.sample_set(s["dout"])
        self.inp.set_p_norm(2.0)
        self.inp.set_domain(np.array([[-24.0, 24.0]] * s["dim"]))
        for o, v in ((self.inp, X), (self.out, Y)):
            if s["place"] == "lg":
                o.set_values_local(split(v, R)[rank])
                o.local_to_global()
            else:
                o.set_values(v)
        self.out.set_error_estimates(E)
        self.out.set_domain(np.array([[-8.0, 12.0]] * s["dout"]))
        self.inp.set_jacobians(np.array(s["jac"], dtype=float))
        if s["place"] == "gl":
            self.inp.global_to_local()
            self.out.global_to_local()
        self.inp.set_volumes(V(s["vol"]))
        if s["volmode"] == "l":
            self.inp.global_to_local()
        elif self.inp.get_values_local() is not None:
            self.inp.global_to_local()
        bins = make_part(s["bins"], s["dout"])
        bins.set_probabilities(V(s["prob"]))
        self.d = S.discretization(self.inp, self.out, output_probability_set=bins)
        self.em = S.sample_set(s["dim"])
        self.em.set_values(A(s["emu"]))
        self.em.set_domain(self.inp.get_domain())
        self.d.set_emulated_input_sample_set(self.em)

    def put(self, name, v, kind="g"):
        if v is None:
            v = []
            name += " missing"
        self.res.append([name, kind, enc.fixarr(np.asarray(v, dtype=float))])

    def sets(self, name, s, flds=("_values", "_volumes", "_probabilities", "_region", "_error_id", "_densities", "_jacobians", "_error_estimates")):
        for f0 in flds:
            self.put(name + f0, getattr(s, f0))

    def both(self, name, s, flds):
        for f0 in flds:
            self.put(name + f0, getattr(s, f0))
            self.put(name + f0 + "_local", getattr(s, f0 + "_local"), "l")

    def region(self):
        s = self.s
        ss = self.S.sample_set(s["dim"])
        ss.set_p_norm(PN[s["reg"]["sp"]])
        ss.set_values(A(s["reg"]["svals"]))
        ss.set_region(np.array(s["reg"]["lab"]))
        return ss

    def newset(self, k):
        ss = self.S.voronoi_sample_set(self.s["dim"])
        ss.set_p_norm(PN[self.s["reg"]["sp"]])
        ss.set_domain(self.inp.get_domain())
        ss.set_values(A(self.s["reg"]["svals"]))
        if k % 2:
            ss.global_to_local()
        return ss

    def step(self, t):
        import bet.calculateP.calculateP as P
        import bet.calculateP.calculateError as E
        import bet.calculateP.simpleFunP as SF
        import bet.calculateP.calculateR as CR
        import bet.surrogates as U
        import bet.postProcess.plotP as PP
        import bet.postProcess.postTools as PT
        import bet.sampling.basicSampling as B
        import bet.sensitivity.gradients as G
        import bet.sensitivity.chooseQoIs as C
        from bet import util
        s, d, S, do, a, b, g = self.s, self.d, self.S, t["do"], t["a"], t["b"], t["g"]
        inp, out, em = d._input_sample_set, d._output_sample_set, d._emulated_input_sample_set
        if do == "dist":
            d.global_to_local() if g else inp.global_to_local()
            self.both("in", inp, ["_values"])
        elif do == "gather":
            d.local_to_global() if g else out.local_to_global()
            self.sets("in", inp)
            self.sets("out", out)
        elif do == "io":
            d.set_io_ptr(globalize=g)
            self.put("io_local", d._io_ptr_local, "l")
            self.put("io", d.get_io_ptr() if g else [])
        elif do == "ii":
            d.set_emulated_ii_ptr(globalize=g)
            self.put("ii_local", d._emulated_ii_ptr_local, "l")
            self.put("ii", d.get_emulated_ii_ptr() if g else [])
        elif do == "volmc":
            if inp._values_local is None:
                inp.global_to_local()
            inp.estimate_volume_mc(globalize=g)
            self.put("vol", inp._volumes_local, "l")
        elif do == "volemu":
            inp.estimate_volume_emulated(em) if g else d.estimate_input_volume_emulated()
            self.both("in", inp, ["_volumes"])
        elif do == "exact":
            inp.exact_volume_1D() if s["dim"] == 1 else inp.exact_volume_2D() if s["dim"] == 2 else inp.estimate_volume_mc()
            self.both("in", inp, ["_volumes"])
        elif do == "prob":
            P.prob(d, globalize=g)
            self.put("P_local", inp._probabilities_local, "l")
            if g:
                self.put("P", inp._probabilities)
        elif do == "pemu":
            P.prob_on_emulated_samples(d, globalize=g)
            self.put("Pe_local", em._probabilities_local, "l")
            if g:
                self.put("Pe", em._probabilities)
        elif do == "pvol":
            P.prob_with_emulated_volumes(d)
            self.put("P", inp._probabilities)
            self.put("V", inp._volumes)
        elif do == "old2new":
            P.prob(d)
            ns = self.newset(a)
            e2 = S.sample_set(s["dim"])
            e2.set_values(A(s["emu"]))
            self.put("new", P.prob_from_sample_set(inp, ns) if b % 2 else P.prob_from_sample_set_with_emulated_volumes(inp, ns, e2))
            self.put("new set", ns.get_probabilities())
        elif do == "inp2new":
            P.prob_on_emulated_samples(d)
            ns = self.newset(a)
            self.put("new", P.prob_from_discretization_input(d, ns))
        elif do == "serr":
            e = E.sampling_error(d)
            up, lo = e.calculate_for_contour_events()
            self.put("up", up)
            self.put("lo", lo)
        elif do == "merr":
            self.put("err", E.model_error(d).calculate_for_contour_events())
        elif do == "sregion":
            e = E.sampling_error(d)
            up, lo = e.calculate_for_sample_set_region(self.region(), s["reg"]["region"], em if a % 2 else None)
            self.put("up", up)
            self.put("lo", lo)
        elif do == "mregion":
            m = E.model_error(d)
            self.put("e", m.calculate_for_sample_set_region(self.region(), s["reg"]["region"], em if a % 2 else None) if g
                     else m.calculate_for_sample_set_region_mc(self.region(), s["reg"]["region"]))
        elif do == "sur":
            q = S.sample_set(s["dim"])
            v = A(s["emu"])
            if a % 2:
                q.set_values(v)
            else:
                q.set_values_local(split(v, self.R)[self.rank])
                q.local_to_global()
            u = U.piecewise_polynomial_surrogate(d)
            r = u.generate_for_input_set(q, b % 2)
            self.put("y_local", r._output_sample_set._values_local, "l")
            r.local_to_global()
            self.put("y", r._output_sample_set._values)
            if g:
                pr, er = u.calculate_prob_for_sample_set_region(self.region(), sorted(set(s["reg"]["lab"])), update_input=a < 3)
                self.put("pr", pr)
                self.put("er", er)
                self.put("P", inp._probabilities)
                self.put("id", inp._error_id)
        elif do == "marg":
            if inp._probabilities is None and inp._probabilities_local is None:
                P.prob(d)
            if g:
                P.prob_on_emulated_samples(d)
            bins, m = PP.calculate_1D_marginal_probs(d if g else inp, 3 + a)
            for k in m:
                self.put("m%s" % k, m[k])
            if s["dim"] > 1:
                bins, m = PP.calculate_2D_marginal_probs(inp, 2 + b)
                for k in sorted(m):
                    self.put("m%s" % (k,), m[k])
        elif do == "save":
            name = os.path.join(self.tmp, "f%d" % len(self.res))
            o = d if a % 2 else inp
            o.save(name, globalize=g)
            q = util.load_object(name, localize=g and b % 2 == 1)
            if g:
                q.local_to_global() if b % 2 else None
                x = q._input_sample_set if a % 2 else q
                self.sets("loaded", x)
            else:
                self.put("same", [float(q == o)])
        elif do == "dens":
            if inp._probabilities is None:
                P.prob(d)
            inp.set_densities()
            self.put("dens", inp._densities)
        elif do == "pdf":
            P.prob(d)
            x = A(s["qry"])
            self.put("pdf", inp.pdf(x))
            self.put("marg", inp.marginal_pdf(x[:, [0]], 0))
        elif do == "opt":
            i = S.sample_set(2)
            i.set_values(np.arange(2.0 * len(s["opt"])).reshape(-1, 2))
            i.set_jacobians(np.array(s["opt"], dtype=float))
            if a % 2:
                i.global_to_local()
            m, _ = C.chooseOptQoIs_verbose(i, num_optsets_return=4, measure=g)
            self.put("best", m[:, 0])
            ms, _ = C.chooseOptQoIs_large_verbose(i, num_optsets_return=3, measure=g)
            for k, x in enumerate(ms):
                self.put("large%d" % k, np.asarray(x)[:, 0])
            self.put("avg", [C.calculate_avg_measure(i, [0, 1])[0], C.calculate_avg_condnum(i, [0, 1])[0]])
            self.put("unique", C.find_unique_vecs(i, 0.95))
        elif do in ("ffd", "rbf"):
            c = S.sample_set(s["dim"])
            c.set_domain(inp.get_domain())
            c.set_values(np.array(s["x"], dtype=float))
            if a % 2:
                c.global_to_local()
            pts = (G.pick_ffd_points if b % 2 else G.pick_cfd_points)(c, np.array([0.25] * s["dim"]))
            f0 = lambda x: np.stack([np.sum(x ** 2, axis=1) / 8, x[:, 0]], axis=1)
            if do == "rbf":
                i2, o2 = S.sample_set(s["dim"]), S.sample_set(2)
                i2.set_values(np.array(s["x"], dtype=float))
                o2.set_values(f0(i2.get_values()))
                r = G.calculate_gradients_rbf(S.discretization(i2, o2), num_centers=2, num_neighbors=min(3, len(s["x"])), RBF="Gaussian", ep=0.5, normalize=g)
            else:
                o2 = S.sample_set(2)
                o2.set_values(f0(pts.get_values()))
                r = (G.calculate_gradients_ffd if b % 2 else G.calculate_gradients_cfd)(S.discretization(pts, o2), normalize=g)
            self.put("grad", r._input_sample_set.get_jacobians())
            self.put("centers", r._input_sample_set.get_values())
        elif do == "kde":
            pred, ins, obs = S.sample_set(1), S.sample_set(1), S.sample_set(1)
            x = np.linspace(0, 1, 13)[:, None]
            ins.set_values(x)
            ins.set_domain(np.array([[0.0, 1.0]]))
            pred.set_values(x ** 2 + x)
            obs.set_values(np.linspace(0.6, 1.0, 7 + a)[:, None] ** 2)
            if g:
                for o in (ins, pred, obs):
                    o.global_to_local()
            q = S.discretization(ins, pred, output_observed_set=obs)
            if b < 2:
                CR.invert_to_kde(q)
            elif b < 4:
                CR.invert_to_gmm(q)
            else:
                CR.invert_to_multivariate_gaussian(q)
            at = np.linspace(0.05, 0.95, 5)[:, None]
            self.put("pdf", q._input_sample_set.pdf(at))
            self.put("w", q._input_sample_set._weights)
        elif do == "solve":
            model = (lambda x: (np.stack([np.sum(x, axis=1), x[:, 0] * 2], axis=1), x * 0.5)) if g else (lambda x: np.stack([np.sum(x, axis=1), x[:, 0] * 2], axis=1))
            q = S.sample_set(s["dim"])
            q.set_domain(inp.get_domain())
            q.set_values(A(s["emu"]))
            sam = B.sampler(model, error_estimates=False, jacobians=False) if not g else B.sampler(lambda x: (model(x)[0], np.ones((len(x), 2))), error_estimates=True)
            r = sam.compute_qoi_and_create_discretization(q, globalize=a % 2 == 0)
            r.local_to_global()
            self.sets("solved in", r._input_sample_set, ["_values"])
            self.sets("solved", r._output_sample_set, ["_values", "_error_estimates"])
        elif do == "grid":
            q = B.regular_sample_set(np.array([[0.0, 1.0 + k] for k in range(s["dim"])]), 2 + a % 3)
            self.put("grid", q.get_values())
        elif do == "choose":
            r = d.choose_inputs_outputs(inputs=[0], outputs=[s["dout"] - 1])
            r.local_to_global()
            self.sets("chosen", r._output_sample_set)
            self.sets("chosen in", r._input_sample_set)
        elif do == "clip":
            r = d.clip(1 + a % len(s["x"]))
            self.sets("clip in", r._input_sample_set)
            self.sets("clip", r._output_sample_set)
        elif do == "merge":
            i2, o2 = S.voronoi_sample_set(s["dim"]), S.sample_set(s["dout"])
            i2.set_p_norm(2.0)
            i2.set_values(A(s["qry"]) + 0.5)
            i2.set_domain(inp.get_domain())
            o2.set_values(np.arange(1.0 * len(s["qry"]) * s["dout"]).reshape(-1, s["dout"]))
            o2.set_domain(out.get_domain())
            i3 = S.sample_set(s["dim"])
            i3.set_values(A(s["qry"]) - 0.5)
            i3.set_domain(inp.get_domain())
            if g:
                for o in (i2, o2, i3):
                    o.global_to_local()
            r = d.merge(S.discretization(i2, o2, emulated_input_sample_set=i3))
            r.local_to_global()
            # the order of merged samples depends on the distribution
            row = np.hstack([r._input_sample_set._values, r._output_sample_set._values])
            self.put("merged", row[np.lexsort(row.T[::-1])])
            row = r._emulated_input_sample_set._values
            self.put("merged em", row[np.lexsort(row.T[::-1])])
        elif do == "query":
            dist, ptr = inp.query(A(s["qry"]), k=1 + (a % 2 if len(s["x"]) > 2 else 0))
            self.put("near", np.ravel(ptr) if a % 2 == 0 else [])
            self.put("dist", np.sort(np.ravel(dist)))
        elif do == "norm":
            inp.normalize_domain()
            self.put("normalized", inp._values)
            inp.undo_normalize_domain()
            self.put("undone", inp._values)
        elif do == "regular":
            q = S.sample_set(s["dout"])
            q.set_values(out._values)
            q.set_reference_value(np.array([0.5] * s["dout"]))
            q.set_domain(out.get_domain())
            if g:
                q.global_to_local()
            r = SF.regular_partition_uniform_distribution_rectangle_size(q, rect_size=2.0, cells_per_dimension=1 + a % 3) if b % 2 else \
                SF.regular_partition_uniform_distribution_rectangle_scaled(q, rect_scale=0.25, cells_per_dimension=1 + a % 3)
            self.put("pv", r._values)
            self.put("pp", r._probabilities)
        elif do == "userpart":
            bins = d._output_probability_set
            q = S.voronoi_sample_set(s["dout"])
            q.set_p_norm(PN[s["bins"]["p"]] if s["bins"]["kind"] == "vor" else 2.0)
            q.set_values(np.array([[k * 3.0 - 2 + 0.125] * s["dout"] for k in range(3)]))
            if g:
                q.global_to_local()
            r = SF.user_partition_user_distribution(out, q, out)
            self.put("pp", r._probabilities)
        elif do == "datasamples":
            r = SF.uniform_partition_uniform_distribution_data_samples(d if a % 2 else out)
            self.put("pp", r._probabilities)
        elif do == "sorted":
            if inp._probabilities is None:
                P.prob(d)
            n, r, _ = PT.sample_highest_prob(0.6, inp)
            self.put("rho", np.cumsum(r._probabilities))
        elif do == "bound":
            inp.set_bounding_box()
            self.put("box", inp.get_bounding_box())
            self.put("dim", [inp.get_dim()] + list(inp.shape()))
        elif do == "copy":
            q = d.copy()
            self.put("eq", [float(q == d)])
            q.local_to_global()
            self.sets("copied", q._input_sample_set)
        elif do == "nums":
            self.put("n", [d.check_nums(), inp.check_num(), out.check_num(), em.check_num(), d._output_probability_set.check_num()])

    def run(self):
        for k, t in enumerate(self.s["steps"]):
            before = len(self.res)
            try:
                self.step(t)
            except simmpi.SimMPIError:
                raise
            except Exception as e:
                del self.res[before:]
                self.res.append(["%d %s raises %s" % (k, t["do"], enc.exc_name(e)), "g", enc.NONE])
                if os.environ.get("C08_DEBUG"):
                    import traceback
                    traceback.print_exc()
                return self.res
            for r in self.res[before:]:
                r[0] = "%d %s: %s" % (k, t["do"], r[0])
        try:
            self.d.local_to_global()
            self.sets("end in", self.d._input_sample_set)
            self.sets("end out", self.d._output_sample_set)
            self.sets("end em", self.d._emulated_input_sample_set, ["_values", "_probabilities"])
        except simmpi.SimMPIError:
            raise
        except Exception as e:
            self.res.append(["end raises %s" % enc.exc_name(e), "g", enc.NONE])
        return self.res


def program(s, R, order):
    tmp = tempfile.mkdtemp(prefix="c08")
    try:
        def body(rank, R):
            return {"res": World(s, rank, R, simmpi.COMM, tmp).run()}
        outs, logs = run({"R": R, "seed": s["seed"], "order": order}, body)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [{"exc": o["exc"], "res": o.get("res", [])} for o in outs], logs


def execute(s):
    ser, _ = program(s, 1, None)
    if "got" in s:
        outs, logs = s["got"], [[]]
    else:
        outs, logs = program(s, s["R"], s.get("order"))
    return {"ev": [{"op": "par", "serial": ser[0], "outs": outs, "spmd": all(x == logs[0] for x in logs)}]}


def main(d):
    """scenarios on the installed MPI library (under mpiexec)"""
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import contextlib
    import io
    from harness import core
    core.prepare("real")
    from mpi4py import MPI as M
    comm = M.COMM_WORLD
    with open(os.path.join(d, "in.json")) as fh:
        scns = json.load(fh)
    with open(os.path.join(d, "out%d.json" % comm.rank), "w") as fh:
        for k, s in enumerate(scns):
            tmp = os.path.join(d, "t%d" % k)
            if comm.rank == 0:
                os.mkdir(tmp)
            comm.barrier()
            with contextlib.redirect_stdout(io.StringIO()):
                o = {"exc": "", "res": World(s, comm.rank, comm.size, comm, tmp).run()}
            comm.barrier()
            fh.write(json.dumps(o) + "\n")
            fh.flush()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from props import c08
    c08.main(sys.argv[1])
