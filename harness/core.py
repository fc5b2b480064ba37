"""The check driver: model check, execute, judge, report."""
import importlib
import io
import contextlib
import json
import logging
import multiprocessing
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BET_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known_findings.json")


def prepare(mpi="sim"):
    """import bet from REPO's working tree over the simulated MPI ("sim"),
    without any ("none") or over the installed library ("real")"""
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from harness import simmpi
    if mpi == "sim":
        simmpi.install()
    elif mpi == "none":
        sys.modules["mpi4py"] = None          # importing it fails
    import numpy as np
    np.seterr(all="ignore")
    import bet
    if not os.path.abspath(bet.__file__).startswith(os.path.abspath(REPO)):
        raise RuntimeError("bet imported from %s" % bet.__file__)
    import bet.sample, bet.util, bet.surrogates, bet.calculateP.calculateP  # noqa
    import bet.calculateP.simpleFunP, bet.calculateP.calculateError  # noqa
    import bet.calculateP.calculateR  # noqa
    import bet.sampling.basicSampling, bet.sensitivity.gradients  # noqa
    import bet.sensitivity.chooseQoIs, bet.postProcess.postTools  # noqa
    import bet.postProcess.compareP  # noqa


def _exec(args):
    modname, scn = args
    mod = importlib.import_module(modname)
    buf = io.StringIO()
    t0 = time.time()
    with contextlib.redirect_stdout(buf):
        try:
            tr = mod.execute(scn)
        except Exception:
            return {"_fail": traceback.format_exc(), "scn": scn}
    tr["_json"] = json.dumps({"ev": tr["ev"], "init": tr.get("init", {})}, allow_nan=False)
    tr["_t"] = time.time() - t0
    tr["scn"] = scn
    return tr


def execute_all(modname, scns, procs=8, limit=600):
    """run every scenario on the implementation in worker processes"""
    if not scns:
        return []
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(procs)
    res = pool.map_async(_exec, [(modname, s) for s in scns],
                         chunksize=max(1, min(16, len(scns) // (procs * 4) or 1)))
    try:
        out = res.get(limit)
        pool.close()
    except multiprocessing.TimeoutError:
        pool.terminate()
        return None
    pool.join()
    return out


def load_known():
    if os.path.exists(KNOWN):
        return json.load(open(KNOWN))
    return {"findings": [], "fixed": []}


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from harness import tlc
    modname = "props." + pid.lower()
    mod = importlib.import_module(modname)
    prepare(getattr(mod, "MPI", "sim"))
    try:
        code = _main(pid, tier, seed, t0, tlc, mod, modname)
    except tlc.MachineryError as e:
        print("MACHINERY-ERROR %s" % e)
        return 2
    return code


def _main(pid, tier, seed, t0, tlc, mod, modname):
    # 1. the design: exhaustive model checking of the specification
    mcs = [tlc.MC(m["module"], m.get("cfg", m["module"] + ".cfg"),
                  m.get(tier, m.get("quick", {})), timeout=m.get("timeout", 800),
                  workers=m.get("workers", 2), heap=m.get("heap", "3g"))
           for m in mod.MODELS]
    # 2. scenarios: generated by the specification and by seeded drivers
    rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
    scns = list(mod.scenarios(tier, rng))
    n_driver = len(scns)
    mcres = None
    if getattr(mod, "from_model", None):
        mcres = [m.wait() for m in mcs]
        edges = {r["module"]: r["edges"] for m, r in zip(mod.MODELS, mcres) if not m.get("violates")}
        scns += list(mod.from_model(edges, tier, rng))
    # 3. the code: run them, record behaviours
    traces = execute_all(modname, scns)
    tex = time.time() - t0
    violations = []
    if traces is None:
        violations.append({"kind": "no-termination",
                           "detail": "the scenarios did not finish on this tree within 600 s"})
        traces = []
    bad = [t for t in traces if "_fail" in t]
    for t in bad[:20]:
        # what the code answered has none of the forms its interface promises
        violations.append({"kind": "unrecordable", "scenario": t["scn"], "detail": t["_fail"]})
    traces = [t for t in traces if "_fail" not in t]
    if mcres is None:
        mcres = [m.wait() for m in mcs]
    for m, r in zip(mod.MODELS, mcres):
        if m.get("violates"):
            # a design without the mechanism under study must fail, or the model says nothing
            if r["violated"] not in m["violates"].split("|"):
                raise tlc.MachineryError("model %s %s: expected a violation of %s" % (r["module"], m, m["violates"]))
            r["expected_violation"] = r["violated"]
        elif not r["ok"]:
            raise tlc.MachineryError("model %s: %s" % (r["module"], r.get("text", "")))
    # 4. the binding: every recorded behaviour against the specification
    verdicts, st = tlc.judge(traces, shards=6 if len(traces) > 200 else 3, timeout=300 if tier == "quick" else 3000)
    tj = time.time() - t0
    known = [k for k in load_known().get("findings", []) if k["property"] == pid]
    hit_known = {}
    for ti, li, cl in verdicts:
        scn = traces[ti]["scn"]
        k = next((k for k in known if match_known(k, scn, cl)), None)
        if k:
            hit_known.setdefault(k["id"], k)
            continue
        violations.append({"kind": "trace", "trace": ti, "event": li, "clauses": cl, "scenario": scn,
                           "recorded": traces[ti]["ev"][li] if li < len(traces[ti]["ev"]) else None})
    # 5. demonstrate the binding: corrupt recordings, the judge must reject them
    corrupt = [] if violations else corruption(mod, traces, verdicts, rng)
    cor_rejected = 0
    if corrupt:
        cv, _ = tlc.judge(corrupt, shards=1, timeout=60, alone=20)
        cor_rejected = len({v[0] for v in cv})
        if cor_rejected == 0:
            raise tlc.MachineryError("no corrupted recording was rejected: the judge is vacuous")
    nev = sum(len(t["ev"]) for t in traces)
    sigs = {t["_json"] for t in traces}
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ranks = {}
    for t in traces:
        R = t["scn"].get("R", 1)
        ranks[str(R)] = ranks.get(str(R), 0) + 1
    cov = {
        "states": sum(r.get("states", 0) for r in mcres) + st["states"],
        "transitions": sum(r.get("transitions", 0) for r in mcres) + st["transitions"],
        "traces_validated_against_impl": len(traces),
        "samples": [json.loads(t["_json"]) for t in sorted(traces, key=lambda t: len(t["_json"]))[len(traces) // 3:][:1]]
        + [{"scenario": t["scn"]} for t in traces[:2]],
        "design_models": [{k: r[k] for k in ("module", "states", "transitions", "expected_violation", "wall_s") if k in r} for r in mcres],
        "trace_spec_states": st["states"],
        "scenarios_from_specification": len(scns) - n_driver,
        "scenarios_from_driver": n_driver,
        "events": nev,
        "events_by_operation": ops,
        "traces_by_process_count": ranks,
        "distinct_traces": len(sigs),
        "corrupted_recordings": len(corrupt),
        "corrupted_recordings_rejected": cor_rejected,
        "rule": getattr(mod, "RULE", ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d design states, %d traces (%d events) judged, exec %.1fs judge %.1fs total %.1fs, "
          "corrupted rejected %d/%d" % (pid, tier, sum(r.get("states", 0) for r in mcres), len(traces), nev,
                                       tex, tj - tex, time.time() - t0, cor_rejected, len(corrupt)))
    if violations:
        d = os.path.join(ROOT, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-replay.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "count": len(violations), "violations": violations[:50]}, f, indent=1)
        tally = {}
        for v in violations:
            for c in v.get("clauses", [v["kind"]]):
                tally[c] = tally.get(c, 0) + 1
        print("failing clauses: %s" % json.dumps(tally, sort_keys=True))
        v = violations[0]
        print("first: %s" % json.dumps(v)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def match_known(k, scn, clauses):
    m = k["match"]
    if not set(clauses) <= set(m["clauses"]):
        return False
    return all(scn.get(f) == v for f, v in m.get("scenario", {}).items())


def _walk(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _walk(x[k], path + (k,))
    elif isinstance(x, list):
        if len(x) == 2 and all(isinstance(v, int) and not isinstance(v, bool) for v in x) and x[1] >= 1:
            yield path, "q"
        else:
            for i, v in enumerate(x):
                yield from _walk(v, path + (i,))
    elif isinstance(x, int) and not isinstance(x, bool):
        yield path, "i"


def corruption(mod, traces, verdicts, rng, n=24):
    """flip one recorded output number in a few accepted traces"""
    failed = {v[0] for v in verdicts}
    ok = [i for i in range(len(traces)) if i not in failed]
    rng.shuffle(ok)
    out = []
    for i in ok[:n]:
        t = json.loads(traces[i]["_json"])
        cands = []
        for j, e in enumerate(t["ev"]):
            for p, kind in _walk(e.get("outs", [])):
                cands.append((j, p, kind))
        if not cands:
            continue
        j, p, kind = cands[rng.randrange(len(cands))]
        x = t["ev"][j]["outs"]
        for s in p[:-1]:
            x = x[s]
        if kind == "q":
            x[p[-1]] = [x[p[-1]][0] + 7 * x[p[-1]][1], x[p[-1]][1]]
        else:
            x[p[-1]] = x[p[-1]] + 977
        out.append({"_json": json.dumps(t), "ev": t["ev"]})
    return out
