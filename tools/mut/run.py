"""run.py MUTS.json OUT.jsonl [n] [seed]: which mutants change what the checks record, and are rejected; survivors run the tests."""
import glob, importlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/tmp/betv_mpl")
MAP = {"bet/Comm.py": ["C28"], "bet/surrogates.py": ["C18", "C08"], "bet/util.py": ["C29", "C09", "C07", "C08"],
       "bet/calculateP/calculateP.py": ["C01", "C02", "C03", "C08"], "bet/calculateP/calculateError.py": ["C19", "C20", "C08"], "bet/calculateP/calculateR.py": ["C15"],
       "bet/calculateP/simpleFunP.py": ["C14"], "bet/postProcess/compareP.py": ["C27"], "bet/postProcess/plotP.py": ["C25"], "bet/postProcess/postTools.py": ["C24"],
       "bet/sampling/basicSampling.py": ["C16", "C17"], "bet/sampling/LpGeneralizedSamples.py": ["C16"], "bet/sensitivity/chooseQoIs.py": ["C23"], "bet/sensitivity/gradients.py": ["C21", "C22", "C16"],
       "bet/sample.py": ["C07", "C10", "C11", "C13", "C04", "C05", "C06", "C12", "C09", "C29", "C26", "C08", "C02"]}
BASE = "/tmp/mutbase"
NSC = {"C08": 150, "C09": 250, "C11": 400, "C07": 400, "C10": 400}
TESTS = {"sample.py": "test_sample.py", "surrogates.py": "test_surrogates.py", "util.py": "test_util.py test_sample.py", "Comm.py": "test_Comm.py",
         "calculateP.py": "test_calculateP/test_calculateP.py", "calculateError.py": "test_calculateP/test_calculateError.py", "calculateR.py": "test_calculateP/test_calculateR.py",
         "simpleFunP.py": "test_calculateP/test_simpleFunP.py", "compareP.py": "test_postProcess/test_compareP.py", "plotP.py": "test_postProcess/test_plotP.py",
         "postTools.py": "test_postProcess/test_postTools.py", "basicSampling.py": "test_sampling", "LpGeneralizedSamples.py": "test_sampling test_sensitivity/test_gradients.py",
         "chooseQoIs.py": "test_sensitivity/test_chooseQoIs.py", "gradients.py": "test_sensitivity/test_gradients.py"}
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def mexec(pid, repo, out):
    e = dict(ENV, BET_REPO=repo)
    try:
        subprocess.run([PY, ROOT + "/tools/mut/mexec.py", pid, "%s/%s.sc" % (BASE, pid), out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    except subprocess.TimeoutExpired:
        pass
    return open(out).read().splitlines() if os.path.exists(out) else []


def baseline():
    os.makedirs(BASE, exist_ok=True)
    code = """
import sys, json, random, importlib
sys.path.insert(0, %r)
from harness import core
pid = sys.argv[1]; n = int(sys.argv[2])
mod = importlib.import_module("props." + pid.lower())
core.prepare(getattr(mod, "MPI", "sim"))
if pid == "C08": mod.mpi = lambda a, b: [None] * len(a)
if pid == "C28": mod.reference = lambda f: ["x"] * len(f)
rng = random.Random(17)
sc = [s for s in mod.scenarios("quick", rng) if s.get("what") != "flow"]
rng.shuffle(sc)
with open(sys.argv[3], "w") as f:
    for s in sc[:n]: f.write(json.dumps(s) + "\\n")
""" % ROOT
    pids = sorted({p for v in MAP.values() for p in v})

    def one(p):
        if not os.path.exists("%s/%s.b" % (BASE, p)):
            subprocess.run([PY, "-c", code, p, str(NSC.get(p, 300)), "%s/%s.sc" % (BASE, p)], env=dict(ENV, BET_REPO="/repo"), stdout=subprocess.DEVNULL)
            mexec(p, "/repo", "%s/%s.b" % (BASE, p))
            b2 = mexec(p, "/repo", "%s/%s.b2" % (BASE, p))
            b1 = open("%s/%s.b" % (BASE, p)).read().splitlines()
            print(p, len(b1), "unstable", sum(x != y for x, y in zip(b1, b2)), flush=True)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, pids))
    return {p: (open("%s/%s.sc" % (BASE, p)).read().splitlines(), open("%s/%s.b" % (BASE, p)).read().splitlines(), open("%s/%s.b2" % (BASE, p)).read().splitlines()) for p in pids}


def judge(traces, d):
    """rejected? few traces"""
    from harness import tlc
    v, _ = tlc.judge([{"_json": t, "ev": json.loads(t)["ev"]} for t in traces], shards=1, timeout=120, alone=20)
    return v


def one(m, base):
    src = open("/repo/" + m["file"]).read().encode()
    t = src[:m["a"]] + m["rep"].encode() + src[m["e"]:]
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/bet", w + "/bet", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(w, m["file"]), "wb").write(t)
        r = {k: m[k] for k in ("id", "file", "line", "fn", "kind", "old", "new")}
        r["by"], r["changed"] = "", []
        for p in MAP[m["file"]]:
            sc, b, b2 = base[p]
            g = mexec(p, w, w + "/out")
            if len(g) < len(b):
                r["by"] = p + " no end/import"
                break
            diff = [i for i in range(len(b)) if g[i] != b[i] and b[i] == b2[i]]
            if not diff:
                continue
            if any(g[i].startswith('"fail') for i in diff):
                r["by"] = p + " unrecordable"
                break
            r["changed"].append([p, len(diff)])
            random.Random(1).shuffle(diff)
            try:
                v = judge([g[i] for i in diff[:25]], w)
            except Exception as e:
                r["by"] = p + " judge error " + str(e)[:80]
                break
            if v:
                r["by"] = "%s %s" % (p, sorted({c for x in v for c in x[2]}))
                break
        if not r["by"]:
            tests = TESTS[os.path.basename(m["file"])].split()
            shutil.copytree("/repo/test", w + "/test")
            os.makedirs(w + "/cwd")
            os.symlink(w + "/test", w + "/cwd/test")
            e = dict(ENV, PYTHONPATH=w, OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
            try:
                q = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + w, "--timeout=200", "-W", "ignore", "--randomly-seed=1", "--randomly-dont-reorganize"]
                                   + [w + "/test/" + x for x in tests], cwd=w + "/cwd", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                r["tests"] = "pass" if q.returncode == 0 else "fail " + " ".join(x for x in q.stdout.splitlines() if x.startswith("FAILED"))[:120]
            except subprocess.TimeoutExpired:
                r["tests"] = "timeout"
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ms = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
    random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 5).shuffle(ms)
    base = baseline()
    done = {json.loads(x)["id"] for x in open(out)} if os.path.exists(out) else set()
    ms = [m for m in ms[:n] if m["id"] not in done]
    from harness import core  # noqa
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "5"))) as ex, open(out, "a") as f:
        for r in ex.map(lambda m: one(m, base), ms):
            f.write(json.dumps(r) + "\n")
            f.flush()
