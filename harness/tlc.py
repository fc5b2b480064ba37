"""Running TLC: model checking runs and trace judging."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _java(args, cwd, env=None, timeout=800, heap="3g"):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    tmp = os.path.join(cwd, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC"] + args
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def scratch(prefix):
    return tempfile.mkdtemp(prefix="betv_%s_" % prefix)


class MC(object):
    """one exhaustive model-checking run, started in the background"""

    def __init__(self, module, cfg, consts=None, workers=2, timeout=600, heap="3g", extra=()):
        self.module, self.cfg = module, cfg
        self.dir = scratch("mc")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.dir, f))
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (k, cfg))
        open(os.path.join(self.dir, "run.cfg"), "w").write(text)
        self.t0 = time.time()
        self.timeout = timeout
        self.out = open(os.path.join(self.dir, "out.txt"), "w+")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        tmp = os.path.join(self.dir, "tmp")
        os.makedirs(tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-deadlock", "-config", "run.cfg"] + list(extra) + [module + ".tla"]
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=self.out, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise MachineryError("TLC on %s did not finish in %ss" % (self.module, self.timeout))
        self.out.seek(0)
        text = self.out.read()
        self.out.close()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text)
        res = {"module": self.module, "wall_s": round(time.time() - self.t0, 1)}
        lines = [l for l in text.splitlines() if l.startswith('"EDGE ')]
        res["edges"] = [json.loads(json.loads(l)[5:]) for l in lines]
        if m:
            res["states"] = int(m.group(2))
            res["transitions"] = int(m.group(1))
        ok = "Model checking completed. No error has been found." in text
        v = re.search(r"(?:Invariant (\w+) is violated|property (\w+) was violated)", text)
        res["violated"] = (v.group(1) or v.group(2)) if v else ""
        res["ok"] = ok
        if not ok:
            res["text"] = "\n".join(l for l in text.splitlines() if not l.startswith('"EDGE '))[-6000:]
        shutil.rmtree(self.dir, ignore_errors=True)
        return res


def judge(traces, module="Trace", shards=4, timeout=300, alone=60):
    """Judge traces with the trace specification.

    Returns (verdicts, stats): verdicts is a list of (trace index, event
    index, [clauses]); stats counts the states and transitions of the runs.
    """
    if not traces:
        return [], {"states": 0, "transitions": 0, "consumed": 0}
    shards = max(1, min(shards, len(traces)))
    # balance by size
    sized = sorted(range(len(traces)), key=lambda i: -len(traces[i]["_json"]))
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for i in sized:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += len(traces[i]["_json"]) + 200
    runs = []
    for b in bins:
        d = scratch("tr")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        shutil.copy(os.path.join(SPEC, "Trace.cfg"), os.path.join(d, "run.cfg"))
        with open(os.path.join(d, "traces.ndjson"), "w") as f:
            for i in b:
                f.write(traces[i]["_json"] + "\n")
        out = open(os.path.join(d, "out.txt"), "w+")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["TRACE_FILE"] = os.path.join(d, "traces.ndjson")
        os.makedirs(os.path.join(d, "tmp"))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx3g",
               "-Djava.io.tmpdir=" + os.path.join(d, "tmp"), "-cp", JARS, "tlc2.TLC",
               "-workers", "2", "-deadlock", "-config", "run.cfg", module + ".tla"]
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT)
        runs.append((b, d, out, p))
    verdicts, states, trans, consumed = [], 0, 0, 0
    t_end = time.time() + timeout
    failed, slow = [], []
    for b, d, out, p in runs:
        try:
            p.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            slow.append(b)
            out.close()
            shutil.rmtree(d, ignore_errors=True)
            continue
        out.seek(0)
        text = out.read()
        out.close()
        for line in text.splitlines():
            if line.startswith('"VERDICT '):
                t, l, cl = json.loads(json.loads(line)[8:])
                verdicts.append((b[t - 1], l - 1, sorted(cl)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text)
        m2 = re.search(r'"CONSUMED (\d+)"', text)
        if "Model checking completed. No error has been found." not in text or not m:
            failed.append((b, text))
        else:
            trans += int(m.group(1))
            states += int(m.group(2))
            consumed += len(b)
        shutil.rmtree(d, ignore_errors=True)
    for b in slow:
        # TLC can take forever to report an evaluation error: look for the
        # recording it cannot evaluate in smaller pieces
        if len(b) == 1:
            verdicts.append((b[0], 0, ["unjudgeable"]))
            continue
        vs, st = judge([traces[i] for i in b], module, 8, alone, alone)
        verdicts += [(b[v[0]], v[1], v[2]) for v in vs]
        states, trans, consumed = states + st["states"], trans + st["transitions"], consumed + st["consumed"]
        if any(v[2] == ["unjudgeable"] for v in vs):
            break
    if failed:
        # some recording is outside what the specification can even evaluate:
        # find one such recording (its values are nothing the spec allows)
        b, text = failed[0]
        if len(b) == 1:
            if "Parsing or semantic analysis failed" in text or "Starting..." not in text:
                raise MachineryError("TLC could not judge a trace:\n" + text[-5000:])
            verdicts.append((b[0], 0, ["unjudgeable"]))
            if os.environ.get("VERIF_DEBUG"):
                print(text[-3000:])
        else:
            h = len(b) // 2
            for half in (b[:h], b[h:]):
                vs, st = judge([traces[i] for i in half], module, 1, timeout, alone)
                verdicts += [(half[v[0]], v[1], v[2]) for v in vs]
                if any(v[2] == ["unjudgeable"] for v in vs):
                    break
    return sorted(verdicts), {"states": states, "transitions": trans, "consumed": consumed}
