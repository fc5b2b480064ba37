#!/usr/bin/env python3
"""tools/seedtest.py [-n] ID...: confirm planted bugs in scratch copies of /repo.
Per bug: patch applies, builds, stable tests pass, demo 0 without / nonzero with, and which check catches it."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def one(bid, notests):
    d = os.path.join(ROOT, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_%s_" % bid, dir="/tmp")
    out = [bid, meta["property"]]
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q ." % (w, w))
        demo = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
        sh("cp -a %s/. %s && rm -f %s/*.diff %s/meta.json" % (d, demo, demo, demo))
        rc0, o0 = sh("bash %s/demo.sh" % demo, cwd=w, timeout=300)
        rc, o = sh("git apply %s/patch.diff" % d, cwd=w)
        out.append("applies" if rc == 0 else "NOAPPLY " + o[:200])
        rc1, o1 = sh("bash %s/demo.sh" % demo, cwd=w, timeout=300)
        out.append("demo %d/%d%s" % (rc0, rc1, "" if rc0 == 0 and rc1 else " BAD " + o0[-600:] + " ## " + o1[-300:]))
        if not notests:
            sc = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/work", w + "/_work")
            open(w + "/_test.sh", "w").write(sc)
            sh("bash _test.sh %s/_t.json" % w, cwd=w)
            t = json.load(open(w + "/_t.json"))
            passed = set(t.get("passed", []))
            want = set(STABLE.get("stable", STABLE.get("passed", [])))
            lost = want - passed
            out.append("tests ok" if not lost and want else "TESTS LOST %d %s" % (len(lost), sorted(lost)[:3]))
        rc, o = sh("./check.py %s" % meta["property"], cwd=ROOT, env={"BET_REPO": w})
        m = re.search(r"failing clauses: .*", o)
        out.append("check exit %d %s" % (rc, m.group(0)[:150] if m else o[-200:]))
    finally:
        shutil.rmtree(w); shutil.rmtree(demo)
    return " | ".join(out)


if __name__ == "__main__":
    a = sys.argv[1:]
    nt = "-n" in a
    a = [x for x in a if x != "-n"] or sorted(os.listdir(ROOT + "/seeded"))
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: one(b, nt), a):
            print(r, flush=True)
