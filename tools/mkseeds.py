#!/usr/bin/env python3
"""Regenerate seeded/<id>/ from tools/seeds/*.py against /repo's HEAD.
Each file defines SEEDS: list of dict(id, property, file, edits=[(old, new[, count])], needs, breaks, demo[, mpi])."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work"
'''


def main():
    only = set(sys.argv[1:])
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q .; git add -A; "
                          "git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
    for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            if only and s["id"] not in only:
                continue
            for e in s["edits"]:
                p = os.path.join(w, e[0])
                t = open(p).read()
                n = e[3] if len(e) > 3 else 1
                if t.count(e[1]) != n:
                    sys.exit("%s: %d occurrences of %r" % (s["id"], t.count(e[1]), e[1]))
                open(p, "w").write(t.replace(e[1], e[2]))
            diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
            subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
            d = os.path.join(ROOT, "seeded", s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            py = "/opt/venv/bin/python"
            if s.get("mpi"):
                cmd = ('export OMPI_MCA_plm=isolated OMPI_MCA_rmaps_base_oversubscribe=1\n'
                       'timeout 120 mpiexec -n %d %s "$here/demo.py"\n' % (s["mpi"], py))
            else:
                cmd = 'timeout 250 %s "$here/demo.py"\n' % py
            open(d + "/demo.sh", "w").write(HEAD + cmd)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)


main()
