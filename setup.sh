#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the code under
# test is imported from /repo. Parse every specification and import every driver.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
cd spec
for f in Trace.tla MC_*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/betv_sany.$$ 2>&1 || { cat /tmp/betv_sany.$$; rm -f /tmp/betv_sany.$$; exit 1; }
  if grep -qiE "(\*\*\* Errors|Could not parse|Semantic error)" /tmp/betv_sany.$$; then cat /tmp/betv_sany.$$; rm -f /tmp/betv_sany.$$; exit 1; fi
done
rm -f /tmp/betv_sany.$$
cd ..
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import glob, ast
for f in glob.glob("props/*.py") + glob.glob("harness/*.py"):
    ast.parse(open(f).read(), f)
print("setup ok")
P
