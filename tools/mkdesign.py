"""DESIGN.md from design/, the drivers, the evidence of the last runs and the catch record of planted bugs."""
import importlib, json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "design"))
from method import M
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "design/intro.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    m = importlib.import_module("props." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), "", M[p["id"]], ""]
    mods = []
    for x in m.MODELS:
        c = " ".join("%s=%s" % kv for kv in sorted(x.get("quick", {}).items()))
        t = " ".join("%s=%s" % kv for kv in sorted(x.get("thorough", {}).items()))
        mods.append("`%s`(%s%s)%s" % (x["module"], c, "; thorough " + t if t and t != c else "", " must violate " + x["violates"] if x.get("violates") else ""))
    out.append("* Models: " + ", ".join(mods) + ".")
    out.append("* Behaviours of the code: " + m.RULE + ".")
    out.append("* Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    try:
        r = json.load(open(os.path.join(ROOT, "design/costs.json")))[p["id"]]
        out.append("* Cost of a quick run: %s." % r)
    except Exception:
        pass
    out.append("")
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
fixes = "\n".join("* " + x[len("fixed: "):] for x in kf["fixed"])
out.append(open(os.path.join(ROOT, "design/after.md")).read().replace("@FIXES@", fixes).rstrip())
out += ["", "## Planted bugs and the checks that catch them", "",
        "Each change passes the existing tests; its demonstration fails with it and passes without it. Caught: the property's own quick check.", "",
        "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
cat = {}
if os.path.exists(os.path.join(ROOT, "design/caught.json")):
    cat = json.load(open(os.path.join(ROOT, "design/caught.json")))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    k = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"].replace("|", "/"), cat.get(k, "not run")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
