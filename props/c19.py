"""C19: sampling error bounds."""
from props import errs
from props.errs import RULE, execute  # noqa: F401

MODELS = [{"module": "MC_ErrorEst", "quick": {"N": 4, "NB": 2}, "thorough": {"N": 4, "NB": 3}},
          {"module": "MC_ErrorEst", "quick": {"Rule": '"ranks"', "NB": 2}, "violates": "True"}]
ASSUMPTIONS = ["samples in general position (no d+2 on a sphere), so that the triangulation is unique",
               "bounds of bins whose inner cells have no volume at all are not judged"]


def scenarios(tier, rng):
    out = []
    for i in range(260 if tier == "quick" else 2500):
        s = errs.base(rng, i)
        s["calls"] = errs.calls(rng, s, ["conn", "contour", "contour", "region", "region", "mcontour"])
        out.append(s)
    return out
