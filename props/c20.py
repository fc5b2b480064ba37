"""C20: model error estimates."""
from props import errs
from props.errs import RULE, execute  # noqa: F401

MODELS = [{"module": "MC_ErrorEst", "quick": {"N": 4, "NB": 2}, "thorough": {"N": 4, "NB": 3}}]
ASSUMPTIONS = ["outputs distributed over processes in balanced blocks",
               "an estimate is undefined (reported infinite or not-a-number) when a bin of positive probability has an empty preimage"]


def scenarios(tier, rng):
    out = []
    for i in range(300 if tier == "quick" else 3000):
        s = errs.base(rng, i)
        s["calls"] = errs.calls(rng, s, ["mcontour", "mcontour", "mregion", "mregion", "mregion", "contour"])
        out.append(s)
    return out
