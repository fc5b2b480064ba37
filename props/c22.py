"""C22: radial basis gradients and random clusters."""
from props import grads
from props.grads import MODELS, RULE, execute  # noqa: F401

ASSUMPTIONS = ["clusters are far apart and distances within a cluster differ, so that nearest samples are unambiguous",
               "fixed-point arithmetic with tolerance 0.0015 per unit of coefficient"]


def scenarios(tier, rng):
    out = []
    for i in range(500 if tier == "quick" else 5000):
        k = i % 10
        s = grads.rbfbad(rng) if k == 0 else grads.kern(rng) if k < 3 else grads.ball(rng) if k < 5 else grads.rbf(rng)
        s["seed"], s["R"] = i, rng.choice([1, 1, 1, 2])
        out.append(s)
    return out
