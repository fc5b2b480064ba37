"""C21: finite-difference gradients."""
from props import grads
from props.grads import MODELS, RULE, execute  # noqa: F401

ASSUMPTIONS = ["clusters made by the stencil functions, one radius per coordinate for all centres", "finite model outputs"]


def scenarios(tier, rng):
    out = []
    for i in range(600 if tier == "quick" else 6000):
        s = (grads.fd if i % 3 else grads.stencil)(rng)
        s["seed"], s["R"] = i, rng.choice([1, 1, 1, 2])
        out.append(s)
    return out
