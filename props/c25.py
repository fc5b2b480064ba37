"""C25: marginals."""
from props import post
from props.post import MODELS, execute  # noqa: F401

RULE = ("1-10 samples in 1-3 dimensions on bin edges, domain faces, outside and inside, scalar and per-dimension numbers of bins, "
        "sets, discretizations and emulated sets, global, local and both views on 1-5 processes; smoothing of peaked and spread "
        "marginals with bandwidths per axis from far below a bin to an eighth of the domain, odd and even numbers of bins; drawn "
        "curves and images; distinct by full trace")
ASSUMPTIONS = ["bandwidth at most an eighth of the domain (the kernel is truncated at half the domain)", "smoothed marginals have total one",
               "positions on the axes of figures are not judged"]


def scenarios(tier, rng):
    out = []
    for i in range(400 if tier == "quick" else 4000):
        k = i % 20
        out.append(post.draw(rng, i) if k == 0 else post.smooth(rng, i) if k < 7 else post.marg(rng, i))
    return out
