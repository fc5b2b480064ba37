"""C24: samples of highest and lowest probability."""
from props import post
from props.post import MODELS, execute  # noqa: F401

RULE = ("sets and discretizations (with and without volumes and outputs) of 1-9 samples with dyadic probabilities, zeros, equal "
        "densities and cells without volume; sorting, highest and lowest selections at every reachable percentile, with and "
        "without sorting; distinct by full trace")
ASSUMPTIONS = ["dyadic probabilities, so that sums are exact", "the order among equal densities is not specified"]


def scenarios(tier, rng):
    return [post.select(rng, i) for i in range(500 if tier == "quick" else 5000)]
