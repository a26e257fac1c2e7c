"""D17: objects of more than two dimensions."""
from nv import dims, gen


def scenario(rec, rng, i, tier):
    dims.scenario(rec, rng, gen.TYPES[i % 4])
