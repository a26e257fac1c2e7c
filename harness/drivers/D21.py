"""D21: what an object prints is what it holds."""
from nv import gen, showing


def scenario(rec, rng, i, tier):
    showing.scenario(rec, rng, gen.TYPES[i % 4])
