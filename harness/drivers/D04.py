"""merge joins two objects like a relational join."""
from nv import gen, ops, ops4


def scenario(rec, rng, i, tier):
    a = ops4.merge(rec, rng, gen.TYPES[i % 4])
    if a is not None and len(a.points) and len(a.features) and rng.random() < .3:
        ops.structural(rec, rng, a)
