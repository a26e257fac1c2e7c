"""Reshaping operations rearrange cells exactly and undo each other."""
from nv import gen, ops, ops5


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    if r < .45:
        ops5.reshape(rec, rng, ty)
        return
    obj = (ops5.gather if r < .72 else ops5.spread)(rec, rng, ty)
    if obj is not None and rng.random() < .4 and len(obj.points) and len(obj.features):
        ops.structural(rec, rng, obj)
