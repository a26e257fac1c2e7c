"""One-hot, integer and parsing encodings of a feature."""
from nv import gen, ops, ops5


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    obj = (ops5.onehot if r < .4 else ops5.intcode if r < .7 else ops5.parse)(rec, rng, ty)
    if obj is not None and rng.random() < .4 and len(obj.points) and len(obj.features):
        ops.structural(rec, rng, obj)
