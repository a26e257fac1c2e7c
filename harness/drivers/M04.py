"""Performance functions, confusion matrices, intervals."""
from nv import gen, ops9


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    if r < .5:
        ops9.score(rec, rng, ty)
    elif r < .78:
        ops9.confusion(rec, rng, ty)
    elif r < .88:
        ops9.decorated(rec, rng, ty)
    elif r < .99:
        ops9.interval(rec, rng, ty)
    else:
        ops9.detect(rec, rng, ty)
