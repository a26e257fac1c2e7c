"""D11: match functions and query strings."""
from nv import ops8, gen


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    for _ in range(3):
        if r < .3:
            ops8.match(rec, rng, ty)
        elif r < .5:
            ops8.query_value(rec, rng, ty)
        else:
            ops8.query_axis(rec, rng, ty)
