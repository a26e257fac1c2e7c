"""Statistics, similarities and linear algebra."""
from nv import gen, ops7


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    (ops7.stat if r < .4 else ops7.statby if r < .52 else ops7.similar if r < .68 else ops7.linalg if r < .85 else ops7.report)(rec, rng, ty)
