"""Learners of nimble; filling and normalizing with a learner."""
from nv import gen, multi


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    if r < .35:
        multi.knn(rec, rng, ty)
    elif r < .6:
        multi.linear(rec, rng, ty)
    elif r < .85:
        multi.learn_fill(rec, rng, ty)
    else:
        multi.learn_norm(rec, rng, ty)
