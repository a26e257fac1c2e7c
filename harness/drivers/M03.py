"""Strategies for many classes."""
from nv import gen, multi


def scenario(rec, rng, i, tier):
    multi.multi(rec, rng, gen.TYPES[i % 4])
