"""D16: saving and loading."""
from nv import gen, saving


def scenario(rec, rng, i, tier):
    saving.save_load(rec, rng, gen.TYPES[i % 4])
