"""D14: equality and conversion."""
from nv import ops8, gen


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    if rng.random() < .45:
        ops8.equality(rec, rng, ty)
        return
    tab = gen.gen_table(rng, nr=(0 if rng.random() < .1 else 1, 4), mr=(0 if rng.random() < .1 else 1, 4))
    obj = rec.build(rng, tab, ty, view=rng.random() < .3)
    if obj is None:
        return
    for _ in range(3):
        ops8.conversions(rec, rng, obj, gen.sparseable(tab))
