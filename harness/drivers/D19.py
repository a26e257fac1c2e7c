"""D19: item access, views, iteration and names agree with the contents."""
from nv import ops8, gen


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    e = rng.random() < .06
    tab = gen.gen_table(rng, nr=(0 if e else 1, 4), mr=(0 if e and rng.random() < .5 else 1, 4))
    obj = rec.build(rng, tab, ty, view=rng.random() < .3)
    if obj is None:
        return
    for _ in range(4):
        rng.choice([ops8.getitem, ops8.getitem, ops8.views, ops8.iterate, ops8.names])(rec, rng, obj)
