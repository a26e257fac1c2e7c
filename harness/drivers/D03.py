"""Insert, append and replace put exactly the given data where asked."""
from nv import gen, ops, ops2

OPS = [ops.insert, ops.insert, ops2.replace, ops2.replace, ops2.rect, ops2.rect, ops2.setitem, ops2.setitems, ops2.setitems]


def scenario(rec, rng, i, tier):
    tab = gen.gen_table(rng, nr=(1, 4), mr=(1, 4))
    obj = rec.build(rng, tab, gen.TYPES[i % 4])
    if obj is None:
        return
    for _ in range(rng.randint(2, 5)):
        if len(obj.points) * len(obj.features) > 40:
            break
        rng.choice(OPS)(rec, rng, obj)
