"""Grouping, counting and splitting of points."""
from nv import gen, ops, ops6


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    r = rng.random()
    if r < .12:
        obj = rec.build(rng, gen.gen_table(rng, kinds=('bin', 'miss', 'str', 'int')), ty)
        if obj is not None:
            ops.unique(rec, rng, obj)
            ops.structural(rec, rng, obj)
        return
    obj = (ops6.group if r < .45 else ops6.counts if r < .65 else ops6.split)(rec, rng, ty)
    if obj is not None and rng.random() < .3 and len(obj.points) and len(obj.features):
        ops.structural(rec, rng, obj)
