"""Selections: copy/extract/delete/retain/count partition an axis."""
from nv import gen, ops


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    distinct = rng.random() < .15
    tab = gen.gen_table(rng, nr=(1, 5), mr=(1, 4), distinct=distinct)
    view = rng.random() < .2
    obj = rec.build(rng, tab, ty, view)
    if obj is None:
        return
    for _ in range(rng.randint(2, 4)):
        if len(obj.points) == 0 or len(obj.features) == 0:
            break
        if view:
            r = ops.structural(rec, rng, obj, ops=('copy', 'count'))
        elif distinct and rng.random() < .6:
            r = ops.structural_random(rec, rng, obj)
        else:
            r = ops.structural(rec, rng, obj)
        # keep working on what was handed back as well
        if r is not None and hasattr(r, 'points') and not view and rng.random() < .4:
            obj = r
