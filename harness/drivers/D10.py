"""Arithmetic and logic between objects, scalars and stretched objects."""
from nv import gen, ops3


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    k = rng.random()
    if k < .3:
        shape = dict(nr=(1, 1), mr=(1, 4)) if rng.random() < .5 else dict(nr=(1, 4), mr=(1, 1))
        logic = rng.random() < .2
        tab = gen.gen_table(rng, kinds=('bin', 'bool') if logic else ('int', 'half', 'float', 'miss', 'pos', 'none'), **shape)
        obj = rec.build(rng, tab, ty, view=rng.random() < .15)
        if obj is not None:
            for _ in range(2):
                ops3.stretch(rec, rng, obj, logic)
        return
    if k < .42:
        tab = gen.gen_table(rng, kinds=('bin', 'bin', 'bool', 'int', 'miss'), nr=(1, 3), mr=(1, 3))
        obj = rec.build(rng, tab, ty, view=rng.random() < .15)
        if obj is not None:
            ops3.unary(rec, rng, obj, ('inv',))
            for _ in range(2):
                ops3.logical(rec, rng, obj)
        return
    if k < .56:
        n = rng.randint(1, 3)
        sq = rng.random() < .4
        tab = gen.gen_table(rng, kinds=('int', 'half', 'float', 'bin'), nr=(n, n), mr=(n, n) if sq else (1, 3))
        obj = rec.build(rng, tab, ty, view=rng.random() < .15)
        if obj is not None:
            ops3.matpow(rec, rng, obj)
            ops3.matmul(rec, rng, obj)
        return
    tab = gen.gen_table(rng, kinds=('int', 'half', 'float', 'miss', 'pos', 'none', 'int', 'str', 'mixnb'), nr=(1, 4), mr=(1, 4))
    view = rng.random() < .2
    obj = rec.build(rng, tab, ty, view=view)
    if obj is None:
        return
    for _ in range(2):
        r = rng.choice([ops3.bin_scalar, ops3.bin_table, ops3.bin_table, ops3.unary])(rec, rng, obj)
        # results share nothing with their operands
        if r is not None and hasattr(r, 'points') and rng.random() < .5:
            was = ops3.enc.table(obj)
            r.points.append(r.copy().points.copy(0), useLog=False) if not any(r.points.getNames()) else r.points.delete(0, useLog=False)
            if len(r.points) and len(r.features) and ty != 'x':
                r.features.setNames(None, useLog=False)
            ops3.frame(rec, obj, was)
