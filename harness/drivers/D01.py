"""Names are a bijection with positions and travel with their data."""
from nv import gen, ops


def scenario(rec, rng, i, tier):
    tab = gen.gen_table(rng, nr=(1, 4), mr=(1, 4))
    obj = rec.build(rng, tab, gen.TYPES[i % 4])
    if obj is None:
        return
    for _ in range(rng.randint(3, 7)):
        n, m = len(obj.points), len(obj.features)
        if n == 0 or m == 0 or n * m > 40:
            break
        f = rng.choice([ops.set_names] * 3 + [ops.permute, ops.structural, ops.structural, ops.sort, ops.insert,
                                             ops.insert, ops.repeat, ops.transpose])
        r = f(rec, rng, obj)
        if r is not None and hasattr(r, 'points') and rng.random() < .4:
            obj = r
