"""Element and vector operations apply the function exactly where asked."""
from nv import gen, ops2

MUT = [ops2.transform_elements, ops2.transform_elements, ops2.axis_transform]
PURE = [ops2.calc_elements, ops2.calc_elements, ops2.match_elements, ops2.count_elements, ops2.axis_calculate,
        ops2.axis_calculate, ops2.axis_matching, ops2.map_reduce]


def scenario(rec, rng, i, tier):
    tab = gen.gen_table(rng, kinds=('int', 'half', 'float', 'bin', 'str', 'miss', 'mixed', 'int'), nr=(1, 4), mr=(1, 4))
    view = rng.random() < .25
    obj = rec.build(rng, tab, gen.TYPES[i % 4], view)
    if obj is None:
        return
    for _ in range(rng.randint(2, 4)):
        rng.choice(PURE if view else MUT + PURE)(rec, rng, obj)
