"""fillMatching changes exactly the matching cells, to the value of the fill."""
from nv import gen, ops2


def scenario(rec, rng, i, tier):
    tab = gen.gen_table(rng, kinds=('int', 'half', 'bin', 'str', 'miss', 'miss', 'mixnb'), nr=(1, 5), mr=(1, 4))
    obj = rec.build(rng, tab, gen.TYPES[i % 4])
    if obj is None:
        return
    for _ in range(rng.randint(2, 3)):
        ops2.do_fill(rec, rng, obj)
