"""Merging."""
from . import enc, gen
from .ops3 import frame

nan = gen.nan
KEYS = {'int': [0, 1, 2, 3, 4, 5], 'str': ['k0', 'k1', 'k2', 'k3', 'k4'], 'neg': [-2, -1, 0, 1, 2]}


def merge_pair(rng, ty1, ty2):
    """two tables drawn from one world, so that shared cells mostly agree"""
    sparse = 'Sparse' in (ty1, ty2)
    kk = rng.choice(['int', 'neg'] if sparse else ['int', 'str', 'neg'])
    keys = KEYS[kk]
    fts = rng.sample(gen.FN, 5)
    kinds = {}
    for f in fts:
        kinds[f] = rng.choice(['int', 'half', 'miss', 'pos'] if sparse else ['int', 'str', 'half', 'miss'])
    on = rng.random() < .55
    keyname = 'id' if on else None
    world = {}
    pnames = rng.sample(gen.PN, len(keys))
    for i, k in enumerate(keys):
        world[i] = {f: gen.value(rng, kinds[f]) for f in fts}
    conflicts = rng.random() < .12
    if not sparse and on and rng.random() < .12:
        keys = [rng.choice([0, 1, 'k0', 'k1']) if rng.random() < .3 else k for k in keys]
        keys = [k if keys.index(k) == i else 'u%d' % i for i, k in enumerate(keys)]
    apart = not sparse and on and rng.random() < .06

    def table(uniq, other=False):
        n = rng.randint(1, 4)
        rows = [rng.randrange(len(keys)) for _ in range(n)] if not uniq else rng.sample(range(len(keys)), min(n, len(keys)))
        cols = rng.sample(fts, rng.randint(0 if on else 1, 3))
        names = list(cols)
        d = []
        for r in rows:
            row = []
            for f in cols:
                v = world[r][f]
                if rng.random() < .12:
                    v = nan
                if conflicts and rng.random() < .2:
                    v = gen.value(rng, kinds[f])
                row.append(v)
            d.append(row)
        if on:
            j = rng.randint(0, len(cols))
            names.insert(j, keyname)
            for row, r in zip(d, rows):
                row.insert(j, keys[r] if not (other and apart) else 10 + r if isinstance(keys[r], str) else 'o%d' % r)
        # an unnamed feature is distinct from every other one
        if rng.random() < .12 and len(names) > 1:
            c = [i for i, x in enumerate(names) if x != keyname]
            names[rng.choice(c)] = None
        if rng.random() < .03:
            names = [None] * len(names)
        if on:
            pn = gen.gen_names(rng, gen.PN, len(rows))
        else:
            pn = [pnames[r] for r in rows] if uniq else gen.gen_names(rng, gen.PN, len(rows))
            if rng.random() < .2:
                pn = [x if rng.random() < .6 else None for x in pn]
            if rng.random() < .06:
                pn = [None] * len(pn)
        return gen.Tab(d, len(names), pn, names)
    u1 = rng.random() < .75
    return table(True if not on else u1), table(True if not on else (not u1 or rng.random() < .6), True), keyname


def strict_pair(rng, ty1, ty2):
    """two tables with the same points (or features) in some order"""
    sparse = 'Sparse' in (ty1, ty2)
    n = rng.randint(1, 4)
    kind = rng.choice(['int', 'half', 'miss'] if sparse else ['int', 'str', 'miss', 'half'])
    axis = rng.choice('pf')
    ids = rng.sample(gen.PN, n)
    perm = rng.sample(range(n), n) if rng.random() < .6 else list(range(n))
    m1, m2 = rng.randint(1, 3), rng.randint(1, 3)
    pool = rng.sample(gen.FN, 4)
    w = {(i, f): gen.value(rng, kind) for i in range(n) for f in pool}

    def one(order, m):
        off = rng.sample(pool, m)
        d = [[w[i, f] if rng.random() > .1 else nan if kind != 'str' else w[i, f] for f in off] for i in order]
        nm = [ids[i] for i in order]
        r = rng.random()
        if r < .15:
            nm = [None] * n
        elif r < .3:
            nm = [x if rng.random() < .5 else None for x in nm]
        elif r < .33:
            nm[0] = 'other'
        if rng.random() < .1:
            off = [x if rng.random() < .6 else None for x in off]
        t = gen.Tab(d, m, nm, off)
        return t
    a, b = one(list(range(n)), m1), one(perm, m2)
    if rng.random() < .05 and n > 1:
        b = gen.Tab(b.d[:-1], b.m, b.pn[:-1], b.fn)
    if axis == 'f':
        a, b = a.T(), b.T()
    return a, b, axis


def merge(rec, rng, ty):
    ty2 = rng.choice(gen.TYPES)
    if rng.random() < .3:
        ta, tb, ax = strict_pair(rng, ty, ty2)
        o = {"point": 'strict' if ax == 'p' else rng.choice(['left', 'union', 'intersection']),
             "feature": 'strict' if ax == 'f' else rng.choice(['left', 'union', 'intersection'])}
        key = None
        on = None
    else:
        ta, tb, key = merge_pair(rng, ty, ty2)
        o = {"point": rng.choice(['left', 'union', 'intersection']), "feature": rng.choice(['left', 'union', 'intersection'])}
        if rng.random() < .15:
            o[rng.choice(['point', 'feature'])] = 'strict'
        on = key
    if ty2 == 'Sparse' and not gen.sparseable(tb):
        ty2 = 'Matrix'
    if ty == 'Sparse' and not (gen.sparseable(ta) and gen.sparseable(tb)):
        ty = 'List'
    a = rec.build(rng, ta, ty)
    b = rec.build(rng, tb, ty2, view=rng.random() < .15)
    if a is None or b is None:
        return None
    if on is None:
        oj = ["none"]
    else:
        k = a.features.getIndex(on) if on in a.features.getNames() else 0
        r = rng.random()
        if r < .15:
            oj, on = ["i", k], k
        elif r < .18:
            oj, on = ["s", "absent"], "absent"
        else:
            oj = ["s", on]
    o["on"], o["force"] = oj, rng.random() < .5
    was = enc.table(b)
    o["u"] = was
    r = rec.call('merge', o, a, lambda: a.merge(b, point=o["point"], feature=o["feature"], onFeature=on, force=o["force"], useLog=False),
                 how=rng.randint(0, 1))
    frame(rec, b, was)
    return a
