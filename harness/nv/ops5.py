"""Flatten/unflatten, gather/spread, parsing and encoding of features."""
from . import enc, gen, ops

nan = gen.nan


def js(ns):
    return ["" if x is None else x for x in ns]


def flatten(rec, rng, obj):
    if len(obj.points) * len(obj.features) == 0:
        return
    ops.flatten(rec, rng, obj)


def unflatten(rec, rng, obj, dims=None, order=None):
    n, m = len(obj.points), len(obj.features)
    k = n * m
    if k < 2:
        return
    if dims is None:
        div = [d for d in range(1, k + 1) if k % d == 0]
        a = rng.choice(div)
        dims = (a, k // a)
        if rng.random() < .07:
            dims = (a, k // a + 1)
    order = order or rng.choice(['point', 'feature'])
    names = (obj.points if n > 1 else obj.features).getNames()
    parts = [x.split(' | ') if x is not None else [] for x in names]
    if any(len(p) != 2 for p in parts):
        parts = []
    a = {"dims": list(dims), "order": order, "parts": parts}
    arg = dims if rng.random() < .5 else list(dims)
    rec.call('unflatten', a, obj, lambda: obj.unflatten(arg, order, useLog=False), how=rng.randint(0, 1))


def reshape(rec, rng, ty):
    r = rng.random()
    if r < .6:
        t = gen.gen_table(rng, nr=(1, 4), mr=(1, 4))
        obj = rec.build(rng, t, ty)
        if obj is None:
            return
        n, m = len(obj.points), len(obj.features)
        o = rng.choice(['point', 'feature'])
        rec.call('flatten', {"order": o}, obj, lambda: obj.flatten(o, useLog=False), how=rng.randint(0, 1))
        if rng.random() < .4:
            ops.transpose(rec, rng, obj)
        if len(obj.points) == 1 or len(obj.features) == 1:
            if rng.random() < .6:
                unflatten(rec, rng, obj, (n, m), o)
            else:
                unflatten(rec, rng, obj)
        if rng.random() < .3:
            ops.transpose(rec, rng, obj)
    else:
        k = rng.choice([1, 2, 3, 4, 4, 6, 6])
        t = gen.gen_table(rng, nr=(1, 1), mr=(k, k)) if rng.random() < .9 else gen.gen_table(rng, nr=(2, 2), mr=(k, k))
        if rng.random() < .4:
            a = rng.choice([d for d in range(1, k + 1) if k % d == 0])
            b = k // a
            P, F = rng.sample(gen.PN, a), rng.sample(gen.FN, b)
            nm = ['%s | %s' % (p, f) for p in P for f in F]
            if rng.random() < .3:
                rng.shuffle(nm)
            if t.m == k:
                t.fn = nm
        if rng.random() < .5:
            t = t.T()
        obj = rec.build(rng, t, ty)
        if obj is not None:
            unflatten(rec, rng, obj)


def fid(rng, obj, k):
    return ops.id_of(rng, obj.features.getNames(), k)


def gather(rec, rng, ty):
    kinds = ('int', 'half', 'float', 'miss') if ty == 'Sparse' else ('int', 'half', 'str', 'mixnb', 'miss')
    t = gen.gen_table(rng, kinds=kinds, nr=(1, 3), mr=(1, 4), fmode='none' if ty == 'Sparse' else None)
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    m = t.m
    k = rng.randint(1, m)
    idx = rng.sample(range(m), k)
    prs = [fid(rng, obj, i) for i in idx]
    if rng.random() < .05:
        prs[-1] = ops.one_id(rng, t.fn, bad=1)
    names = rng.choice([('names', 'values'), ('month', 'temp'), ('1', '0')])
    if rng.random() < .12:
        c = [x for x in t.fn if x is not None]
        names = (rng.choice(c), 'values') if c and rng.random() < .7 else ('same', 'same')
    a = {"ids": [p[0] for p in prs], "nn": names[0], "vn": names[1]}
    rec.call('gather', a, obj, lambda: obj.points.splitByCollapsingFeatures([p[1] for p in prs], names[0], names[1], useLog=False),
             how=rng.randint(0, 1))
    return obj


def spread(rec, rng, ty):
    sp = ty == 'Sparse'
    nk = rng.randint(0, 2)
    nv = rng.choice([1, 1, 1, 2])
    labs = [0, 1, 2, 3] if sp or rng.random() < .3 else ['a', 'b', 'c', 'f0']
    vk = rng.choice(['int', 'half']) if labs[0] != 0 else 'int'
    npt = rng.randint(1, 4)
    seen, rows = set(), []
    for _ in range(npt):
        key = [rng.choice([0, 1, 2]) for _ in range(nk)]
        lab = rng.choice(labs)
        if (tuple(key), lab) in seen and rng.random() < .8:
            continue
        seen.add((tuple(key), lab))
        rows.append((key, lab, [gen.value(rng, vk) for _ in range(nv)]))
    cols = ['k%d' % i for i in range(nk)] + ['N'] + ['v%d' % i for i in range(nv)]
    order = rng.sample(range(len(cols)), len(cols))
    d = []
    for key, lab, val in rows:
        full = key + [lab] + val
        d.append([full[i] for i in order])
    kinds = [cols[i] for i in order]
    mode = rng.choice(['all', 'none', 'some'])
    pool = rng.sample([x for x in gen.FN if x != 'f0' or rng.random() < .3], len(cols))
    fn = [None] * len(cols) if mode == 'none' else [x if mode == 'all' or rng.random() < .5 else None for x in pool]
    t = gen.Tab(d, len(cols), gen.gen_names(rng, gen.PN, len(d)), fn)
    provs = [p for p in gen.PROV if p not in (gen.p_numpy, gen.p_sort, gen.p_coo)]
    obj = rec.build(rng, t, ty, prov=rng.choice(provs))
    if obj is None:
        return
    if obj.getTypeString() in ('Matrix', 'Sparse') and labs[0] == 0:
        # a number is named as it is stored
        if any(isinstance(v, float) for r in obj.copy('python list') for v in r):
            return
    if labs[0] == 0 and any(not isinstance(r[kinds.index('N')], int) for r in obj.copy('python list')):
        return
    nid = fid(rng, obj, kinds.index('N'))
    vids = [fid(rng, obj, kinds.index('v%d' % i)) for i in range(nv)]
    if rng.random() < .4:
        vids.reverse()
    if rng.random() < .04:
        vids[0] = ops.one_id(rng, fn, bad=1)
    suf = []
    for j, p in vids:
        if isinstance(p, str):
            suf.append(p)
        else:
            nm = fn[p] if -len(fn) <= p < len(fn) else None
            suf.append(nm if nm is not None else str(int(p)))
    arg = vids[0][1] if nv == 1 and rng.random() < .5 else [v[1] for v in vids]
    a = {"nid": nid[0], "vids": [v[0] for v in vids], "suf": suf}
    rec.call('spread', a, obj, lambda: obj.points.combineByExpandingFeatures(nid[1], arg, useLog=False), how=rng.randint(0, 1))
    return obj


def parse(rec, rng, ty):
    if ty == 'Sparse':
        ty = 'List'
    n, m = rng.randint(1, 3), rng.randint(1, 3)
    x = rng.randrange(m)
    mode = rng.choice(['sep', 'int', 'list', 'fn', 'listint'])
    k = 2 if mode in ('int', 'fn') else rng.choice([2, 3])
    d, parts = [], []
    for _ in range(n):
        bits = [rng.choice(['ab', 'cd', 'x', 'yy', '7']) for _ in range(k)]
        if mode == 'sep' and rng.random() < .06:
            bits.append('z')
        if mode == 'sep':
            v = '-'.join(bits)
            exp = bits
        elif mode == 'int':
            v = 'abcdef'[rng.randint(0, 2):]
            exp = [v[:2], v[2:]]
        elif mode == 'fn':
            v = rng.choice(['hello', 'q', 'zz'])
            exp = [v[::-1], len(v)]
        elif mode == 'listint':
            v = rng.choice(['abcdefg', 'qrstuv'])
            exp = [v[0:1], v[1:4], v[4:]] if k == 3 else [v[:3], v[3:]]
        else:
            v = bits[0] + '-' + bits[1] + (':' + bits[2] if k == 3 else '')
            exp = bits
        row = [gen.value(rng, 'half') for _ in range(m)]
        row[x] = v
        d.append(row)
        parts.append([enc.cell(e) for e in exp])
    t = gen.Tab(d, m, gen.gen_names(rng, gen.PN, n), gen.gen_names(rng, gen.FN, m))
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    rule = {'sep': '-', 'int': 2, 'fn': lambda v: [v[::-1], len(v)],
            'listint': [1, 4] if k == 3 else [3], 'list': ['-', ':'] if k == 3 else ['-']}[mode]
    names = rng.sample(['u', 'v', 'w', 'k'], k)
    if rng.random() < .12:
        c = [y for i, y in enumerate(t.fn) if y is not None and i != x]
        if c:
            names[rng.randrange(k)] = rng.choice(c)
    if rng.random() < .06:
        names = names[:-1]
    if t.fn[x] is not None and rng.random() < .1:
        names[0] = t.fn[x]
    f = fid(rng, obj, x)
    rec.call('parse', {"id": f[0], "parts": parts, "names": names}, obj,
             lambda: obj.features.splitByParsing(f[1], rule, names, useLog=False), how=rng.randint(0, 1))


def cat_table(rng, ty):
    kinds = ('int', 'half', 'bin', 'float', 'miss') if ty == 'Sparse' else ('int', 'half', 'str', 'mixnb', 'bin', 'miss')
    t = gen.gen_table(rng, kinds=kinds, nr=(1, 5), mr=(1, 3))
    x = rng.randrange(t.m)
    pool = list({row[x] for row in t.d if row[x] == row[x] and row[x] is not None}) or [1]
    pool = (pool + [5 if not isinstance(pool[0], str) else 'n'])[:3]
    for row in t.d:
        miss = row[x] != row[x]
        if miss and (isinstance(pool[0], str) or rng.random() < .3) or not miss and rng.random() < .5:
            row[x] = rng.choice(pool)
    if rng.random() < .04:
        # no points: there is nothing to encode
        t.d, t.pn = [], []
    return t, x


def suffix_cell(s, strs):
    if strs:
        return ["s", s]
    try:
        return enc.cell(float(s))
    except ValueError:
        return ["s", s]


def onehot(rec, rng, ty):
    t, x = cat_table(rng, ty)
    if rng.random() < .12 and t.m > 1 and t.d and isinstance(t.d[0][x], str):
        # a name that a new feature will collide with
        y = (x + 1) % t.m
        t.fn[y] = '%s=%s' % (t.fn[x] if t.fn[x] is not None else x, t.d[0][x])
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    f = ops.one_id(rng, t.fn, bad=1) if rng.random() < .04 else fid(rng, obj, x)
    strs = any(isinstance(r[x], str) for r in t.d)
    prefix = ('%s=' % t.fn[x]) if t.fn[x] is not None else '%d=' % x
    box = {}

    def run():
        box['r'] = obj.replaceFeatureWithBinaryFeatures(f[1], useLog=False)
        return box['r']
    a = {"id": f[0], "labels": [], "names": []}

    def encret(r):
        names = list(r)
        a["names"] = names
        a["labels"] = [suffix_cell(nm[len(prefix):], strs) if nm.startswith(prefix) else ["o", nm] for nm in names]
        return ["l", [["s", v] for v in names]]
    # a failing call has no names to read; the model then needs the expected ones
    uniq = []
    for row in obj.copy('python list'):
        if row[x] not in uniq and not (row[x] != row[x] and any(u != u for u in uniq)):
            uniq.append(row[x])
    a["labels"] = [enc.cell(u) for u in uniq]
    a["names"] = [prefix + str(u) for u in uniq]
    rec.call('onehot', a, obj, run, enc_ret=encret, how=rng.randint(0, 1))
    return obj


def intcode(rec, rng, ty):
    t, x = cat_table(rng, ty)
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    f = ops.one_id(rng, t.fn, bad=1) if rng.random() < .04 else fid(rng, obj, x)

    def encret(r):
        if sorted(r) != list(range(len(r))):
            return ["l", [["o", str(r)]]]
        return ["l", [enc.cell(r[i]) for i in range(len(r))]]
    rec.call('intcode', {"id": f[0]}, obj, lambda: obj.transformFeatureToIntegers(f[1], useLog=False), enc_ret=encret,
             how=rng.randint(0, 1))
    return obj
