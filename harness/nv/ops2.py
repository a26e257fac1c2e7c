"""Element-wise and vector-wise operations."""
import numpy as np
import nimble
from nimble import match, fill
from . import enc, gen, ops
from .ops import axis, other, id_list, one_id, id_of, has_strings, has_missing

NONE = {"k": "none"}


def lim(rng, names, p=.4, bad=.04):
    """(json, python) limiting identifiers"""
    if rng.random() > p or not names:
        return NONE, None
    if rng.random() < .3:
        j, x = one_id(rng, names, bad=bad)
        return {"k": "ids", "ids": [j]}, x
    js, ps = id_list(rng, names, rng.randint(1, len(names)), bad=0)
    if rng.random() < bad:
        j, x = one_id(rng, names, bad=1)
        js, ps = js + [j], ps + [x]
    return {"k": "ids", "ids": js}, ps


def value_for(rng, obj):
    """a value to put into the object"""
    if has_strings(obj):
        return rng.choice(gen.STR + [0, 7])
    return rng.choice([0, 0, 1, 7, -3, 2.5, 0.5])


def any_for(rng, obj):
    """a value a callback returns, of any kind the object can hold"""
    if obj.getTypeString() != 'Sparse' and rng.random() < .15:
        return rng.choice(gen.STR + [0, 2, -1.5])
    return value_for(rng, obj)


def cells_of(obj):
    return [v for r in obj.copy('python list') for v in r]


def efun(rng, obj, numeric, none=False, three=True, boolean=False):
    """(json, function) of one element"""
    pool = cells_of(obj)
    known = [v for v in pool if v == v and v is not None] or [0]
    if boolean:
        if numeric and rng.random() < .5:
            c = rng.choice([0, 1, 2, -1, 2.5])
            return {"k": "gt", "c": enc.cell(c), "rk": []}, lambda x: x > c
        c = rng.choice(known)
        return {"k": "eq", "c": enc.cell(c), "rk": []}, lambda x: x == c
    ks = ['id', 'const', 'swap', 'dict']
    if numeric:
        ks += ['add', 'mul', 'add', 'mul']
    if none:
        ks += ['noneif']
    if three:
        ks += ['pos']
    k = rng.choice(ks)
    v = any_for(rng, obj)
    if k == 'id':
        return {"k": "id"}, lambda x: x
    if k == 'const':
        return {"k": "const", "c": enc.cell(v)}, lambda x: v
    if k == 'add':
        c = rng.choice([1, 2, -1, .5])
        return {"k": "add", "c": enc.cell(c)}, lambda x: x + c
    if k == 'mul':
        c = rng.choice([2, -1, 0, .5, 3])
        return {"k": "mul", "c": enc.cell(c)}, lambda x: x * c
    if k == 'swap':
        a = rng.choice(known)
        return {"k": "swap", "a": enc.cell(a), "b": enc.cell(v)}, lambda x: v if x == a else x
    if k == 'dict':
        a = rng.sample(sorted(set(known), key=str), 1)
        m = {x: any_for(rng, obj) for x in a}
        return {"k": "dict", "m": [[enc.cell(x), enc.cell(y)] for x, y in m.items()]}, m
    if k == 'noneif':
        a = rng.choice(known)
        return {"k": "noneif", "a": enc.cell(a), "b": enc.cell(v)}, lambda x: None if x == a else v
    if k == 'pos':
        return {"k": "pos"}, lambda x, i, j: 100 + 10 * i + j


def transform_elements(rec, rng, obj):
    numeric = not has_strings(obj)
    skip = rng.random() < .3
    f, g = efun(rng, obj, numeric, none=skip)
    pj, pp = lim(rng, obj.points.getNames())
    fj, fp = lim(rng, obj.features.getNames())
    pz = rng.random() < .25
    kw = {}
    if pp is not None:
        kw['points'] = pp
    if fp is not None:
        kw['features'] = fp
    a = {"f": f, "plim": pj, "flim": fj, "pz": pz, "skip": skip}
    return rec.call('transformElements', a, obj, lambda: obj.transformElements(
        g, preserveZeros=pz, skipNoneReturnValues=skip, useLog=False, **kw))


def calc_elements(rec, rng, obj):
    numeric = not has_strings(obj)
    skip = rng.random() < .3
    f, g = efun(rng, obj, numeric, none=skip)
    pj, pp = lim(rng, obj.points.getNames())
    fj, fp = lim(rng, obj.features.getNames())
    pz = rng.random() < .25
    ty = obj.getTypeString()
    kw = {}
    if pp is not None:
        kw['points'] = pp
    if fp is not None:
        kw['features'] = fp
    if rng.random() < .3:
        ty = rng.choice(gen.TYPES)
        if ty == 'Sparse' and not numeric:
            ty = 'List'
        kw['outputType'] = ty
    a = {"f": f, "plim": pj, "flim": fj, "pz": pz, "skip": skip, "ty": ty}
    return rec.call('calcElements', a, obj, lambda: obj.calculateOnElements(
        g, preserveZeros=pz, skipNoneReturnValues=skip, useLog=False, **kw))


def match_elements(rec, rng, obj):
    numeric = not has_strings(obj)
    f, g = efun(rng, obj, numeric, boolean=True)
    pj, pp = lim(rng, obj.points.getNames())
    fj, fp = lim(rng, obj.features.getNames())
    kw = {}
    if pp is not None:
        kw['points'] = pp
    if fp is not None:
        kw['features'] = fp
    if f["k"] == 'gt' and rng.random() < .5:
        c = f["c"]
        g = '> %s' % (c[1] / c[2])
    elif f["k"] == 'eq' and rng.random() < .5 and f["c"][0] == 'n':
        g = f["c"][1] / f["c"][2]
    return rec.call('matchElements', {"f": f, "plim": pj, "flim": fj}, obj,
                    lambda: obj.matchingElements(g, useLog=False, **kw))


def count_elements(rec, rng, obj):
    numeric = not has_strings(obj)
    f, g = efun(rng, obj, numeric, boolean=True)
    if f["k"] == 'gt' and rng.random() < .5:
        c = f["c"]
        g = '> %s' % (c[1] / c[2])
    return rec.call('countElements', {"f": f}, obj, lambda: obj.countElements(g))


def vfun(rng, obj, ax, same_len):
    n = len(axis(obj, other(ax)))
    numeric = not has_strings(obj)
    if same_len:
        k = rng.choice(['rev', 'self', 'map', 'map', 'const', 'rot'])
    else:
        k = rng.choice(['rev', 'first', 'pair', 'len', 'nmiss', 'map'] + (['sum', 'sum'] if numeric else []))
    if k == 'rev':
        return {"k": "rev"}, lambda v: list(v)[::-1]
    if k == 'self':
        return {"k": "self"}, lambda v: v
    if k == 'rot':
        return {"k": "rot"}, lambda v: list(v)[1:] + list(v)[:1]
    if k == 'map':
        f, g = efun(rng, obj, numeric, three=False)
        if isinstance(g, dict):
            d = g
            g = lambda x: d.get(x, x)
        return {"k": "map", "f": f}, lambda v: [g(x) for x in v]
    if k == 'const':
        c = [any_for(rng, obj) for _ in range(n + (1 if rng.random() < .04 else 0))]
        return {"k": "const", "v": [enc.cell(x) for x in c]}, lambda v: c
    if k == 'first':
        return {"k": "first"}, lambda v: v[0]
    if k == 'pair':
        return {"k": "pair"}, lambda v: [v[0], v[len(v) - 1]]
    if k == 'len':
        return {"k": "len"}, lambda v: len(v)
    if k == 'nmiss':
        return {"k": "nmiss"}, lambda v: sum(1 for x in v if x is None or x != x)
    if k == 'sum':
        return {"k": "sum"}, lambda v: sum(v)


def axis_transform(rec, rng, obj):
    ax = rng.choice('pf')
    f, g = vfun(rng, obj, ax, True)
    lj, lp = lim(rng, axis(obj, ax).getNames())
    return rec.call('axisTransform', {"ax": ax, "f": f, "lim": lj}, obj,
                    lambda: axis(obj, ax).transform(g, lp, useLog=False))


def axis_calculate(rec, rng, obj):
    ax = rng.choice('pf')
    f, g = vfun(rng, obj, ax, False)
    if f["k"] == 'sum' and has_missing(obj):
        f, g = {"k": "len"}, (lambda v: len(v))
    lj, lp = lim(rng, axis(obj, ax).getNames())
    return rec.call('axisCalculate', {"ax": ax, "f": f, "lim": lj}, obj,
                    lambda: axis(obj, ax).calculate(g, lp, useLog=False))


def axis_matching(rec, rng, obj):
    ax = rng.choice('pf')
    p, g = ops.pred(rng, obj, ax)
    fname = ''
    if rng.random() < .5:
        def named(v):
            return g(v)
        h, fname = named, 'named'
    else:
        h = lambda v: g(v)
    return rec.call('axisMatching', {"ax": ax, "p": p, "fname": fname}, obj,
                    lambda: axis(obj, ax).matching(h, useLog=False))


def map_reduce(rec, rng, obj):
    """obj without missing values"""
    ax = 'p'
    mk, rk = rng.choice(['id', 'all']), rng.choice(['sum', 'count', 'drop1'])
    if has_strings(obj):
        mk = 'id' if rng.random() < .6 else mk
        rk = rng.choice(['count', 'drop1'])

    def mapper(v):
        if mk == 'id':
            return [(v[0], v[len(v) - 1])]
        return [(j, x) for j, x in enumerate(v)]

    def reducer(k, vals):
        if rk == 'sum':
            return (k, sum(vals))
        if rk == 'drop1' and len(vals) < 2:
            return None
        return (k, len(vals))
    if has_missing(obj):
        return None
    return rec.call('mapReduce', {"ax": ax, "map": mk, "red": rk}, obj,
                    lambda: axis(obj, ax).mapReduce(mapper, reducer, useLog=False))


def replacement(rec, rng, obj, n, m, pn=None, fn=None):
    """build a table of the given shape to put into obj"""
    kinds = ('str', 'int') if has_strings(obj) else ('int', 'half', 'miss', 'float')
    kind = rng.choice(kinds)
    d = [[gen.value(rng, kind) for _ in range(m)] for _ in range(n)]
    return gen.Tab(d, m, pn or [None] * n, fn or [None] * m)


def replace(rec, rng, obj):
    ax = rng.choice('pf')
    A = axis(obj, ax)
    names = A.getNames()
    n, m = len(names), len(axis(obj, other(ax)))
    k = n if rng.random() < .3 else rng.randint(1, n)
    wide = rng.random() < .04
    if wide:
        m += 1
    un = [None] * k
    lj, lp = NONE, None
    r = rng.random()
    if r < .6:
        js, ps = id_list(rng, names, k, bad=.04)
        lj, lp = {"k": "ids", "ids": js}, ps
        if k == 1 and len(js) == 1 and rng.random() < .4:
            lp = ps[0]
        if rng.random() < .05 and k > 1:
            lj, lp = {"k": "ids", "ids": js[:-1]}, ps[:-1]
        if rng.random() < .3:
            un = rng.sample([x for x in (gen.PN if ax == 'p' else gen.FN)], k)
    else:
        have = [x for x in names if x is not None]
        if len(have) >= k and rng.random() < .9:
            un = rng.sample(have, k)
        elif rng.random() < .5:
            un = rng.sample(gen.PN, k)
    t = replacement(rec, rng, obj, k, m, un)
    raw = [list(x) for x in t.d]
    uj = t.json('')
    if ax == 'f':
        t = t.T()
        uj = t.json('')
    if rng.random() < .7:
        u = rec.build(rng, t, None if rng.random() < .4 else obj.getTypeString(), view=rng.random() < .15)
        if u is None:
            return None
        before = enc.table(u)
        r = rec.call('replace', {"ax": ax, "u": before, "lim": lj}, obj, lambda: A.replace(u, lp, useLog=False))
        rec.call('frame', {"was": before}, u, lambda: None)
        return r
    src = [list(x) for x in t.d]
    if k == 1 and not wide and rng.random() < .5:
        src = raw[0]
    kw = {}
    if any(un):
        kw['pointNames' if ax == 'p' else 'featureNames'] = un
    if (ax == 'p' and k == 1) or (ax == 'f' and k == 1) or True:
        # a raw vector given the other way round is accepted as well
        if m == 1 and k > 1 or (k == 1 and m == 1):
            src = [list(x) for x in t.d]
    if any(isinstance(x, str) for x in src[0:1]) or has_strings(obj):
        return None        # raw text may be read as feature names
    return rec.call('replace', {"ax": ax, "u": uj, "lim": lj}, obj, lambda: A.replace(src, lp, useLog=False, **kw))


def rect(rec, rng, obj):
    pn, fn = obj.points.getNames(), obj.features.getNames()
    n, m = len(pn), len(fn)
    a, x = sorted([rng.randrange(n), rng.randrange(n)])
    b, y = sorted([rng.randrange(m), rng.randrange(m)])
    if rng.random() < .05:
        a, x = x, a
    if rng.random() < .05:
        b, y = y, b
    ids = [id_of(rng, pn, a), id_of(rng, fn, b), id_of(rng, pn, x), id_of(rng, fn, y)]
    if rng.random() < .06:
        k = rng.randrange(4)
        ids[k] = one_id(rng, [pn, fn, pn, fn][k], bad=1)
    if rng.random() < .5:
        v = value_for(rng, obj)
        if isinstance(v, str):
            v = 4           # only numeric constants are accepted
        return rec.call('rectConst', {"c": enc.cell(v), "ps": ids[0][0], "fs": ids[1][0], "pe": ids[2][0], "fe": ids[3][0]},
                        obj, lambda: obj.replaceRectangle(v, ids[0][1], ids[1][1], ids[2][1], ids[3][1], useLog=False))
    h, w = max(1, x - a + 1), max(1, y - b + 1)
    if rng.random() < .08:
        h, w = h + rng.choice([0, 1]), w + rng.choice([0, 1])
    t = replacement(rec, rng, obj, h, w)
    u = rec.build(rng, t, None if rng.random() < .3 else obj.getTypeString(), view=rng.random() < .2)
    if u is None:
        return None
    uj = enc.table(u)
    r = rng.random()
    pe, fe = ids[2], ids[3]
    if r < .35:
        pe, fe = (["none"], None), (["none"], None)
    elif r < .45:
        pe = (["none"], None)
    elif r < .55:
        fe = (["none"], None)
    rr = rec.call('rectTable', {"u": uj, "ps": ids[0][0], "fs": ids[1][0], "pe": pe[0], "fe": fe[0]}, obj,
                  lambda: obj.replaceRectangle(u, ids[0][1], ids[1][1], pe[1], fe[1], useLog=False))
    rec.call('frame', {"was": uj}, u, lambda: None)
    return rr


def setitem(rec, rng, obj):
    """obj[p, f] = value"""
    pn, fn = obj.points.getNames(), obj.features.getNames()
    i, j = rng.randrange(len(pn)), rng.randrange(len(fn))
    p, f = id_of(rng, pn, i), id_of(rng, fn, j)
    v = value_for(rng, obj)

    def run(key):
        obj[key] = v
    return rec.call('rectConst', {"c": enc.cell(v), "ps": p[0], "fs": f[0], "pe": p[0], "fe": f[0]}, obj,
                    lambda: run((p[1], f[1])))


def setitems(rec, rng, obj):
    """obj[points, features] = value(s), the keys being single, lists, masks or slices"""
    from . import ops8
    pn, fn = obj.points.getNames(), obj.features.getNames()
    x, px = ops8.key_of(rng, pn, one=.3)
    y, py = ops8.key_of(rng, fn, one=.3)
    both = rng.random() < .8
    if not both:
        y = {"k": "slice", "s": ["none"], "e": ["none"], "step": 1}
        py = slice(None)
    key = (px, py) if both else px
    try:                                    # how many cells are named, to give as many values
        sub = obj.points[px if isinstance(px, (list, slice, np.ndarray)) else [px]]
        sub = sub.features[py if isinstance(py, (list, slice, np.ndarray)) else [py]]
        n, m = len(sub.points), len(sub.features)
    except Exception:                       # noqa: BLE001 - keys that are refused
        n, m = rng.randint(1, 2), rng.randint(1, 2)
    r = rng.random()
    if r < .35:
        v = value_for(rng, obj)
        val = {"k": "one", "c": enc.cell(v)}
    else:
        if r > .9:
            m += 1
        rows = [[value_for(rng, obj) for _ in range(m)] for _ in range(n)]
        val = {"k": "many", "cs": [enc.cell(c) for row in rows for c in row]}
        how = rng.random()
        if how < .35:
            v = rows
        elif how < .7 or not rows or not m:
            v = [c for row in rows for c in row]
        else:
            ty = rng.choice(gen.TYPES)
            if ty == 'Sparse' and any(not isinstance(c, (int, float)) or isinstance(c, bool) for row in rows for c in row):
                ty = 'List'
            v = nimble.data(rows, returnType=ty, pointNames=False, featureNames=False, useLog=False, treatAsMissing=None)

    def run():
        obj[key] = v
    return rec.call('putItem', {"x": x, "y": y, "v": val}, obj, run)


FW = {'mean': fill.mean, 'median': fill.median, 'mode': fill.mode, 'ffill': fill.forwardFill,
      'bfill': fill.backwardFill, 'interp': fill.interpolate}


def matcher(rng, obj):
    """(json, argument) something accepted as matchingElements"""
    pool = cells_of(obj)
    known = [v for v in pool if v == v and v is not None] or [0]
    strs = has_strings(obj)
    ks = ['val', 'list', 'missing', 'missing', 'fnval', 'q']
    if not strs:
        ks += ['zero', 'nonzero', 'positive', 'negative', 'nonmissing', 'cmp', 'qcmp']
    else:
        ks += ['numeric', 'nonnumeric']
    k = rng.choice(ks)
    if k == 'val':
        v = rng.choice(known)
        if isinstance(v, str) and ' ' in v:
            v = 'a'
        return {"k": "val", "c": enc.cell(v)}, v
    if k == 'fnval':
        v = rng.choice(known)
        return {"k": "val", "c": enc.cell(v)}, (lambda x: x == v)
    if k == 'list':
        vs = [rng.choice(known), rng.choice(known)]
        if rng.random() < .4:
            vs.append(gen.nan)
        return {"k": "list", "cs": [enc.cell(v) for v in vs]}, vs
    if k == 'q':
        return {"k": "missing"}, 'is missing'
    if k == 'qcmp':
        op, c = rng.choice(list(ops.OPS)), rng.choice([0, 1, 2, -1])
        return {"k": "cmp", "op": op, "c": enc.cell(c)}, '%s %s' % (op, c)
    if k == 'cmp':
        op, c = rng.choice(list(ops.OPS)), rng.choice([0, 1, 2, -1])
        f = ops.OPS[op]
        return {"k": "cmp", "op": op, "c": enc.cell(c)}, (lambda x: bool(f(x, c)))
    name = {'missing': 'missing', 'zero': 'zero', 'nonzero': 'nonZero', 'positive': 'positive',
            'negative': 'negative', 'nonmissing': 'nonMissing', 'numeric': 'numeric', 'nonnumeric': 'nonNumeric'}[k]
    return {"k": k}, getattr(match, name)


def do_fill(rec, rng, obj):
    ax = rng.choice('pf')
    if rng.random() < .2:
        r, c = obj.shape
        tab = gen.gen_table(rng, kinds=('bool', 'bin'), nr=(r, r), mr=(c, c))
        mp = gen.direct(gen.Tab([[bool(v) for v in row] for row in tab.d], c, tab.pn, tab.fn),
                        rng.choice(('List', 'Matrix', 'DataFrame')))
        mj = {"k": "mat", "u": enc.table(mp)}
    else:
        mj, mp = matcher(rng, obj)
    strs = has_strings(obj)
    ks = ['const', 'const', 'mode', 'ffill', 'bfill'] + ([] if strs else ['mean', 'median', 'interp'])
    k = rng.choice(ks)
    if k == 'interp' and has_missing(obj) and mj != {"k": "missing"}:
        k = 'const'
    if k in ('mode',) and strs:
        cols = ops.column_kinds(obj, 'p' if ax == 'f' else 'f')
        if not all(cols):
            k = 'const'
    if k == 'const':
        v = value_for(rng, obj)
        if rng.random() < .1:
            v = None
        fj, fp = {"k": "const", "c": enc.cell(v)}, v
    else:
        fj, fp = {"k": k}, FW[k]
    lj, lp = lim(rng, axis(obj, ax).getNames(), bad=.02)
    return rec.call('fill', {"ax": ax, "fw": fj, "mt": mj, "lim": lj}, obj,
                    lambda: axis(obj, ax).fillMatching(fp, mp, lp, useLog=False))
