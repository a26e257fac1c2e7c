"""Objects of more than two dimensions."""
import operator
import os
import tempfile
import traceback
import numpy as np
import nimble
from nimble.core.data import Base
from . import core, enc, gen, ops, ops3, ops8


def rows_of(obj, how=0):
    """the cells of each point in order"""
    def flat(x):
        if isinstance(x, (list, tuple, np.ndarray)):
            return [c for y in x for c in flat(y)]
        return [x]
    if len(obj._dims) == 2:
        if len(obj.points) == 0 or len(obj.features) == 0:
            return [[] for _ in range(len(obj.points))]
        return obj.copy('python list')
    if how == 1:
        return [rows_flat(p) for p in obj.points]
    if how == 2:
        return [flat(r) for r in obj.copy('numpy array').tolist()]
    return [flat(r) for r in obj.copy('python list')]


def rows_flat(p):
    if len(p.dimensions) > 2:
        return [c for q in p.points for c in rows_flat(q)]
    return [p[i, j] for i in range(len(p.points)) for j in range(len(p.features))]


def table(obj, how=0):
    return {"d": [[enc.cell(v) for v in r] for r in rows_of(obj, how)], "m": len(obj.features),
            "pn": enc.names(obj.points), "fn": enc.names(obj.features), "ty": obj.getTypeString(),
            "dims": [int(k) for k in obj.dimensions]}


def observe(obj, how=0):
    try:
        t = table(obj, how)
        for ax in (obj.points, obj.features):
            for i, k in core.name_index(ax):
                if i != k:
                    raise core.Unobservable('name-index')
        if tuple(obj.shape) != (len(t["d"]), t["m"]):
            raise core.Unobservable('shape')
        return t
    except core.Unobservable:
        raise
    except Exception as e:
        raise core.Unobservable('read:' + type(e).__name__ + ':' + str(e)[:80])


def ret(r):
    if r is None:
        return ["none"]
    if isinstance(r, Base):
        return ["t", observe(r)]
    if isinstance(r, (bool, np.bool_)):
        return ["b", bool(r)]
    if isinstance(r, (tuple, list)) and r and isinstance(r[0], Base):
        return ["ts", [["t", observe(x)] for x in r]]
    return ["kind", type(r).__name__]


def call(rec, op, a, obj, fn, enc_ret=None, how=0):
    """one recorded call on an object of many dimensions"""
    try:
        pre = observe(obj)
    except core.Unobservable as e:
        rec.bad('pre:' + str(e), op)
        return None
    exc = note = ""
    r = None
    try:
        r = fn()
    except Exception as e:        # noqa: BLE001
        exc, note = type(e).__name__, str(e)[:200]
    try:
        post = observe(obj, how)
        out = (enc_ret or ret)(r) if not exc else ["none"]
    except Exception as e:        # noqa: BLE001
        rec.emit("bad", {"op": op, "args": a, "pre": pre}, exc='after:' + str(e)[:80], note=op + ' ' + note)
        return None
    rec.emit("hd", dict(a, op=op), pre, post, out, exc, note)
    return r


def frame(rec, obj, was):
    try:
        t = observe(obj)
    except core.Unobservable as e:
        rec.bad('frame:' + str(e))
        return
    rec.emit("hdFrame", {"was": was}, t, t)


def nest(row_cells, inner):
    if len(inner) == 1:
        return list(row_cells)
    w = len(row_cells) // inner[0] if inner[0] else 0
    return [nest(row_cells[k * w:(k + 1) * w], inner[1:]) for k in range(inner[0])]


def gen_hd(rng, inner=None, n=None, kind=None, pn=None, fn=None, num=False):
    """(cells by point, inner dimensions, point names, feature names)"""
    inner = inner or [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([2, 2, 2, 3]))]
    n = n or rng.randint(1, 3)
    kind = kind or rng.choice(['int', 'half', 'float', 'int', 'bin'] + ([] if num else ['str', 'mixed', 'miss', 'miss', 'none']))
    m = int(np.prod(inner))
    d = [[gen.value(rng, rng.choice(['str', 'int', 'miss']) if kind == 'mixed' else kind) for _ in range(m)] for _ in range(n)]
    if n > 1 and rng.random() < .3:
        d[-1] = list(d[0])
    if pn is None:
        pn = gen.gen_names(rng, gen.PN, n)
    if fn is None:
        fn = [None] * m if rng.random() < .75 else ['h%d' % k for k in range(m)]
    return d, inner, pn, fn


def build(rec, rng, ty, spec, view=False, nolist=False):
    d, inner, pn, fn = spec
    n, m = len(d), int(np.prod(inner))
    numeric = all(isinstance(v, (int, float)) and not isinstance(v, bool) for r in d for v in r)
    if ty == 'Sparse' and not numeric:
        ty = rng.choice(['List', 'Matrix', 'DataFrame'])
    want = {"d": [[enc.cell(v) for v in r] for r in d], "m": m, "pn": ops.names_json(pn), "fn": ops.names_json(fn),
            "ty": ty, "dims": [n] + list(inner)}
    kw = dict(pointNames=pn if any(pn) else None, featureNames=fn if any(fn) else None, useLog=False)
    hows = ['unflatten', 'unflatten']
    if numeric:
        hows += ['numpy', 'numpy', 'convert']
    if ty != 'Sparse' and not nolist:        # nested lists make object arrays, which cannot become sparse here
        hows += ['list', 'list', 'list']
    how = rng.choice(hows)
    off = [rng.randint(0, 1), rng.randint(0, 1)] if view else [0, 0]
    extra = lambda: [d[0]] if d else []                      # noqa: E731
    rows = (extra() if off[0] else []) + d + (extra() if off[1] else [])
    if view and kw['pointNames']:
        kw['pointNames'] = (['V0'] if off[0] else []) + pn + (['V1'] if off[1] else [])
    try:
        data = [nest(r, inner) for r in rows]
        if how == 'list':
            o = nimble.data(data, returnType=ty, treatAsMissing=[None, float('nan')] if rng.random() < .5 else None, **kw)
        elif how == 'numpy':
            o = nimble.data(np.array(data), returnType=ty, **kw)
        elif how == 'convert':
            o = nimble.data(np.array(data), returnType=rng.choice(gen.TYPES), **kw).copy(ty)
        else:
            o = nimble.data([[c for r in rows for c in r]], returnType=ty, useLog=False, treatAsMissing=None,
                            pointNames=False, featureNames=False)
            o.unflatten([len(rows)] + list(inner), useLog=False)
            o.points.setNames(kw['pointNames'], useLog=False)
            o.features.setNames(kw['featureNames'], useLog=False)
        if view:
            o = o.view(off[0], off[0] + n - 1)
    except Exception as e:        # noqa: BLE001
        rec.bad('build:' + how + ':' + type(e).__name__ + ':' + str(e)[:80], traceback.format_exc()[-600:])
        return None
    try:
        t = observe(o, rng.randint(0, 2))
    except core.Unobservable as e:
        rec.bad(str(e), how)
        return None
    rec.emit("hdBuild", {"want": want}, t, t, note=how)
    return o


def cells(obj):
    return [v for r in rows_of(obj) for v in r]


def strs(obj):
    return any(isinstance(v, str) for v in cells(obj))


def dyadic(obj):
    return all(c[0] == 'x' or (c[0] == 'n' and c[2] in (1, 2, 4)) for c in map(enc.cell, cells(obj)))


def miss(obj):
    return any(v is None or v != v for v in cells(obj))


def similar(rec, rng, obj, same=False, n=None, ty=None, names=None):
    """another object, mostly with points of the same shape"""
    inner = list(obj.dimensions[1:])
    r = rng.random()
    if not same and r < .1 and len(inner) == 2:
        inner = inner[::-1]
    elif not same and r < .16:
        inner = [1] + inner
    elif not same and r < .22:
        inner = inner[:-1] + [inner[-1] + 1]
    elif not same and r < .28 and len(inner) > 2:
        inner = [inner[0] * inner[1]] + inner[2:]
    m = int(np.prod(inner))
    kind = rng.choice(('str', 'int') if strs(obj) else ('int', 'half', 'float'))
    n = n or rng.randint(1, 2)
    pool = [x for x in gen.PN if x not in obj.points.getNames()]
    pn = names or gen.gen_names(rng, pool, n)
    fn = obj.features.getNames()
    if len(fn) != m or rng.random() < .3:
        fn = [None] * m
    ty = ty or (obj.getTypeString() if rng.random() < .6 else rng.choice(gen.TYPES))
    return build(rec, rng, ty, gen_hd(rng, inner, n, kind, pn, fn), view=rng.random() < .15,
                 nolist=obj.getTypeString() == 'Sparse')


def two_dim(rng, obj):
    d = [[1] * len(obj.features)]
    return nimble.data(d, useLog=False)


# --- the calls ------------------------------------------------------------------
def structural(rec, rng, obj):
    op = rng.choice(['copy', 'copy', 'extract', 'delete', 'retain', 'count'])
    names = obj.points.getNames()
    n = len(names)
    kw, args, num = {}, [], 0
    r = rng.random()
    if op == 'count' or r < .1:
        b = rng.random() < .5
        sel, args = {"k": "fn", "p": {"k": "const", "b": b}, "lim": {"k": "none"}}, [lambda v: b]
    elif r < .55 or not n:
        js, ps = ops.id_list(rng, names, bad=.05)
        if not ps:
            js, ps = ops.id_list(rng, names, 1 if n else 0, bad=0 if n else 1)
        sel, args = {"k": "ids", "ids": js}, [ps if len(ps) != 1 or rng.random() < .5 else ps[0]]
    elif r < .9:
        a, b = sorted([rng.randrange(n), rng.randrange(n)])
        s, e = ops.id_of(rng, names, a), ops.id_of(rng, names, b)
        sel = {"k": "range", "s": ["none"], "e": ["none"]}
        m = rng.choice('seb')
        if m in 'sb':
            sel["s"], kw['start'] = s
        if m in 'eb':
            sel["e"], kw['end'] = e
    else:
        sel = {"k": "all"}
        num = rng.randint(1, n + 1)
        kw['number'] = num
    if sel["k"] == "range" and rng.random() < .3:
        num = rng.randint(1, n)
        kw['number'] = num
    extra = {} if op == 'count' else {'useLog': False}
    f = getattr(obj.points, op)
    call(rec, 'structural', {"strct": op, "sel": sel, "num": num}, obj, lambda: f(*args, **kw, **extra), how=rng.randint(0, 2))


def names(rec, rng, obj):
    ax = rng.choice('ppf')
    A = ops.axis(obj, ax)
    cur = A.getNames()
    pool = gen.PN if ax == 'p' else gen.FN + ['h%d' % k for k in range(30, 60)]
    if rng.random() < .5:
        new = ops.fresh_names(rng, pool, len(cur), dup=.05) if rng.random() < .8 else [None] * len(cur)
        call(rec, 'setNames', {"ax": ax, "new": ops.names_json(new)}, obj, lambda: A.setNames(new, useLog=False))
    elif cur:
        js, ps = ops.id_list(rng, cur, 1, bad=.05)
        ps = [p if isinstance(p, str) else int(p) for p in ps]
        new = [rng.choice(pool)] * len(js)
        call(rec, 'setNamesOld', {"ax": ax, "olds": js, "new": new}, obj,
             lambda: A.setNames(new, oldIdentifiers=ps, useLog=False))


def permute(rec, rng, obj):
    cur = obj.points.getNames()
    js, ps = ops.id_list(rng, cur, len(cur), bad=.06)
    call(rec, 'permute', {"ids": js}, obj, lambda: obj.points.permute(ps, useLog=False), how=rng.randint(0, 2))


def sort(rec, rng, obj):
    rev = rng.random() < .4
    r = rng.random()
    if r < .4:
        return call(rec, 'sort', {"by": {"k": "names"}, "rev": rev}, obj, lambda: obj.points.sort(reverse=rev, useLog=False))
    if r < .5:
        return call(rec, 'sort', {"by": {"k": "ids", "ids": [["i", 0]]}, "rev": rev}, obj,
                    lambda: obj.points.sort(0, reverse=rev, useLog=False))
    if strs(obj) or miss(obj) or not dyadic(obj):
        return None
    key = lambda p: sum(rows_flat(p))                        # noqa: E731
    if r < .75:
        f = key
    else:
        def f(a, b):
            x, y = key(a), key(b)
            return -1 if x < y else 1 if x > y else 0
    return call(rec, 'sort', {"by": {"k": "sum"}, "rev": rev}, obj, lambda: obj.points.sort(f, reverse=rev, useLog=False))


def insert(rec, rng, obj):
    cur = obj.points.getNames()
    if rng.random() < .05:
        o = two_dim(rng, obj)
    else:
        o = similar(rec, rng, obj)
    if o is None:
        return
    oj = table(o)
    if rng.random() < .4 or not cur:
        call(rec, 'insert', {"other": oj, "at": ["end"]}, obj, lambda: obj.points.append(o, useLog=False), how=rng.randint(0, 2))
    else:
        at = (["i", len(cur)], len(cur)) if rng.random() < .2 else ops.id_of(rng, cur, rng.randrange(len(cur)))
        call(rec, 'insert', {"other": oj, "at": at[0]}, obj, lambda: obj.points.insert(at[1], o, useLog=False), how=rng.randint(0, 2))
    frame(rec, o, oj)


def replace(rec, rng, obj):
    cur = obj.points.getNames()
    if not cur:
        return
    k = rng.randint(1, len(cur))
    js, ps = ops.id_list(rng, cur, k, bad=.04)
    at = [cur.index(p) if p in cur else p % len(cur) if isinstance(p, int) else p for p in ps]
    if len(set(at)) < len(at):
        return
    u = similar(rec, rng, obj, n=len(ps))
    if u is None:
        return
    uj = table(u)
    if len(u.points) == len(cur) and u.dimensions == obj.dimensions and rng.random() < .3:
        call(rec, 'replace', {"u": uj, "lim": {"k": "none"}}, obj, lambda: obj.points.replace(u, useLog=False))
    else:
        call(rec, 'replace', {"u": uj, "lim": {"k": "ids", "ids": js}}, obj, lambda: obj.points.replace(u, ps, useLog=False),
             how=rng.randint(0, 2))
    frame(rec, u, uj)


def reads(rec, rng, obj):
    cur = obj.points.getNames()
    r = rng.random()
    if r < .2:
        j, p = ops.one_id(rng, cur, bad=.06)
        return call(rec, 'point', {"id": j}, obj, (lambda: obj.points[p]) if rng.random() < .5 else (lambda: obj.pointView(p)))
    if r < .4:
        k, p = ops8.key_of(rng, cur, one=0)
        return call(rec, 'points', {"key": k}, obj, lambda: obj.points[p])
    if r < .6:
        part = rng.random() < .15 and len(obj.features) > 1
        (a, pa), (b, pb) = [(["none"], None) if rng.random() < .4 else ops.one_id(rng, cur, bad=.05) for _ in range(2)]
        kw = {'featureStart': 1} if part and rng.random() < .5 else {'featureEnd': 0} if part else {}
        return call(rec, 'view', {"ps": a, "pe": b, "part": part}, obj, lambda: obj.view(pa, pb, **kw))
    if r < .7:
        return call(rec, 'iter', {"w": 0}, obj, lambda: list(obj.points))
    if r < .8:
        ty = rng.choice(gen.TYPES)
        if ty == 'Sparse' and (strs(obj) or not all(type(v) in (int, float) for v in cells(obj))):
            ty = 'List'
        return call(rec, 'copyTo', {"ty": ty}, obj, lambda: obj.copy(ty))
    if r < .92:
        to = rng.choice(['python list', 'numpy array'])

        def nd(x):
            flat, shape = [], []
            if isinstance(x, np.ndarray):
                return ["nd", list(x.shape), [enc.cell(v) for v in x.ravel().tolist()]]
            y = x
            while isinstance(y, list):
                shape.append(len(y))
                y = y[0] if y else None

            def walk(z):
                if isinstance(z, list):
                    for q in z:
                        walk(q)
                else:
                    flat.append(enc.cell(z))
            walk(x)
            return ["nd", shape, flat]
        def raw():
            x = obj.copy(to)
            out = nd(x)
            scribble(x)
            return out
        return call(rec, 'raw', {"w": 0}, obj, raw, enc_ret=lambda x: x)
    return call(rec, 'containsZero', {"w": 0}, obj, lambda: obj.containsZero())


def scribble(x):
    """overwrite exported data: the object it came from must not see it"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (list, np.ndarray)):
                scribble(y)
            else:
                x[i] = 77
        x.append(77)


def apart(rec, rng, obj):
    """change a new object made from this one: this one stays the same"""
    was = table(obj)
    num = not strs(obj) and all(type(v) in (int, float) for v in cells(obj))
    how = rng.randrange(6)
    try:
        c = (obj.copy() if how == 0 else obj.copy(obj.getTypeString()) if how == 1 else obj.points.copy(start=0, end=len(obj.points) - 1) if how == 2
             else obj.points.repeat(1, True) if how == 3 else +obj if num and how == 4 else obj.points[0:len(obj.points) - 1])
        k = rng.randrange(4)
        if k == 0 and len(c.dimensions) > 2:
            c.flatten(useLog=False)
        elif k == 1 and num:
            c *= 3
        elif k == 2:
            c.points.permute(list(range(len(c.points)))[::-1], useLog=False)
        else:
            c.points.setNames(['z%d' % k for k in range(len(c.points))], useLog=False)
    except Exception as e:         # noqa: BLE001
        rec.bad('apart:%s:%s' % (type(e).__name__, str(e)[:80]))
        return
    frame(rec, obj, was)


def shape(rec, rng, obj):
    """flatten and unflatten, on a copy"""
    was = table(obj)
    o = obj.copy()
    call(rec, 'flatten', {"w": 0}, o, lambda: o.flatten(useLog=False))
    if len(o.dimensions) == 2:
        if rng.random() < .25:
            o.transpose(useLog=False)
        n = len(o.points) * len(o.features)
        dims = list(obj.dimensions) if rng.random() < .6 else rng.choice([[n, 1, 1], [1, n, 1], [1, 1, n], list(obj.dimensions)[::-1],
                                                                           [n + 1, 1, 1], list(obj.dimensions) + [1]])
        arg = tuple(dims) if rng.random() < .5 else list(dims)
        call(rec, 'unflatten', {"dims": dims}, o, lambda: o.unflatten(arg, useLog=False))
    frame(rec, obj, was)


def arith(rec, rng, obj):
    r = rng.random()
    if any(v is None for v in cells(obj)):       # None outside of treatAsMissing is no missing value
        return None
    ro = hasattr(obj, '_source')
    safe = ops3.ARITH if dyadic(obj) else ['+', '-', '*']
    if r < .35:
        op = rng.choice(safe)
        c = ops3.scalar_for(rng, op)
        rev = rng.random() < .3 and op != '**'
        inp = not rev and not ro and rng.random() < .3
        if inp:
            f = lambda: ops3.IAR[op](obj, c) and None        # noqa: E731
        else:
            f = (lambda: ops3.AR[op](c, obj)) if rev else (lambda: ops3.AR[op](obj, c))
        return call(rec, 'binScalar', {"bop": op, "c": enc.cell(c), "rev": rev, "inp": inp}, obj, f)
    if r < .55:
        op = rng.choice(['pos', 'neg', 'abs'])
        return call(rec, 'unary', {"uop": op}, obj, lambda: ops3.UN[op](obj))
    u = similar(rec, rng, obj, n=len(obj.points), names=obj.points.getNames() if rng.random() < .6 else None)
    if u is None:
        return
    uj = table(u)
    op = rng.choice(['+', '-', '*'])
    if r < .65:
        call(rec, 'approx', {"u": uj}, obj, lambda: obj.isApproximatelyEqual(u)) if not (strs(obj) or miss(obj) or strs(u)) else None
    elif r < .75:
        v = obj.copy() if rng.random() < .6 else u
        vj = table(v)
        if not (miss(obj) or miss(v)):
            call(rec, 'identical', {"u": vj}, obj, lambda: obj.isIdentical(v) if rng.random() < .5 else obj == v)
    else:
        inp = not ro and rng.random() < .25
        f = (lambda: ops3.IAR[op](obj, u) and None) if inp else (lambda: ops3.AR[op](obj, u))
        call(rec, 'binTable', {"bop": op, "u": uj, "inp": inp}, obj, f)
    frame(rec, u, uj)


def others(rec, rng, obj):
    r = rng.random()
    n = len(obj.points)
    if r < .3:
        k, bv = rng.randint(1, 3), rng.random() < .5
        return call(rec, 'repeat', {"k": k, "byVec": bv}, obj, lambda: obj.points.repeat(k, bv))
    if r < .55:
        if any(type(v) not in (int, float, str) for v in cells(obj)) or miss(obj):
            return None
        return call(rec, 'unique', {"w": 0}, obj, lambda: obj.points.unique())
    if r < .8 and n > 1:
        k = rng.randint(1, n - 1)
        return call(rec, 'split', {"k": k}, obj, lambda: obj.trainAndTestSets(k / n, randomOrder=False, useLog=False))
    if len(obj._dims) > 2 and rng.random() < .25:
        return call(rec, 'refused', {"w": 0, "what": "text file"}, obj, lambda: as_text(obj, rng.choice(['csv', 'mtx'])))
    fmt = rng.choice(['pickle', 'hdf5'])
    num = all(type(v) in (int, float) for v in cells(obj))
    if fmt == 'hdf5' and (not num or n == 1):
        return None
    inc = any(obj.points.getNames()) if fmt == 'hdf5' else True
    pn = obj.points.getNames()

    def save():
        with tempfile.TemporaryDirectory() as dr:
            p = os.path.join(dr, 'x.' + fmt)
            obj.save(p) if inc else obj.save(p, includeNames=False)
            return nimble.data(p, returnType=obj.getTypeString(), useLog=False)
    return call(rec, 'saved', {"fmt": fmt, "odd": fmt == 'hdf5' and (any(pn) and not all(pn) or n == 1), "names": inc}, obj, save)


def as_text(obj, fmt):
    with tempfile.TemporaryDirectory() as dr:
        obj.save(os.path.join(dr, 'x.' + fmt))


REFUSED = [
    lambda o: o.T, lambda o: o.transpose(useLog=False), lambda o: o.features.copy(0), lambda o: o.features.extract(0, useLog=False),
    lambda o: o.features.delete(0, useLog=False), lambda o: o.features.sort(lambda f: 1, useLog=False),
    lambda o: o.features.permute(useLog=False), lambda o: o.points.transform(lambda p: p, useLog=False),
    lambda o: o.points.calculate(lambda p: 1, useLog=False), lambda o: o.features.transform(lambda p: p, useLog=False),
    lambda o: o.transformElements(lambda x: x, useLog=False), lambda o: o.calculateOnElements(lambda x: x, useLog=False),
    lambda o: o[0, 0], lambda o: o[0], lambda o: len(o), lambda o: list(o), lambda o: list(o.iterateElements()),
    lambda o: o.points.matching(lambda p: True), lambda o: o.countElements(lambda x: True), lambda o: o.matchingElements(lambda x: True),
    lambda o: o.replaceRectangle(1, 0, 0, 0, 0, useLog=False), lambda o: o.merge(o.copy(), useLog=False),
    lambda o: o.groupByFeature(0, useLog=False), lambda o: o.points.mapReduce(lambda p: [], lambda i, v: None, useLog=False),
    lambda o: o.features.append(o.copy(), useLog=False), lambda o: o & o, lambda o: ~o, lambda o: o.inverse(),
    lambda o: o @ o, lambda o: o.matrixPower(2), lambda o: o.points.copy(lambda p: True), lambda o: o.points.copy('h0 == 1'),
    lambda o: o.copy('list of dict'), lambda o: o.copy('python list', outputAs1D=True), lambda o: o.copy('python list', rowsArePoints=False),
    lambda o: o.copy('List', rowsArePoints=False), lambda o: o.copy('scipy csr'), lambda o: o.flatten('feature', useLog=False),
    lambda o: o.unflatten((1, 1, 1, 7), useLog=False), lambda o: o.stretch, lambda o: o.features.normalize(lambda v: v, useLog=False),
    lambda o: o.points.fillMatching(0, 1, useLog=False), lambda o: o.features.fillMatching(0, 1, useLog=False),
    lambda o: o.features.splitByParsing(0, 1, ['q', 'r'], useLog=False), lambda o: o.featureView(0), lambda o: o.features.unique(),
    lambda o: o.features.repeat(2, True), lambda o: o.points.splitByCollapsingFeatures([0], 'a', 'b', useLog=False),
    lambda o: o.points.combineByExpandingFeatures(0, 1, useLog=False), lambda o: o.replaceFeatureWithBinaryFeatures(0, useLog=False),
    lambda o: o.transformFeatureToIntegers(0, useLog=False), lambda o: o.features[0], lambda o: list(o.features),
    lambda o: o.points.similarities('correlation'), lambda o: o.features.statistics('mean'), lambda o: o.points.statistics('mean'),
    lambda o: o.countUniqueElements(), lambda o: o.solveLinearSystem(o), lambda o: o.trainAndTestSets(.5, labels=0, useLog=False),
    lambda o: o.__setitem__((0, 0), 5), lambda o: o.features.retain(0, useLog=False), lambda o: o.points.count(lambda p: True),
    lambda o: o.view(0, 0, 0, 0) if len(o.features) > 1 else o.T, lambda o: o.hashCode(),
]


def refused(rec, rng, obj):
    k = rng.randrange(len(REFUSED))
    call(rec, 'refused', {"w": k}, obj, lambda: REFUSED[k](obj))


EDITS = [structural, structural, names, permute, sort, insert, insert, replace]
READS = [reads, reads, reads, shape, arith, arith, others, others, refused, apart]


def scenario(rec, rng, ty):
    view = rng.random() < .12
    obj = build(rec, rng, ty, gen_hd(rng, num=ty == 'Sparse' or rng.random() < .4), view=view)
    if obj is None:
        return
    for _ in range(rng.randint(2, 5)):
        if len(obj.points) == 0 or len(obj.points) * len(obj.features) > 60 or len(obj.dimensions) == 2:
            break
        rng.choice(READS if view or rng.random() < .5 else EDITS)(rec, rng, obj)
