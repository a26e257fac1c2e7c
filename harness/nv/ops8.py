"""Reading objects: item access, iteration, names, views, equality,
conversions, match functions and query strings (spec/Query.tla)."""
import copy
import numpy as np
import pandas as pd
import scipy.sparse
import nimble
from . import enc, gen, core, ops

nan = float('nan')


def kind(v):
    if v is None:
        return 'none'
    if isinstance(v, (bool, np.bool_)):
        return 'bool'
    if isinstance(v, (int, np.integer)):
        return 'int'
    if isinstance(v, (float, np.floating)):
        return 'float'
    return 'str' if isinstance(v, str) else 'other'


def kinds(obj):
    return [[kind(obj[i, j]) for j in range(len(obj.features))] for i in range(len(obj.points))]


def tabs(r):
    return ["ts", [["t", core.observe(x)] for x in r]]


def cells(r):
    return ["l", [enc.cell(v) for v in r]]


def item(r):
    return core.ret_enc(r) if isinstance(r, core.Base) else ["c", enc.cell(r)]


def boolean(r):
    return ["b", bool(r)] if isinstance(r, (bool, np.bool_)) else ["kind", type(r).__name__]


# --- item access -----------------------------------------------------------
def key_of(rng, names, one=.4, axiskey=False):
    n = len(names)
    r = rng.random()
    if r < one or n == 0:
        if rng.random() < .12:
            k = rng.randrange(-n - 1, n + 2)
            if rng.random() < .3:
                return {"k": "one", "id": ["s", "<frac>"]}, k + .5
            return {"k": "one", "id": ["i", k]}, rng.choice([float(k), np.float64(k)])
        j, p = ops.one_id(rng, names, bad=.08)
        if isinstance(p, int) and not isinstance(p, bool) and rng.random() < .15:
            p = np.int64(p)
        return {"k": "one", "id": j}, p
    if r < one + .22:
        js, ps = ops.id_list(rng, names, bad=.05)
        if ps and rng.random() < .08:
            js, ps = js + js[:1], ps + ps[:1]
        if all(isinstance(x, int) for x in ps) and ps and rng.random() < .3:
            return {"k": "list", "ids": js}, np.array(ps)
        if not ps and n == 0:
            return key_of(rng, names, 1)
        return {"k": "list", "ids": js}, ps
    if r < one + .3:
        b = [rng.random() < .5 for _ in range(n)]
        return {"k": "mask", "b": b}, (np.array(b) if rng.random() < .5 else b)
    s = e = None
    js = je = ["none"]
    if rng.random() < .7:
        js, s = ops.one_id(rng, names, bad=.04)
    if rng.random() < .7:
        je, e = ops.one_id(rng, names, bad=.04)
    st = rng.choice([None, None, None, 1, 2, -1, -2])
    return {"k": "slice", "s": js, "e": je, "step": 1 if st is None else st}, slice(s, e, st)


def getitem(rec, rng, obj):
    pn, fn = obj.points.getNames(), obj.features.getNames()
    r = rng.random()
    if r < .6:
        x, px = key_of(rng, pn)
        y, py = key_of(rng, fn)
        rec.call("getitem", {"x": x, "y": y}, obj, lambda: obj[px, py], enc_ret=item)
    elif r < .8:
        ax = rng.choice('pf')
        k, p = key_of(rng, pn if ax == 'p' else fn)
        a = ops.axis(obj, ax)
        rec.call("axisItem", {"ax": ax, "key": k}, obj, lambda: a[p])
    else:
        names = fn if len(pn) == 1 else pn if len(fn) == 1 else rng.choice([pn, fn])
        k, p = key_of(rng, names, one=.7 if min(len(pn), len(fn)) == 1 else 1)
        rec.call("getitem1", {"key": k}, obj, lambda: obj[p], enc_ret=item)


def views(rec, rng, obj):
    pn, fn = obj.points.getNames(), obj.features.getNames()

    def end(names, p=.6):
        if rng.random() > p:
            return ["none"], None
        return ops.one_id(rng, names, bad=.05)
    r = rng.random()
    if r < .55:
        (a, pa), (b, pb), (c, pc), (d, pd_) = end(pn), end(pn), end(fn), end(fn)
        rec.call("view", {"ps": a, "pe": b, "fs": c, "fe": d}, obj, lambda: obj.view(pa, pb, pc, pd_))
    elif r < .75:
        a, pa = ops.one_id(rng, pn, bad=.08)
        rec.call("view", {"ps": a, "pe": a, "fs": ["none"], "fe": ["none"]}, obj, lambda: obj.pointView(pa))
    else:
        a, pa = ops.one_id(rng, fn, bad=.08)
        rec.call("view", {"ps": ["none"], "pe": ["none"], "fs": a, "fe": a}, obj, lambda: obj.featureView(pa))


ONLY = {"all": None, "missing": nimble.match.missing, "nonMissing": nimble.match.nonMissing, "zero": nimble.match.zero,
        "nonZero": nimble.match.nonZero, "positive": nimble.match.positive, "negative": nimble.match.negative,
        "infinity": nimble.match.infinity}


def iterate(rec, rng, obj):
    r = rng.random()
    if r < .4:
        ax = rng.choice('pf')
        a = ops.axis(obj, ax)
        rec.call("iterAxis", {"ax": ax}, obj, lambda: list(a), enc_ret=tabs)
    elif r < .75:
        o = rng.choice(['point', 'feature'])
        k = rng.choice(list(ONLY)) if rng.random() < .6 else 'all'
        rec.call("iterElems", {"order": o, "only": k}, obj,
                 lambda: list(obj.iterateElements(order=o, only=ONLY[k])), enc_ret=cells)
    elif r < .9:
        rec.call("iterVec", {"x": 0}, obj, lambda: list(obj), enc_ret=cells)
    else:
        rec.call("len", {"x": 0}, obj, lambda: len(obj))


def names(rec, rng, obj):
    ax = rng.choice('pf')
    a = ops.axis(obj, ax)
    ns = a.getNames()
    k = rng.choice(['getIndex', 'getIndices', 'getName', 'getNames', 'hasName', 'zero'])
    if k == 'getIndex':
        j, p = ops.one_id(rng, ns, bad=.15)
        rec.call(k, {"ax": ax, "id": j}, obj, lambda: a.getIndex(p))
    elif k == 'getIndices':
        ok = [x for x in ns if x is not None]
        if not ok:
            return
        ids = rng.sample(ok, rng.randint(1, len(ok))) + (['nope'] if rng.random() < .1 else [])
        rec.call(k, {"ax": ax, "ids": [["s", x] for x in ids]}, obj, lambda: a.getIndices(ids), enc_ret=cells)
    elif k == 'getName':
        if not ns:
            return
        i = rng.randrange(len(ns))
        rec.call(k, {"ax": ax, "k": i}, obj, lambda: a.getName(i))
    elif k == 'getNames':
        rec.call(k, {"ax": ax}, obj, lambda: a.getNames(), enc_ret=cells)
    elif k == 'hasName':
        nmx = rng.choice([x for x in ns if x] + ['nope', 'p0', 'f0'])
        rec.call(k, {"ax": ax, "nm": nmx}, obj, lambda: a.hasName(nmx), enc_ret=boolean)
    else:
        rec.call("containsZero", {"x": 0}, obj, lambda: obj.containsZero(), enc_ret=boolean)


# --- equality and conversion ------------------------------------------------
def tweak(rng, tab):
    t = tab.copy()
    r = rng.random()
    if r < .45 and t.n and t.m:
        i, j = rng.randrange(t.n), rng.randrange(t.m)
        v = t.d[i][j]
        if isinstance(v, bool):
            t.d[i][j] = not v
        elif isinstance(v, str):
            t.d[i][j] = rng.choice(gen.STR)
        elif v is None or v != v:
            t.d[i][j] = rng.choice([0, 1]) if r < .2 else type(v)(0) if v is not None else 1.0
        else:
            t.d[i][j] = rng.choice([v + 1, 0, type(v)(0), -v] + ([nan] if isinstance(v, float) else []))
    elif r < .6 and t.n > 1:
        i, k = rng.sample(range(t.n), 2)
        t.d[i], t.d[k] = t.d[k], t.d[i]
    elif r < .75:
        t.pn = gen.gen_names(rng, gen.PN, t.n)
    elif r < .9:
        t.fn = gen.gen_names(rng, gen.FN, t.m)
    elif t.n > 1:
        t.d.pop()
        t.pn.pop()
    return t


def mixed_missing(*objs):
    s = set()
    for o in objs:
        for r in o.copy('python list'):
            for v in r:
                if v is None:
                    s.add('none')
                elif v != v:
                    s.add('nan')
    return len(s) > 1


def equality(rec, rng, ty):
    tab = gen.gen_table(rng, kinds=gen.ALLK, nr=(0 if rng.random() < .1 else 1, 3), mr=(1, 3))
    other = tab if rng.random() < .55 else tweak(rng, tab)
    a = rec.build(rng, tab, ty, view=rng.random() < .25)
    b = rec.build(rng, other, ty if rng.random() < .8 else None, view=rng.random() < .25)
    if a is None or b is None:
        return
    for _ in range(rng.randint(0, 2)):      # equality must not depend on what was done before
        iterate(rec, rng, rng.choice([a, b]))
    try:
        was = core.observe(b)
    except core.Unobservable as e:
        return rec.bad(str(e))
    mm = mixed_missing(a, b)
    r = rng.random()
    if r < .35:
        rec.call("identical", {"u": was, "mixed": mm}, a, lambda: a.isIdentical(b), enc_ret=boolean)
    elif r < .7:
        rec.call("identical", {"u": was, "mixed": mm}, a, lambda: a == b, enc_ret=boolean)
    elif r < .8:
        rec.call("identical", {"u": was, "mixed": mm}, a, lambda: not a != b, enc_ret=boolean)
    else:
        fin = all(isinstance(v, (int, float)) and v == v for t in (tab, other) for row in t.d for v in row)
        if fin:
            rec.call("approx", {"u": was}, a, lambda: a.isApproximatelyEqual(b), enc_ret=boolean)
    from . import ops3
    ops3.frame(rec, b, was)


RAWS = ['python list', 'numpy array', 'numpy matrix', 'scipy csr', 'scipy csc', 'scipy coo', 'pandas dataframe',
        'pythonlist', 'Numpy Array', 'list of dict', 'dict of list']


def raw(x):
    if isinstance(x, pd.DataFrame):
        x = x.to_numpy(dtype=object).tolist() if len(x.columns) else [[] for _ in range(len(x))]
    elif scipy.sparse.issparse(x):
        x = x.toarray().tolist()
    elif isinstance(x, np.ndarray):
        x = np.asarray(x).tolist()
    return ["g", [[enc.cell(v) for v in r] for r in x]]


def conversions(rec, rng, obj, numeric):
    r = rng.random()
    rows = rng.random() < .7
    if r < .3:
        ty = rng.choice(gen.TYPES if numeric else ('List', 'Matrix', 'DataFrame'))
        kw = {} if rows and rng.random() < .5 else {"rowsArePoints": rows}
        rec.call("copyTo", {"ty": ty, "rows": rows}, obj, lambda: obj.copy(to=ty, **kw))
    elif r < .4:
        fn = rng.choice([copy.copy, copy.deepcopy, lambda o: o.copy()])
        rec.call("copyTo", {"ty": obj.getTypeString(), "rows": True}, obj, lambda: fn(obj))
    elif r < .55:
        to = rng.choice(['python list', 'numpy array'])
        rec.call("copyFlat", {"to": to}, obj, lambda: obj.copy(to, outputAs1D=True),
                 enc_ret=lambda x: ["l", [enc.cell(v) for v in (x.tolist() if isinstance(x, np.ndarray) else x)]])
    else:
        to = rng.choice(RAWS[:-2]) if rng.random() < .7 else rng.choice(RAWS[-2:])
        if 'scipy' in to and not numeric:
            return
        if len(obj.points) == 0 or len(obj.features) == 0:
            return
        if to == 'list of dict':
            def er(x):
                ks = list(x[0])
                return ["g", [[enc.cell(k) for k in ks]] + [[enc.cell(d[k]) for k in ks] for d in x]]
            rec.call("copyDicts", {"to": to, "rows": rows}, obj, lambda: obj.copy(to, rowsArePoints=rows), enc_ret=er)
        elif to == 'dict of list':
            def er(x):
                ks = list(x)
                return ["g", [[enc.cell(k) for k in ks]] + [[enc.cell(x[k][i]) for k in ks] for i in range(len(x[ks[0]]))]]
            rec.call("copyDicts", {"to": to, "rows": rows}, obj, lambda: obj.copy(to, rowsArePoints=rows), enc_ret=er)
        else:
            rec.call("copyRaw", {"to": to, "rows": rows}, obj, lambda: obj.copy(to, rowsArePoints=rows), enc_ret=raw)


# --- match functions ----------------------------------------------------------
def value(rng):
    return rng.choice([0, 1, -1, 3, 0.0, 2.5, -0.5, nan, None, True, False, 'a', '', '0', '-1', 'nan', 'True', float('inf'),
                       -float('inf'), np.int64(0), np.int32(-2), np.float64(1.5), np.float32(0), np.float64('nan'),
                       np.bool_(True), np.bool_(False), np.float64('inf')])


def vj(v):
    return {"c": enc.cell(v), "t": kind(v)}


FNS = ['missing', 'nonMissing', 'numeric', 'nonNumeric', 'zero', 'nonZero', 'positive', 'negative', 'infinity',
       'boolean', 'integer', 'floating', 'true', 'false']


def cap(f):
    return f[0].upper() + f[1:]


def match(rec, rng, ty):
    r = rng.random()
    f = rng.choice(FNS)
    t0 = {"d": [], "m": 0, "pn": [], "fn": [], "ty": ""}

    def ev(op, a, fn):
        exc, ret = "", ["none"]
        try:
            ret = boolean(fn())
        except Exception as e:
            exc = type(e).__name__
        rec.emit(op, a, t0, t0, ret, exc)
    if r < .4:
        v = value(rng)
        if f == 'integer' and kind(v) == 'bool':
            return
        ev("matchFn", {"f": f, "v": vj(v)}, lambda: getattr(nimble.match, f)(v))
        return
    q = rng.choice(['any', 'all'])
    form = rng.random()

    def run(data):
        if form < .5:
            return getattr(nimble.match, q + cap(f))(data)
        return getattr(nimble.match, q + 'Values')(getattr(nimble.match, f))(data)
    if r < .6:
        vs = [value(rng) for _ in range(rng.randint(0, 4))]
        if f == 'integer':
            vs = [v for v in vs if kind(v) != 'bool']
        ev("matchAll", {"q": q, "f": f, "vs": [vj(v) for v in vs]}, lambda: run(vs))
        return
    tab = gen.gen_table(rng, kinds=('int', 'half', 'float', 'miss', 'str', 'mixed', 'bool', 'none', 'pos'), nr=(1, 3), mr=(1, 3))
    obj = rec.build(rng, tab, ty, view=rng.random() < .3)
    if obj is None:
        return
    if f in ('integer', 'floating') and obj.getTypeString() == 'Sparse':
        return      # whether zeros that are not stored are int or float depends on the storage
    if f in ('integer', 'floating', 'boolean', 'true', 'false') and len({kind(v) for row in tab.d for v in row}) > 1:
        return
    ks = kinds(obj)
    if f == 'integer' and any(k == 'bool' for row in ks for k in row):
        return
    if f == 'nonNumeric' and any(k == 'none' for row in ks for k in row):
        return
    vs = [{"c": enc.cell(obj[i, j]), "t": ks[i][j]} for i in range(tab.n) for j in range(tab.m)]
    ev("matchAll", {"q": q, "f": f, "vs": vs}, lambda: run(obj))


# --- query strings ------------------------------------------------------------
ACC = FNS + ['True', 'False', 'None']
CMP = ['==', '!=', '>=', '>', '<=', '<']
VAL = ['0', '1', '2', '-1', '2.5', '0.5', 'a', 'cc', 'B', 'd e', 'zz', 'True', '5', '3', 'nan', '1e0']


def want_of(ws):
    """the value of a comparison, as python's float() reads it"""
    at = [i for i, w in enumerate(ws) if w in CMP]
    if len(at) != 1:
        return ["s", ""]
    txt = ' '.join(ws[at[0] + 1:])
    try:
        return enc.cell(float(txt))
    except ValueError:
        return ["s", txt]


def hasbool(tab):
    return any(isinstance(v, (bool, np.bool_)) for row in tab.d for v in row)


def words(rng, name=None, acc=ACC, vals=VAL, odd=.12, order=True):
    r = rng.random()
    ws = [] if name is None else name.split(' ')
    ops_ = CMP if order else CMP[:2]
    if r < odd:
        k = rng.random()
        if k < .25:
            return ws + [rng.choice(ops_), '1', rng.choice(CMP), '2']
        if k < .4:
            return ws + ['is', 'nothing']
        if k < .55:
            return ws + ['is', 'not']
        if k < .7:
            return ['is', 'x'] + [rng.choice(ops_), '1']
        if k < .85:
            return ws + ['missing']
        return ws + [rng.choice(ops_)]
    if r < .55:
        return ws + [rng.choice(ops_)] + rng.choice(vals).split(' ')
    if r < .85:
        return ws + ['is', rng.choice(acc)]
    return ws + ['is', 'not', rng.choice(acc)]


def numeric_only(vals):
    out = []
    for v in vals:
        try:
            if float(v) == float(v):
                out.append(v)
        except ValueError:
            pass
    return out


def query_value(rec, rng, ty):
    v = value(rng)
    num = isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_))
    order = num
    vals = numeric_only(VAL) if num else VAL
    nm = None if rng.random() < .8 else rng.choice(['p0', 'x y', '7'])
    ws = words(rng, nm, acc=[f for f in ACC if f != 'integer' or kind(v) != 'bool'], vals=vals, order=order)
    mode = rng.choice(['free', 'elem', 'axis']) if rng.random() < .4 else 'free'
    from nimble.match import QueryString
    s = ' '.join(ws)
    if len(ws) >= 2 and ws[0] in CMP and rng.random() < .4 and not any(w in CMP for w in ws[1:]):
        s = ws[0] + ' '.join(ws[1:])
    t0 = {"d": [], "m": 0, "pn": [], "fn": [], "ty": ""}
    a = {"ws": ws, "want": want_of(ws), "v": vj(v), "mode": mode}
    exc, ret = "", ["none"]
    try:
        q = QueryString(s, None if mode == 'free' else mode == 'elem')
        ret = boolean(q(v))
    except Exception as e:
        exc = type(e).__name__
    rec.emit("query", a, t0, t0, ret, exc, s)


def homogeneous(tab):
    return len({kind(v) for row in tab.d for v in row}) <= 1


def query_axis(rec, rng, ty):
    kk = rng.choice(['int', 'half', 'miss', 'str', 'mixed', 'bool', 'pos', 'bin'])
    tab = gen.gen_table(rng, kinds=(kk,), nr=(1, 4), mr=(1, 4), pmode=None, fmode=rng.choice(['all', 'some', 'all']))
    odd = ['is it', 'a is b', 'x == y', 'm > n', 'this is']
    for ns in (tab.fn, tab.pn):
        if any(ns) and rng.random() < .25:
            i = rng.choice([i for i, x in enumerate(ns) if x])
            ns[i] = rng.choice(odd)
    obj = rec.build(rng, tab, ty, view=False)
    if obj is None:
        return
    if rng.random() < .7:
        ax = 'p' if tab.m > 1 and rng.random() < .6 else 'f'
        a = ops.axis(obj, ax)
        off = [x for x in (tab.fn if ax == 'p' else tab.pn) if x]
        if ax == 'f' and len(tab.pn) == 1:
            return      # a 1x1 vector is read as a point
        own = [x for x in (tab.pn if ax == 'p' else tab.fn) if x]
        nm = rng.choice(off) if off and rng.random() < .93 else 'nope'
        if rng.random() < .06 and own:
            ws = rng.choice(own).split(' ')
        else:
            strs = any(isinstance(v, str) for row in tab.d for v in row)
            same = homogeneous(tab) and obj.getTypeString() != 'Sparse'
            acc = [f for f in ACC if same and kk != 'bool' or f not in ('integer', 'floating')]
            ws = words(rng, nm, acc=acc, vals=VAL if strs or kk == 'bool' else numeric_only(VAL), order=not strs and kk != 'bool')
        op = rng.choice(['copy', 'extract', 'delete', 'retain', 'count'])
        if 'integer' in ws and hasbool(tab):
            return
        s = ' '.join(ws)
        rec.call("queryStruct", {"ax": ax, "op": op, "kinds": kinds(obj), "ws": ws, "want": want_of(ws)}, obj,
                 lambda: getattr(a, op)(s, **({} if op == 'count' else {"useLog": False})), note=s)
        return
    strs = any(isinstance(v, str) for row in tab.d for v in row)
    same = homogeneous(tab) and obj.getTypeString() != 'Sparse'
    acc = [f for f in ACC if same and (kk != 'bool' or f != 'integer') or f not in ('integer', 'floating', 'boolean', 'true', 'false', 'True', 'False', 'numeric', 'nonNumeric')]
    ws = words(rng, None, acc=acc, vals=VAL if strs or kk == 'bool' else numeric_only(VAL), order=not strs and kk != 'bool')
    if 'integer' in ws and hasbool(tab):
        return
    s = ' '.join(ws)
    if len(ws) >= 2 and ws[0] in CMP and rng.random() < .4 and not any(w in CMP for w in ws[1:]):
        s = ws[0] + ' '.join(ws[1:])
    a = {"kinds": kinds(obj), "ws": ws, "want": want_of(ws)}
    if rng.random() < .5:
        rec.call("queryElems", dict(a, op="count"), obj, lambda: obj.countElements(s), note=s)
    else:
        rec.call("queryElems", dict(a, op="match"), obj, lambda: obj.matchingElements(s, useLog=False), note=s)
