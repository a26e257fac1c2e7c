"""D06: several live objects.  Even scenarios replay a history enumerated by
TLC from spec/HeapPlan, odd ones are random histories over the operations of
the other drivers."""
import os
import ast
import operator
import numpy as np
import pandas as pd
import scipy.sparse
import nimble
from nimble.core.data import BaseView
from nv import gen, enc, heap, ops, ops2, ops3, ops5, ops8

PLANS = None


def plans():
    global PLANS
    if PLANS is None:
        with open(os.environ['NV_PLANS']) as f:
            PLANS = [ast.literal_eval(x.strip().replace("<<", "[").replace(">>", "]")) for x in f if x.strip()]
    return PLANS


def same(rec, obj, fn, op='frameCall'):
    """a call that must not change anything"""
    rec.call(op, {"w": 0}, obj, fn, enc_ret=lambda r: ["none"])


def scribble(x):
    """overwrite raw data in place, as far as it lets us"""
    try:
        if isinstance(x, list):
            for r in x:
                if isinstance(r, list):
                    for j in range(len(r)):
                        r[j] = 77
                elif isinstance(r, dict):
                    for j in r:
                        r[j] = 77
            x.append([77])
        elif isinstance(x, dict):
            for k in x:
                x[k][:] = [77] * len(x[k])
        elif isinstance(x, pd.DataFrame):
            x.iloc[:, :] = 77
            x.values[:] = 78
        elif scipy.sparse.issparse(x):
            x.data[:] = 77
            for a in ('row', 'col', 'indices'):
                if hasattr(x, a) and len(getattr(x, a)):
                    getattr(x, a)[:] = 0
        else:
            x[...] = 77
    except ValueError:      # a read-only array cannot hurt
        pass


RAW = ['pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc', 'scipycoo', 'pandasdataframe', 'listofdict', 'dictoflist']


def rawout(rec, rng, obj):
    num = obj.copy('numpyarray').dtype != object      # (this scipy has no sparse object arrays)
    fmt = rng.choice([f for f in RAW if num or 'scipy' not in f])
    if len(obj.points) == 0 or len(obj.features) == 0:
        return
    kw = {} if rng.random() < .7 else {'rowsArePoints': False}
    if fmt in ('pythonlist', 'numpyarray') and (len(obj.points) == 1 or len(obj.features) == 1) and rng.random() < .3:
        kw = {'outputAs1D': True}

    def run():
        scribble(obj.copy(fmt, **kw))
    same(rec, obj, run)


def p_raw(rng, tab, ty):
    """built from raw data that is overwritten afterwards"""
    k = rng.randrange(6)
    pn, fn = gen.nm(tab.pn), gen.nm(tab.fn)
    num = gen.sparseable(tab)
    if k == 0 or tab.n == 0 or tab.m == 0:
        src = [list(r) for r in tab.d]
    elif k in (1, 2) and num:
        src = np.array(tab.d, dtype=None if gen.isint(tab) else float)
        if k == 2:
            src = np.asfortranarray(src)
    elif k == 3 and num:
        a = np.array(tab.d, dtype=None if gen.isint(tab) else float)
        src = rng.choice([scipy.sparse.coo_matrix, scipy.sparse.csr_matrix, scipy.sparse.csc_matrix])(a)
    elif k == 4:
        src = pd.DataFrame([list(r) for r in tab.d])
        if not num:
            src = src.astype(object)
    elif num:                       # this scipy has no sparse object arrays
        src = [list(r) for r in tab.d]
    else:
        src = np.empty((tab.n, tab.m), dtype=object)
        for i in range(tab.n):
            for j in range(tab.m):
                src[i, j] = tab.d[i][j]
    names = [list(pn) if pn else False, list(fn) if fn else False]
    obj = nimble.data(src, pointNames=names[0], featureNames=names[1], returnType=ty, useLog=False)
    scribble(src)
    for x in names:
        if x:
            x[0] = 'scribbled'
    return obj


def odd_cells(obj):
    """booleans and None, which the numeric matchers of fill treat by type"""
    return any(v is None or isinstance(v, (bool, np.bool_)) for r in obj.copy('python list') for v in r)


def names_out(rec, rng, obj):
    def run():
        for ax in (obj.points, obj.features):
            x = ax.getNames()
            if x:
                x[0] = 'scribbled'
    same(rec, obj, run)


# --- plan steps -----------------------------------------------------------------
def ident(k):
    return ["i", k]


def view(rec, obj, ps, pe, fs, fe):
    js = [["none"] if x is None else ["i", x] for x in (ps, pe, fs, fe)]
    return rec.call("view", {"ps": js[0], "pe": js[1], "fs": js[2], "fe": js[3]}, obj, lambda: obj.view(ps, pe, fs, fe))


def newval(rng, obj):
    """a value for an edit: same kind, another kind of number, or text"""
    r = rng.random()
    if r < .35:
        return rng.randint(10, 99)
    if r < .7 or obj.getTypeString() == 'Sparse':
        return rng.randint(10, 99) + .5
    if r < .85:
        return 0
    return 'txt%d' % rng.randint(0, 9)


def step(rec, rng, kind, obj, arg):
    n, m = len(obj.points), len(obj.features)
    isv = isinstance(obj, BaseView)
    if kind == 'vall':
        return view(rec, obj, None, None, None, None)
    if kind == 'vrow':
        if rng.random() < .5:
            return view(rec, obj, 0, 0, None, None)
        return rec.call("view", {"ps": ident(0), "pe": ident(0), "fs": ["none"], "fe": ["none"]}, obj, lambda: obj.pointView(0))
    if kind == 'vcol':
        if rng.random() < .5:
            return view(rec, obj, None, None, m - 1, m - 1)
        return rec.call("view", {"ps": ["none"], "pe": ["none"], "fs": ident(m - 1), "fe": ident(m - 1)}, obj,
                        lambda: obj.featureView(m - 1))
    if kind == 'vcell':
        return view(rec, obj, 0, 0, m - 1, m - 1)
    if kind == 'copy':
        return rec.call("copyTo", {"ty": obj.getTypeString(), "rows": True}, obj, lambda: obj.copy())
    if kind == 'deep':
        import copy
        f = rng.choice([copy.copy, copy.deepcopy])
        return rec.call("copyTo", {"ty": obj.getTypeString(), "rows": True}, obj, lambda: f(obj))
    if kind == 'convert':
        t = gen.Tab(obj.copy('python list'), m, [], [])
        ty = gen.any_type(rng, t)
        return rec.call("copyTo", {"ty": ty, "rows": True}, obj, lambda: obj.copy(to=ty))
    if kind == 'sub':
        ax = rng.choice('pf')
        k = n if ax == 'p' else m
        sel = list(range(k)) if rng.random() < .5 else [rng.randrange(k)]
        a = ops.axis(obj, ax)
        return rec.call("structural", {"ax": ax, "op": "copy", "num": 0, "rand": False,
                                       "sel": {"k": "ids", "ids": [["i", x] for x in sel]}}, obj, lambda: a.copy(sel, useLog=False))
    if kind == 'T':
        return rec.call("T", {"w": 0}, obj, lambda: obj.T)
    if kind == 'rawout':
        return rawout(rec, rng, obj)
    if kind == 'arith':
        if not gen.isnumeric(gen.Tab(obj.copy('python list'), m, [], [])):
            return ops8.getitem(rec, rng, obj)
        # operations whose result could be the same storage
        return rng.choice([lambda: ops.repeat(rec, rng, obj), lambda: ops3.unary(rec, rng, obj), lambda: ops3.bin_scalar(rec, rng, obj),
                           lambda: ops2.calc_elements(rec, rng, obj)])()
    if kind == 'set':
        i, j, v = 0, m - 1, newval(rng, obj)

        def put():
            obj[i, j] = v
        return rec.call('rectConst', {"c": enc.cell(v), "ps": ident(i), "fs": ident(j), "pe": ident(i), "fe": ident(j)}, obj, put)
    if kind == 'rect':
        v = newval(rng, obj)
        if isinstance(v, str):
            v = 12.5
        return rec.call('rectConst', {"c": enc.cell(v), "ps": ident(0), "fs": ident(m - 1), "pe": ident(n - 1), "fe": ident(m - 1)},
                        obj, lambda: obj.replaceRectangle(v, 0, m - 1, n - 1, m - 1, useLog=False))
    if kind == 'elem':
        return ops2.transform_elements(rec, rng, obj)
    if kind == 'vec':
        return ops2.axis_transform(rec, rng, obj)
    if kind == 'iadd':
        c = rng.choice([1, 2, .5, 1.5])
        op, fn = rng.choice([('+', operator.iadd), ('-', operator.isub), ('*', operator.imul), ('/', operator.itruediv)])
        if not all(isinstance(v, (int, float)) and not isinstance(v, bool) for r in obj.copy('python list') for v in r):
            return ops.set_names(rec, rng, obj)
        return rec.call("binScalar", {"op": op, "c": enc.cell(c), "rev": False, "inp": True}, obj, lambda: fn(obj, c) and None)
    if kind == 'fill':
        if odd_cells(obj):
            return ops.set_names(rec, rng, obj)
        return ops2.do_fill(rec, rng, obj)
    if kind == 'names':
        return ops.set_names(rec, rng, obj)
    if kind == 'permute':
        return rng.choice([ops.permute, ops.permute, ops.sort, ops.transpose])(rec, rng, obj)
    if kind == 'append':
        ax = rng.choice('pf')
        a = ops.axis(obj, ax)
        return rec.call("insert", {"ax": ax, "other": enc.table(arg), "at": ["end"]}, obj, lambda: a.append(arg, useLog=False))
    if kind == 'binary':
        num = lambda o: all(isinstance(v, (int, float)) and not isinstance(v, bool) for r in o.copy('python list') for v in r)
        if not (num(obj) and num(arg)):
            return rec.call("identical", {"u": enc.table(arg), "mixed": ops8.mixed_missing(obj, arg)}, obj,
                            lambda: obj.isIdentical(arg), enc_ret=ops8.boolean)
        op, fn = rng.choice([('+', operator.add), ('-', operator.sub), ('*', operator.mul)])
        return rec.call("binTable", {"op": op, "u": enc.table(arg), "inp": False}, obj, lambda: fn(obj, arg))
    if kind == 'replaceby':
        u = enc.table(arg)
        return rec.call('rectTable', {"u": u, "ps": ident(0), "fs": ident(0), "pe": ["none"], "fe": ["none"]}, obj,
                        lambda: obj.replaceRectangle(arg, 0, 0, useLog=False))
    raise ValueError(kind)


def replay(rec, rng, i):
    ps = plans()
    short = [p for p in ps if len(p) == 2]
    if i < 4 * len(short):           # every history of two steps on every type
        plan, ty = short[i // 4], gen.TYPES[i % 4]
    else:
        long = ps[len(short):]
        k = (i - 4 * len(short)) * 7919 + rec.seed * 31
        plan, ty = long[k % len(long)], gen.TYPES[(k // len(long) + k) % 4]
    kinds = ('int', 'half', 'miss', 'int', 'float') if ty == 'Sparse' else ('int', 'half', 'miss', 'str', 'mixed', 'int', 'none')
    tab = gen.gen_table(rng, kinds=kinds, nr=(2, 3), mr=(2, 3))
    obj = rec.build(rng, tab, ty, prov=p_raw if rng.random() < .3 else None)
    if obj is None:
        return
    slots = [obj]
    for kind, k, j in plan:
        if k > len(slots) or j > len(slots):
            break
        o, arg = slots[k - 1], slots[j - 1] if j else None
        if rec.id_of(o) == 0 or (arg is not None and rec.id_of(arg) == 0):
            break                              # the view went with its source
        if len(o.points) * len(o.features) > 40:
            break
        r = step(rec, rng, kind, o, arg)
        if kind[0] == 'v' and kind != 'vec' or kind in ('copy', 'deep', 'convert', 'sub', 'T', 'arith', 'rawout'):
            slots.append(r if r is not None and rec.id_of(r) else o)


STEPS = [ops.structural, ops.structural, ops.permute, ops.sort, ops.insert, ops.insert, ops.transpose, ops.set_names,
         ops2.transform_elements, ops2.calc_elements, ops2.axis_transform, ops2.axis_calculate, ops2.match_elements,
         ops2.replace, ops2.rect, ops2.setitem, ops2.setitem, ops2.do_fill, ops3.bin_scalar, ops3.bin_table, ops3.unary,
         ops8.getitem, ops8.views, ops8.views, ops8.views, ops8.iterate, rawout, names_out, ops.repeat, ops.unique]


def scenario(rec, rng, i, tier):
    h = heap.HeapRec(rec, i)
    h.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if i % 2 == 0:
        return replay(h, rng, i // 2)
    ty = gen.TYPES[(i // 2) % 4]
    tab = gen.gen_table(rng, nr=(1, 4), mr=(1, 4))
    if h.build(rng, tab, ty, prov=p_raw if rng.random() < .3 else None) is None:
        return
    for _ in range(rng.randint(3, 8)):
        obj = h.pick(rng, view=True) if rng.random() < .2 else None
        obj = obj if obj is not None else h.pick(rng)
        if obj is None:
            break
        n, m = len(obj.points), len(obj.features)
        if n * m > 30 or n * m == 0:
            continue
        f = rng.choice(STEPS)
        if f in (ops3.bin_scalar, ops3.bin_table, ops3.unary):
            d = obj.copy('python list')
            if not gen.sparseable(gen.Tab(d, m, [], [])) or any(abs(v) > 999 for r in d for v in r if v == v and v is not None):
                continue
        if f is ops2.do_fill and odd_cells(obj):
            continue
        f(h, rng, obj)
