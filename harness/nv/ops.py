"""Random calls of the structural operations, with arguments in the model's
encoding.  Every function makes exactly one recorded call."""
import operator
import numpy as np
from . import enc, gen

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt,
       '<=': operator.le, '>=': operator.ge}


def axis(obj, ax):
    return obj.points if ax == 'p' else obj.features


def other(ax):
    return 'f' if ax == 'p' else 'p'


def one_id(rng, names, bad=0.0, neg=True):
    """(json, python) identifier of a member of the axis"""
    n = len(names)
    if rng.random() < bad or n == 0:
        return rng.choice([(["i", n], n), (["i", -n - 1], -n - 1), (["s", "nope"], "nope")])
    k = rng.randrange(n)
    if names[k] is not None and rng.random() < .5:
        return ["s", names[k]], names[k]
    if neg and rng.random() < .25:
        return ["i", k - n], k - n
    return ["i", k], k


def id_of(rng, names, k):
    n = len(names)
    if names[k] is not None and rng.random() < .4:
        return ["s", names[k]], names[k]
    if rng.random() < .2:
        return ["i", k - n], k - n
    return ["i", k], (np.int64(k) if rng.random() < .1 else k)


def id_list(rng, names, size=None, bad=0.05):
    n = len(names)
    size = rng.randint(0, n) if size is None else size
    ks = rng.sample(range(n), size)
    prs = [id_of(rng, names, k) for k in ks]
    if rng.random() < bad:
        if prs and rng.random() < .4:
            prs.append(prs[0])
        else:
            prs.append(one_id(rng, names, bad=1))
    return [p[0] for p in prs], [p[1] for p in prs]


def pred(rng, obj, ax, lim=None, raising=False):
    """(json, callable) predicate on the vectors of axis ax"""
    off = axis(obj, other(ax)).getNames()
    if lim is not None:
        off = lim
    kinds = ['cmp', 'cmp', 'any', 'all', 'const', 'miss', 'not']
    own = [x for x in axis(obj, ax).getNames() if x is not None]
    if own:
        kinds.append('name')
    k = rng.choice(kinds)
    if ax == 'f' and len(off) == 1:
        off = [None]       # a 1x1 vector is read as a point by nimble
    if not off and k in ('cmp', 'miss'):
        k = 'const'
    strs = any(isinstance(v, str) for r in obj.copy('python list') for v in r)
    if k == 'name':
        v = rng.choice(own)
        return {"k": "name", "v": ["s", v]}, (lambda vec: _vname(vec, ax) == v)
    if k == 'const':
        b = rng.random() < .5
        return {"k": "const", "b": b}, (lambda vec: b)
    if k == 'miss':
        j, p = one_id(rng, off)
        return {"k": "miss", "id": j}, (lambda vec: vec[p] is None or vec[p] != vec[p])
    if k == 'not':
        j, f = pred(rng, obj, ax, lim)
        return {"k": "not", "p": j}, (lambda vec: not f(vec))
    if strs:
        op = rng.choice(['==', '!='])
        v = rng.choice(gen.STR + [0, 1])
    else:
        op = rng.choice(list(OPS))
        v = rng.choice([-1, 0, 0, 1, 2, 2.5])
    f = OPS[op]
    # None compares as a missing value
    def g(x):
        if x is None:
            return op == '!='
        return bool(f(x, v))
    if k == 'cmp':
        j, p = one_id(rng, off)
        return {"k": "cmp", "id": j, "op": op, "v": enc.cell(v)}, (lambda vec: g(vec[p]))
    if k == 'any':
        return {"k": "any", "op": op, "v": enc.cell(v)}, (lambda vec: any(g(x) for x in vec))
    return {"k": "all", "op": op, "v": enc.cell(v)}, (lambda vec: all(g(x) for x in vec))


def _vname(vec, ax):
    names = (vec.points if ax == 'p' else vec.features).getNames()
    return names[0]


def selection(rng, obj, ax, allow_fn=True):
    """(json, kwargs) where kwargs uses key 'target' for the first argument"""
    names = axis(obj, ax).getNames()
    n = len(names)
    r = rng.random()
    if r < .45 and n:
        if rng.random() < .35:
            j, p = one_id(rng, names, bad=.06)
            return {"k": "ids", "ids": [j]}, {"target": p}
        js, ps = id_list(rng, names)
        if not ps:
            js, ps = id_list(rng, names, 1, bad=0)
        if rng.random() < .15 and all(isinstance(x, (int, np.integer)) for x in ps):
            return {"k": "ids", "ids": js}, {"target": np.array(ps)}
        return {"k": "ids", "ids": js}, {"target": ps}
    if r < .68 or not allow_fn:
        kw, j = {}, {"k": "range", "s": ["none"], "e": ["none"]}
        m = rng.choice('sebb')
        a, b = rng.randrange(n + 1) if n == 0 else rng.randrange(n), rng.randrange(max(n, 1))
        if a > b and rng.random() < .9:
            a, b = b, a
        if m in 'sb':
            s = one_id(rng, names, bad=1) if rng.random() < .06 or n == 0 else id_of(rng, names, a)
            j["s"], kw['start'] = s
        if m in 'eb':
            e = one_id(rng, names, bad=1) if rng.random() < .06 or n == 0 else id_of(rng, names, b)
            j["e"], kw['end'] = e
        return j, kw
    if r < .75:
        return {"k": "all"}, {}
    lim = {"k": "none"}
    kw = {}
    limn = None
    offn = axis(obj, other(ax)).getNames()
    if rng.random() < .3 and len(offn) > 1:
        js, ps = id_list(rng, offn, rng.randint(1, len(offn)), bad=.03)
        lim = {"k": "ids", "ids": js}
        kw['features' if ax == 'p' else 'points'] = ps
        idx = [p if not isinstance(p, str) else offn.index(p) if p in offn else 99 for p in ps]
        if all(-len(offn) <= int(p) < len(offn) for p in idx):
            limn = [offn[p] for p in idx]
    j, f = pred(rng, obj, ax, limn)
    kw['target'] = f
    return {"k": "fn", "p": j, "lim": lim}, kw


def structural(rec, rng, obj, ops=('copy', 'extract', 'delete', 'retain', 'count'), number=True, axes='pf'):
    ax = rng.choice(axes)
    op = rng.choice(ops)
    sel, kw = selection(rng, obj, ax)
    num = 0
    if op == 'count':
        js, f = pred(rng, obj, ax)
        sel, kw = {"k": "fn", "p": js, "lim": {"k": "none"}}, {"target": f}
    elif number and rng.random() < .25:
        num = rng.randint(1, len(axis(obj, ax)) + (1 if rng.random() < .2 else 0) or 1)
        kw['number'] = num
    args = []
    tgt = kw.pop('target', None)
    if tgt is not None:
        args = [tgt]
    elif not kw:
        sel = {"k": "ids", "ids": [["i", 0]]} if len(axis(obj, ax)) else {"k": "all"}
        if sel["k"] == "all":
            kw['start'] = None
            return None
        args = [0]
    elif sel["k"] == "all" and num == 0:
        args = []
    a = {"ax": ax, "op": op, "sel": sel, "num": num, "rand": False}
    extra = {} if op == 'count' else {'useLog': False}
    fn = getattr(axis(obj, ax), op)
    return rec.call('structural', a, obj, lambda: fn(*args, **kw, **extra), how=rng.randint(0, 1))


def structural_random(rec, rng, obj):
    """obj: rows and columns pairwise distinct"""
    ax = rng.choice('pf')
    op = rng.choice(['copy', 'extract', 'delete', 'retain'])
    sel, kw = selection(rng, obj, ax)
    num = rng.randint(1, len(axis(obj, ax)) + (1 if rng.random() < .1 else 0))
    args = [kw.pop('target')] if 'target' in kw else []
    a = {"ax": ax, "op": op, "sel": sel, "num": num, "rand": True}
    fn = getattr(axis(obj, ax), op)
    return rec.call('structural', a, obj, lambda: fn(*args, number=num, randomize=True, useLog=False, **kw))


def names_json(ns):
    return ["" if x is None else x for x in ns]


def fresh_names(rng, pool, n, dup=0.08, cur=()):
    out = [None if rng.random() < .25 else x for x in rng.sample(pool, min(n, len(pool)))]
    out += [None] * (n - len(out))
    if cur and rng.random() < .3 and n:
        c = [x for x in cur if x is not None]
        if c:
            out[rng.randrange(n)] = rng.choice(c)
    if rng.random() < dup and n > 1:
        i, j = rng.sample(range(n), 2)
        out[i] = out[j]
    return out


def set_names(rec, rng, obj):
    ax = rng.choice('pf')
    A = axis(obj, ax)
    cur = A.getNames()
    n = len(cur)
    pool = gen.PN if ax == 'p' else gen.FN
    r = rng.random()
    if r < .3:
        new = fresh_names(rng, pool, n + (rng.choice([-1, 1]) if rng.random() < .08 else 0))
        if rng.random() < .3 and n and len(set(new)) == len(new) == n and None not in new:
            arg = {k: i for i, k in enumerate(new)}
        else:
            arg = new
        return rec.call('setNames', {"ax": ax, "new": names_json(new)}, obj, lambda: A.setNames(arg, useLog=False))
    if r < .4:
        return rec.call('setNames', {"ax": ax, "new": [""] * n}, obj, lambda: A.setNames(None, useLog=False))
    if n == 0:
        return None
    if r < .55:
        js, ps = id_list(rng, cur, 1, bad=.05)
        js, ps = js[:1], [p if isinstance(p, str) else int(p) for p in ps[:1]]
        new = [rng.choice(pool) if rng.random() < .8 else None]
        if rng.random() < .4:
            return rec.call('setNamesOld', {"ax": ax, "olds": js, "new": names_json(new)}, obj,
                            lambda: A.setNames(new, oldIdentifiers=ps, useLog=False))
        return rec.call('setNamesOld', {"ax": ax, "olds": js, "new": names_json(new)}, obj,
                        lambda: A.setNames(new[0], oldIdentifiers=ps[0], useLog=False))
    js, ps = id_list(rng, cur, rng.randint(1, n), bad=.06)
    new = fresh_names(rng, pool, len(js), dup=.15, cur=cur)
    return rec.call('setNamesOld', {"ax": ax, "olds": js, "new": names_json(new)}, obj,
                    lambda: A.setNames(new, oldIdentifiers=ps, useLog=False))


def permute(rec, rng, obj):
    ax = rng.choice('pf')
    A = axis(obj, ax)
    cur = A.getNames()
    js, ps = id_list(rng, cur, len(cur), bad=.08)
    if rng.random() < .06 and len(js) > 1:
        js, ps = js[:-1], ps[:-1]
    return rec.call('permute', {"ax": ax, "ids": js}, obj, lambda: A.permute(ps, useLog=False))


def has_strings(obj):
    return any(isinstance(v, str) for r in obj.copy('python list') for v in r)


def has_missing(obj):
    return any(v is None or v != v for r in obj.copy('python list') for v in r)


def column_kinds(obj, ax):
    """per member of the off axis, is it sortable: all numbers or all strings"""
    rows = obj.copy('python list')
    if ax == 'f':
        rows = [list(c) for c in zip(*rows)]
    if not rows:
        return []
    out = []
    for col in zip(*rows):
        if any(v is None or v != v for v in col):
            out.append(False)
        else:
            out.append(len({isinstance(v, str) for v in col}) == 1)
    return out


def sort(rec, rng, obj):
    ax = rng.choice('pf')
    A = axis(obj, ax)
    cur = A.getNames()
    offn = axis(obj, other(ax)).getNames()
    rev = rng.random() < .4
    r = rng.random()
    numeric = not has_strings(obj) and not has_missing(obj)
    if r < .25:
        return rec.call('sort', {"ax": ax, "by": {"k": "names"}, "rev": rev}, obj,
                        lambda: A.sort(reverse=rev, useLog=False))
    if r < .45 and numeric:
        return rec.call('sort', {"ax": ax, "by": {"k": "sum"}, "rev": rev}, obj,
                        lambda: A.sort(lambda v: sum(v), reverse=rev, useLog=False))
    if r < .55 and numeric:
        def cmpf(a, b):
            x, y = sum(a), sum(b)
            return -1 if x < y else 1 if x > y else 0
        return rec.call('sort', {"ax": ax, "by": {"k": "sum"}, "rev": rev}, obj,
                        lambda: A.sort(cmpf, reverse=rev, useLog=False))
    kinds = column_kinds(obj, ax)
    ok = [k for k, b in enumerate(kinds) if b]
    if not ok:
        return None
    if rng.random() < .1:
        j, p = one_id(rng, offn, bad=1)
        return rec.call('sort', {"ax": ax, "by": {"k": "ids", "ids": [j]}, "rev": rev}, obj,
                        lambda: A.sort(p, reverse=rev, useLog=False))
    ks = rng.sample(ok, rng.randint(1, min(3, len(ok))))
    prs = [id_of(rng, offn, k) for k in ks]
    js, ps = [p[0] for p in prs], [p[1] for p in prs]
    arg = ps[0] if len(ps) == 1 and rng.random() < .6 else ps
    return rec.call('sort', {"ax": ax, "by": {"k": "ids", "ids": js}, "rev": rev}, obj,
                    lambda: A.sort(arg, reverse=rev, useLog=False))


def other_for_insert(rec, rng, obj, ax):
    """a second object to insert along ax (names sometimes in conflict)"""
    off = axis(obj, other(ax)).getNames()
    cur = axis(obj, ax).getNames()
    m = len(off)
    k = rng.randint(1, 2)
    strs = has_strings(obj)
    kinds = ('str', 'int', 'half') if strs else ('int', 'half', 'miss', 'float')
    kind = rng.choice(kinds)
    if rng.random() < .06:
        m = m + 1
        off = list(off) + [None]
    rows = [[gen.value(rng, kind) for _ in range(m)] for _ in range(k)]
    pool = [x for x in (gen.PN if ax == 'p' else gen.FN) if x not in cur]
    nms = gen.gen_names(rng, pool, k)
    if rng.random() < .08 and any(cur):
        nms[0] = rng.choice([c for c in cur if c is not None])
    offn = list(off)
    r = rng.random()
    if r < .25:
        offn = [None] * m
    elif r < .5 and all(offn):
        rng.shuffle(offn)
    elif r < .6 and m:
        offn[rng.randrange(m)] = None
    elif r < .68:
        offn = gen.gen_names(rng, gen.FN if ax == 'p' else gen.PN, m, 'all')
    t = gen.Tab(rows, m, nms, offn)
    if ax == 'f':
        t = t.T()
    ty = obj.getTypeString() if rng.random() < .6 else None
    return rec.build(rng, t, ty, view=rng.random() < .2)


def insert(rec, rng, obj):
    ax = rng.choice('pf')
    A = axis(obj, ax)
    cur = A.getNames()
    o = other_for_insert(rec, rng, obj, ax)
    if o is None:
        return None
    oj = enc.table(o)
    if oj['ty'] == 'Sparse' and obj.getTypeString() != 'Sparse' and has_strings(obj):
        pass
    if rng.random() < .4:
        r = rec.call('insert', {"ax": ax, "other": oj, "at": ["end"]}, obj, lambda: A.append(o, useLog=False))
    else:
        if rng.random() < .2:
            at = (["i", len(cur)], len(cur))
        else:
            at = one_id(rng, cur, bad=.06) if rng.random() < .06 else id_of(rng, cur, rng.randrange(len(cur)))
        r = rec.call('insert', {"ax": ax, "other": oj, "at": at[0]}, obj, lambda: A.insert(at[1], o, useLog=False))
    # the inserted object itself is never changed
    rec.call('frame', {"was": oj}, o, lambda: None)
    return r


def repeat(rec, rng, obj):
    ax = rng.choice('pf')
    k = rng.randint(1, 3) if rng.random() < .93 else 0
    bv = rng.random() < .5
    return rec.call('repeat', {"ax": ax, "k": k, "byVec": bv}, obj, lambda: axis(obj, ax).repeat(k, bv))


def unique(rec, rng, obj):
    ax = rng.choice('pf')
    return rec.call('unique', {"ax": ax}, obj, lambda: axis(obj, ax).unique())


def transpose(rec, rng, obj):
    if rng.random() < .5:
        return rec.call('T', {"w": 0}, obj, lambda: obj.T)
    return rec.call('transpose', {"w": 0}, obj, lambda: obj.transpose(useLog=False))


def flatten(rec, rng, obj):
    o = rng.choice(['point', 'feature'])
    return rec.call('flatten', {"order": o}, obj, lambda: obj.flatten(o, useLog=False))
