"""Groups, counts of unique elements, training and testing sets."""
import numpy as np
import nimble
from nimble.core.data import Base
from . import enc, gen, ops
from .core import observe

KIN = ('int', 'half', 'float', 'bin', 'str', 'miss', 'mixnb', 'none', 'nummix')


def genc(r):
    out = []
    for k, v in r.items():
        key = [enc.cell(x) for x in (k if isinstance(k, tuple) else (k,))]
        if isinstance(v, Base):
            observe(v)
            out.append([key, ["t", enc.table(v)]])
        else:
            out.append([key, ["i", int(v)]])
    return ["g", out]


def group(rec, rng, ty):
    t = gen.gen_table(rng, kinds=KIN, nr=(1, 5), mr=(1, 4))
    kinds = None
    mode = rng.choice(['sub', 'sub', 'count', 'stat'])
    m = t.m
    k = 1 if rng.random() < .6 else rng.randint(1, min(3, m))
    cols = rng.sample(range(m), k)
    for c in cols:
        vals = rng.choice([[0, 1, 2], [0, 1.5], [0, gen.nan, 1], [gen.nan, float('inf'), 0.5]] +
                          ([] if ty == 'Sparse' else [['a', 'b'], ['a', None], ['NaN', gen.nan, 'a'], ['a', 1, 0], [None, 'b', gen.nan]]))
        for i in range(t.n):
            v = rng.choice(vals)
            # every nan a distinct object
            t.d[i][c] = float('nan') if isinstance(v, float) and v != v else v
    if mode == 'stat':
        for j in range(m):
            if j not in cols:
                for i in range(t.n):
                    t.d[i][j] = gen.value(rng, rng.choice(['int', 'half']))
        if m == k:
            mode = 'sub'
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    prs = [ops.id_of(rng, t.fn, c) for c in cols]
    if rng.random() < .05:
        prs[-1] = ops.one_id(rng, t.fn, bad=1)
    stat = rng.choice(['mean', 'max', 'min', 'median', 'sum', 'uniqueCount']) if mode == 'stat' else None
    by = [p[1] for p in prs]
    if k == 1 and rng.random() < .7:
        by = by[0]
    kw = {}
    if mode == 'count':
        kw['countUniqueValueOnly'] = True
    if stat:
        kw['calculate'] = stat
    rec.call('groupBy', {"ids": [p[0] for p in prs], "mode": mode, "stat": (stat or "").lower(), "sname": [(stat or "").lower()]}, obj,
             lambda: obj.groupByFeature(by, useLog=False, **kw), enc_ret=genc, how=rng.randint(0, 1))
    return obj


def counts(rec, rng, ty):
    t = gen.gen_table(rng, kinds=KIN)
    obj = rec.build(rng, t, ty, view=rng.random() < .2)
    if obj is None:
        return

    def lim(names):
        r = rng.random()
        if r < .4:
            return ["all"], None
        if r < .6:
            a, b = ops.one_id(rng, names, bad=.05)
            return ["ids", [a]], b
        a, b = ops.id_list(rng, names, rng.randint(1, len(names)), bad=0)
        return ["ids", a], b
    ps, pp = lim(t.pn)
    fs, ff = lim(t.fn)
    rec.call('countUnique', {"ps": ps, "fs": fs}, obj, lambda: obj.countUniqueElements(pp, ff),
             enc_ret=lambda r: ["u", [[enc.cell(k), int(v)] for k, v in r.items()]], how=rng.randint(0, 1))
    return None if isinstance(obj, nimble.core.data.BaseView) else obj


def split(rec, rng, ty):
    t = gen.gen_table(rng, kinds=('int', 'half', 'str', 'mixnb', 'miss'), nr=(1, 4), mr=(1, 4))
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    fr = rng.choice([0, 1, .5, .25, .75, .3, .2, .9, 1.0, 0.0])
    if rng.random() < .05:
        fr = rng.choice([-.1, 1.5])
    lab = rng.choice(['none', 'ids', 'ids', 'obj'])
    rand = rng.random() < .35
    a = {"lab": lab, "frac": enc.cell(fr), "rand": rand, "ids": [], "u": 0}
    kw, u = {}, None
    if lab == 'ids':
        js, py = ops.id_list(rng, t.fn, rng.randint(1, t.m), bad=0)
        if rng.random() < .05:
            js[-1], py[-1] = ops.one_id(rng, t.fn, bad=1)
        a["ids"] = js
        kw['labels'] = py[0] if len(py) == 1 and rng.random() < .7 else py
    elif lab == 'obj':
        y = gen.gen_table(rng, kinds=('int', 'str'), nr=(t.n, t.n), mr=(1, 2))
        y.pn = list(t.pn) if rng.random() < .6 else [None] * t.n
        if rng.random() < .1:
            y.pn = rng.sample(gen.PN, t.n) if rng.random() < .5 else rng.sample(y.pn, t.n)
            if any(x is None for x in y.pn + t.pn):
                y.pn = [None] * t.n
        if rng.random() < .05:
            y.d, y.pn = y.d + y.d[:1], y.pn + [None]
        if rng.random() < .5:
            y.fn = (rng.sample(t.fn, min(t.m, y.m)) + gen.FN[-1:])[:y.m] if gen.FN[-1] not in t.fn else y.fn
        u = rec.build(rng, y)
        if u is None:
            return
        a["u"] = observe(u)
        kw['labels'] = u
    rec.call('trainTest', a, obj, lambda: obj.trainAndTestSets(fr, randomOrder=rand, useLog=False, **kw),
             enc_ret=lambda r: ["ts", [["t", observe(x)] for x in r]], how=rng.randint(0, 1))
    if u is not None:
        rec.emit('frame', {"was": a["u"]}, 0, observe(u))
    return obj
