"""Normalization of features."""
from fractions import Fraction
import math
import nimble
from nimble.calculate import (meanNormalize, meanStandardDeviationNormalize, range0to1Normalize,
                              percentileNormalize)
from nimble.calculate.normalize import rangeNormalize
from nv import enc, gen, ops
from nv.core import observe


def square(vals):
    k = [Fraction(v) for v in vals if v == v]
    if not k:
        return True
    m = sum(k) / len(k)
    var = sum((x - m) ** 2 for x in k) / len(k)
    return all(math.isqrt(q) ** 2 == q for q in (var.numerator, var.denominator))


def scenario(rec, rng, i, tier):
    ty = gen.TYPES[i % 4]
    k = rng.choice(['mean', 'z', 'range', 'range', 'perc', 'perc', 'double'])
    t = gen.gen_table(rng, kinds=('int', 'half', 'miss', 'nummix', 'bin', 'float'), nr=(2, 5), mr=(1, 3))
    for j in range(t.m):
        col = [r[j] for r in t.d]
        if k == 'z':
            c = 0
            while not square(col) and c < 300:
                col = [rng.randint(-3, 5) if rng.random() < .8 else gen.nan for _ in col]
                c += 1
            if not square(col):
                col = [1] * len(col)
        known = [v for v in col if v == v]
        if k == 'perc' and len(known) < 2 or not known:
            col = [1] * len(col) if k == 'z' else [rng.randint(0, 3) for _ in col]
        for r, v in zip(t.d, col):
            r[j] = v
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    f = {"k": k, "s": ["n", 0, 1], "e": ["n", 1, 1]}
    if k == 'mean':
        fn = meanNormalize
    elif k == 'z':
        fn = meanStandardDeviationNormalize
    elif k == 'perc':
        fn = percentileNormalize
    elif k == 'range':
        fn = range0to1Normalize
        if rng.random() < .4:
            s, e = rng.choice([(-1, 1), (1, 5), (2, 0), (0, 10)])
            f["s"], f["e"] = enc.cell(s), enc.cell(e)
            fn = lambda a, b=None: rangeNormalize(a, b, start=s, end=e)
    else:
        def fn(a, b=None):
            return a * 2 if b is None else (a * 2, b * 2)
    r = rng.random()
    if r < .5:
        lim, py = ["all"], None
    elif r < .7:
        a, py = ops.one_id(rng, t.fn, bad=.05)
        lim = ["ids", [a]]
    else:
        a, py = ops.id_list(rng, t.fn, rng.randint(1, t.m), bad=.03)
        lim = ["ids", a]
    has = rng.random() < .55
    a = {"f": f, "lim": lim, "has": has, "u": 0}
    u = None
    if has:
        m = t.m if rng.random() < .95 else t.m + 1
        y = gen.gen_table(rng, kinds=('int', 'half', 'miss', 'bin'), nr=(1, 4), mr=(m, m))
        y.fn = list(t.fn) if m == t.m and rng.random() < .9 else ([None] * m if rng.random() < .5 else gen.gen_names(rng, gen.FN, m, 'all'))
        if rng.random() < .3 and m == t.m:
            for r in y.d:
                q = rng.choice(t.d)
                for j in range(m):
                    r[j] = q[j]
        u = rec.build(rng, y)
        if u is None:
            return
        a["u"] = observe(u)
    kw = {} if py is None else {'features': py}
    if len(t.d) != len(set(map(id, t.d))):
        return
    if lim[0] == "ids":
        # the same feature given twice is normalized twice: left out
        ks = [obj.features.getIndex(x) if not isinstance(x, str) or obj.features.hasName(x) else x
              for x in (py if isinstance(py, list) else [py]) if isinstance(x, str) or -t.m <= x < t.m]
        if len(ks) != len(set(ks)):
            return
    res = rec.call('normalize', a, obj, lambda: (obj.features.normalize(fn, applyResultTo=u, useLog=False, **kw), 'done')[1],
                   enc_ret=lambda r: ["t", observe(u)] if has else ["none"], how=rng.randint(0, 1))
    if has and res is None:
        rec.emit('frame', {"was": a["u"]}, 0, observe(u))
