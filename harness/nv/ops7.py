"""Statistics of vectors, similarities, linear algebra."""
import nimble
from . import enc, gen, ops
from .ops6 import genc

# accepted spelling -> (model statistic, cleaned name, function of nimble.calculate or method)
STATS = {'max': 'max', 'Min': 'min', 'mean': 'mean', 'median': 'median', 'unique count': 'uniquecount',
         'proportion missing': 'proportionmissing', 'proportionZero': 'proportionzero',
         'standard deviation': 'variance', 'std': 'variance', 'sample std': 'variance',
         'population std': 'popvariance', 'Population Standard Deviation': 'popvariance',
         'mode': 'mode', 'sum': 'sum', 'variance': 'variance', 'quartiles': 'quartiles', 'count': 'count',
         'median absolute deviation': 'medianabsolutedeviation'}
METH = {'max': 'max', 'min': 'min', 'mean': 'mean', 'median': 'median', 'uniqueCount': 'uniquecount',
        'proportionMissing': 'proportionmissing', 'proportionZero': 'proportionzero',
        'standardDeviation': 'variance', 'populationStandardDeviation': 'popvariance', 'mode': 'mode',
        'sum': 'sum', 'variance': 'variance', 'quartiles': 'quartiles',
        'medianAbsoluteDeviation': 'medianabsolutedeviation'}


def clean(s):
    return ''.join(s.split()).lower()


def sqv(v):
    return v if v is None or v != v or isinstance(v, str) else float(v) * abs(float(v))


def sq(t):
    """encode a table with squared cells"""
    j = enc.table(t)
    j["d"] = [[enc.cell(sqv(v)) for v in row] for row in t.copy(to='python list')]
    return j


def isstd(name):
    return 'std' in clean(name) or 'standarddeviation' in clean(name)


def modeok(tab, ax):
    """whether the known values of each vector are of one kind"""
    vs = tab.d if ax == 'p' else [[r[j] for r in tab.d] for j in range(tab.m)]
    for v in vs:
        k = {isinstance(x, str) for x in v if x is not None and x == x}
        if len(k) > 1:
            return False
    return True


def table(rng, ty):
    kinds = ('int', 'half', 'miss', 'nummix', 'float') if ty == 'Sparse' else \
        ('int', 'half', 'miss', 'nummix', 'mixnb', 'str', 'none', 'bool')
    t = gen.gen_table(rng, kinds=kinds, nr=(1, 5), mr=(1, 4))
    if rng.random() < .15:
        j = rng.randrange(t.m)
        for r in t.d:
            r[j] = 0 if rng.random() < .5 else gen.nan
    return t


def stat(rec, rng, ty):
    t = table(rng, ty)
    obj = rec.build(rng, t, ty, view=rng.random() < .15)
    if obj is None:
        return
    ax = rng.choice('pf')
    a = ops.axis(obj, ax)
    if rng.random() < .6:
        s = rng.choice(list(STATS))
        code = STATS[s]
        fn = lambda: a.statistics(s)
    else:
        s = rng.choice(list(METH))
        code = METH[s]
        fn = lambda: getattr(a, s)()
    if code == 'mode' and not modeok(t, ax):
        return
    names = ['quartile1', 'quartile2', 'quartile3'] if code == 'quartiles' else [clean(s)]
    std = isstd(s)
    rec.call('stat', {"ax": ax, "s": code, "names": names}, obj, fn,
             enc_ret=lambda r: ["t", sq(r) if std else enc.table(r)], how=rng.randint(0, 1))


def statby(rec, rng, ty):
    t = table(rng, ty)
    if t.m < 2:
        return
    c = rng.randrange(t.m)
    vals = [0, 1] if ty == 'Sparse' or rng.random() < .5 else ['a', 'b']
    for r in t.d:
        r[c] = rng.choice(vals)
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    j, p = ops.id_of(rng, t.fn, c)
    s = rng.choice([x for x in METH if METH[x] != 'mode' and x != 'count'])
    code = METH[s]
    if rng.random() < .5:
        fn = lambda: obj.features.statistics(s, groupByFeature=p)
    else:
        fn = lambda: getattr(obj.features, s)(groupByFeature=p)
    names = ['quartile1', 'quartile2', 'quartile3'] if code == 'quartiles' else [clean(s)]
    std = isstd(s)

    def e(r):
        g = genc(r)
        if std:
            for x, (k, v) in zip(g[1], r.items()):
                x[1] = ["t", sq(v)]
        return g
    rec.call('statBy', {"ids": [j], "s": code, "names": names}, obj, fn, enc_ret=e, how=rng.randint(0, 1))


def similar(rec, rng, ty):
    s = rng.choice(['cov', 'popcov', 'corr', 'dot'])
    kinds = ('int', 'pos', 'bin') if s == 'corr' else ('int', 'half', 'bin')
    t = gen.gen_table(rng, kinds=kinds, nr=(1, 4), mr=(1, 4))
    for r in t.d:
        for j in range(t.m):
            if s == 'corr':
                r[j] = max(-1, min(2, r[j]))
            if s != 'dot' and rng.random() < .08:
                r[j] = gen.nan
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    ax = rng.choice('pf')
    nm = {'cov': ['covariance', 'sample covariance'], 'popcov': ['population covariance'],
          'corr': ['correlation'], 'dot': ['dot product', 'Dot Product']}[s]
    f = rng.choice(nm)
    rec.call('similar', {"ax": ax, "s": s}, obj, lambda: ops.axis(obj, ax).similarities(f),
             enc_ret=lambda r: ["t", sq(r) if s == 'corr' else enc.table(r)], how=rng.randint(0, 1))


def linalg(rec, rng, ty):
    n = rng.choice([1, 2, 2, 3])
    op = rng.choice(['inverse', 'solve', 'least', 'pinv', 'residuals'])
    if op == 'residuals':
        return residuals(rec, rng, ty)
    m = rng.randint(1, 3) if op == 'pinv' else n if op != 'least' else rng.randint(1, min(n, 2))
    if rng.random() < .05:
        m = m + 1
    t = gen.gen_table(rng, kinds=('int', 'bin', 'half'), nr=(n, n), mr=(m, m))
    for r in t.d:
        for j in range(t.m):
            r[j] = max(-3, min(3, r[j]))
    obj = rec.build(rng, t, ty)
    if obj is None:
        return
    if op == 'inverse':
        return rec.call('inverse', {"w": 0}, obj, lambda: nimble.calculate.inverse(obj), how=1)
    if op == 'pinv':
        return rec.call('pinv', {"w": 0}, obj, lambda: nimble.calculate.pseudoInverse(obj), how=1)
    k = n if rng.random() < .95 else n + 1
    b = gen.gen_table(rng, kinds=('int', 'bin'), nr=(k, k), mr=(1, 1))
    if rng.random() < .5:
        b = b.T()
    u = rec.build(rng, b, rng.choice(gen.TYPES))
    if u is None:
        return
    f = nimble.calculate.solve if op == 'solve' else nimble.calculate.leastSquaresSolution
    rec.call(op, {"u": [enc.cell(x) for r in b.d for x in r]}, obj, lambda: f(obj, u), how=1)


def small(rng, n, m, ty):
    t = gen.gen_table(rng, kinds=('int', 'bin', 'half'), nr=(n, n), mr=(m, m))
    for r in t.d:
        for j in range(t.m):
            r[j] = max(-3, min(3, r[j]))
    return t


def residuals(rec, rng, ty):
    n = rng.choice([1, 2, 3, 4, 4, 5])
    k = n if rng.random() < .93 else n + 1
    obj = rec.build(rng, small(rng, n, rng.randint(1, 2), ty), ty, view=rng.random() < .15)
    u = rec.build(rng, small(rng, k, rng.randint(1, 2), ty), rng.choice(gen.TYPES), view=rng.random() < .15)
    if obj is None or u is None:
        return
    rec.call('residuals', {"u": enc.table(u)}, obj, lambda: nimble.calculate.residuals(obj, u), how=1)


REP = {'mean': 'mean', 'mode': 'mode', 'minimum': 'min', 'Q1': 'q1', 'median': 'median', 'Q3': 'q3',
       'maximum': 'max', 'uniqueCount': 'uniquecount', 'count': 'count', 'standardDeviation': 'variance'}
EXTRA = {'count': 'count', 'mean': 'mean', 'proportionMissing': 'proportionmissing', 'proportionZero': 'proportionzero',
         'maximum': 'max', 'uniqueCount': 'uniquecount', 'sum': 'sum'}


def report(rec, rng, ty):
    t = table(rng, ty)
    obj = rec.build(rng, t, ty, view=rng.random() < .2)
    if obj is None:
        return
    if rng.random() < .3:
        return rec.call('report', {"w": 0}, obj, lambda: obj.report(useLog=False), how=1)
    basic = True
    if rng.random() < .6:
        basic = rng.sample(list(REP), rng.randint(1, 5)) if rng.random() < .9 else False
        if basic and rng.random() < .15:
            basic.append(rng.choice(basic))
    names = list(REP) if basic is True else basic or []
    if 'mode' in names and not modeok(t, 'f'):
        return
    ex = [rng.choice(list(EXTRA)) for _ in range(rng.choice([0, 0, 1, 2]))]
    if any(EXTRA[x] in ('mean', 'max', 'sum') for x in ex) and not all(isnum(v) for r in t.d for v in r):
        ex = []
    fs = [getattr(nimble.calculate, x) for x in ex]
    stats = [REP[x] for x in names] + [EXTRA[x] for x in ex]
    dt = rng.random() < .2
    kw = {"dtypes": True} if dt else {}

    def e(r):
        j = enc.table(r)
        for c, x in enumerate(['index'] + names + ex):
            if x == 'standardDeviation':
                q = sq(r)
                for a, b in zip(j["d"], q["d"]):
                    a[c] = b[c]
        if dt:    # the kind of storage is not part of the model
            if j["fn"][-1:] != ['dataType'] or any(not isinstance(x[-1], list) or x[-1][0] != 's' for x in j["d"]):
                return ["bad", "dtypes"]
            j["fn"], j["m"], j["d"] = j["fn"][:-1], j["m"] - 1, [x[:-1] for x in j["d"]]
        return ["t", j]
    rec.call('freport', {"stats": stats, "names": names + ex}, obj,
             lambda: obj.features.report(basic, fs, useLog=False, **kw), enc_ret=e, how=1)


def isnum(v):
    return v is None or isinstance(v, (int, float, bool))
