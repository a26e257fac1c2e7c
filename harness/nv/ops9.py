"""Performance functions."""
import math
import nimble
from nimble import calculate as C
from . import enc, gen, ops3

FNS = {'rmse': C.rootMeanSquareError, 'mfrmse': C.meanFeaturewiseRootMeanSquareError, 'mae': C.meanAbsoluteError,
       'wrong': C.fractionIncorrect, 'right': C.fractionCorrect, 'vfr': C.varianceFractionRemaining, 'rsq': C.rSquared,
       'cos': C.cosineSimilarity, 'tp': C.truePositive, 'tn': C.trueNegative, 'fp': C.falsePositive,
       'fn': C.falseNegative, 'recall': C.recall, 'precision': C.precision, 'specificity': C.specificity,
       'balanced': C.balancedAccuracy, 'f1': C.f1Score}
BIN = ('tp', 'tn', 'fp', 'fn', 'recall', 'precision', 'specificity', 'balanced', 'f1')


def names(rng, pool, n, p=.3):
    return rng.sample(pool, n) if rng.random() < p else [None] * n


def column(rng, vals, n, m=1, pool=gen.FN):
    return gen.Tab([[rng.choice(vals) for _ in range(m)] for _ in range(n)], m, names(rng, gen.PN, n, .2), names(rng, pool, m))


def near(rng, known, vals):
    """predictions that are often right"""
    return gen.Tab([[v if rng.random() < .6 else rng.choice(vals) for v in r] for r in known.d], known.m,
                   list(known.pn) if rng.random() < .5 else names(rng, gen.PN, known.n, .2),
                   list(known.fn) if rng.random() < .3 else names(rng, gen.FN, known.m))


def spoil(rng, tab):
    r = rng.random()
    if r < .25 and tab.n:
        tab.d.pop()
        tab.pn.pop()
    elif r < .5:
        tab.d = [row + [row[0]] for row in tab.d]
        tab.m += 1
        tab.fn = [None] * tab.m
    elif r < .75 and tab.n:
        tab.d[rng.randrange(tab.n)][0] = gen.nan
    elif r < .9 and tab.n:
        tab.d = [[('a' if rng.random() < .3 else v) for v in row] for row in tab.d]
    else:
        tab.d, tab.pn = [], []


def pair(rec, rng, ty, k, p):
    ty2 = ty if rng.random() < .6 else gen.any_type(rng, p)
    if ty == 'Sparse' and not gen.sparseable(k):
        ty = gen.any_type(rng, k)
    if ty2 == 'Sparse' and not gen.sparseable(p):
        ty2 = gen.any_type(rng, p)
    a = rec.build(rng, k, ty, view=bool(k.n and k.m) and rng.random() < .15)
    b = None if a is None else rec.build(rng, p, ty2, view=bool(p.n and p.m) and rng.random() < .15)
    return a, b


def nums(r):
    return ["l", [enc.cell(v) for v in r]]


def run(rec, op, a, k, p, fn, e):
    u = enc.table(p)
    rec.call(op, dict(a, u=u), k, fn, enc_ret=e)
    ops3.frame(rec, p, u)


def score(rec, rng, ty):
    f = rng.choice(list(FNS))
    n = rng.randint(1, 7)
    m = 1
    if f in BIN:
        vals = rng.choice([[0, 1], [0, 1], [0, 1], [False, True], [0.0, 1.0], [0, 1, 2], [0, 1, -1], [0, 1, .5]])
    elif f in ('wrong', 'right'):
        vals = rng.choice([[0, 1], [0, 1, 2], ['a', 'b', 'cc'], [0.5, 1, 1.5], [True, False], ['a', 1]])
    elif f == 'cos':
        vals = rng.choice([[0, 1, 2], [-2, 0, 1, 3], [.5, 1, 2]])
    elif f == 'mfrmse':
        n, m = rng.choice([1, 4]), rng.randint(1, 3)
        vals = [0, 1, 2, 5]
    else:
        vals = rng.choice([[0, 1, 2], [-2, 0, 1, 3], [.5, 1, 2], [1, 5, -7, 20]])
    k = column(rng, vals, n, m)
    p = near(rng, k, vals)
    if f == 'mfrmse':
        p = k.copy()
        for j in range(m):
            p.d[rng.randrange(n)][j] += rng.randint(-3, 3)
    if rng.random() < .15:
        spoil(rng, rng.choice([k, p]))
    k, p = pair(rec, rng, ty, k, p)
    if p is None:
        return
    e = nums if f not in ('rmse', 'cos') else lambda r: nums(r)
    g = {'rmse': lambda r: nums([r * r]), 'cos': lambda r: nums([r * abs(r)])}.get(f, lambda r: nums([r]))
    run(rec, 'score', {"f": f}, k, p, lambda: FNS[f](k, p), g)


def decorated(rec, rng, ty):
    fl = {x: rng.random() < .5 for x in ('one', 'pts', 'fts', 'empty', 'miss')}
    val = rng.random() < .85
    opt = rng.choice(['min', 'max'])

    @C.performanceFunction(opt, validate=val, requires1D=fl['one'], samePtCount=fl['pts'], sameFtCount=fl['fts'],
                           allowEmpty=fl['empty'], allowMissing=fl['miss'])
    def own(known, pred):
        return list(known.shape) + list(pred.shape)
    if not val:
        fl = dict(one=False, pts=False, fts=False, empty=True, miss=True)
    k = column(rng, [0, 1, 2], rng.randint(1, 4), rng.choice([1, 1, 2]))
    p = column(rng, [0, 1, 2], k.n, k.m)
    if rng.random() < .6:
        spoil(rng, rng.choice([k, p]))
    k, p = pair(rec, rng, ty, k, p)
    if p is None:
        return
    run(rec, 'decorated', {"fl": fl}, k, p, lambda: own(k, p), nums)


def confusion(rec, rng, ty):
    vals = rng.choice([[0, 1, 2], [0, 1], ['a', 'b', 'cc'], [3, 1, 7], [0.5, 1.5, 2], ['B', 'a'], [-1, 1], [True, False]])
    n = rng.randint(1, 8)
    k = column(rng, vals, n)
    p = near(rng, k, [r[0] for r in k.d] if rng.random() < .7 else vals)
    lab, py = ["none"], None
    r = rng.random()
    if r < .35:
        keys = list(vals)
        rng.shuffle(keys)
        if rng.random() < .1:
            keys.pop()
        if rng.random() < .2 and not isinstance(keys[0], str):
            keys.append(9)
        py = {v: rng.choice(['cat', 'dog', 'fish']) + str(i) for i, v in enumerate(keys)}
        lab = ["dict", [[enc.cell(v), t] for v, t in py.items()]]
    elif r < .6:
        py = rng.sample(['cat', 'dog', 'fish', 'owl'], rng.randint(2, 4))
        lab = ["list", py]
    if rng.random() < .06:
        spoil(rng, rng.choice([k, p]))
    frac = rng.random() < .3
    k, p = pair(rec, rng, ty, k, p)
    if p is None:
        return
    txt = []
    for row in k.copy(to='python list') if k.shape[0] and k.shape[1] else []:
        v = row[0]
        if v is not None and v == v:
            t = v if isinstance(v, str) else str(int(v)) if v == int(v) else str(float(v))
            txt.append([enc.cell(v), t])
    run(rec, 'confusion', {"lab": lab, "txt": txt, "frac": frac}, k, p,
        lambda: C.confusionMatrix(k, p, py, frac) if rng.random() < .5 else
        C.confusionMatrix(k, p, labels=py, convertCountsToFractions=frac), lambda x: ["t", enc.table(x)])


def interval(rec, rng, ty):
    f = rng.choice(['rmse', 'mae', 'wrong'])
    n = rng.choice([2, 3])
    c = .5 if n == 2 else rng.choice([.5, .75, .6, .8])
    k = column(rng, [0, 1, 2, 4] if f != 'wrong' else [0, 1], n)
    p = near(rng, k, [0, 1, 2, 3])
    p.fn, p.pn = list(k.fn), list(k.pn)
    k, p = pair(rec, rng, ty, k, p)
    if p is None:
        return
    fn = {'rmse': C.rootMeanSquareErrorConfidenceInterval, 'mae': C.meanAbsoluteErrorConfidenceInterval,
          'wrong': C.fractionIncorrectConfidenceInterval}[f]

    def e(r):
        lo, hi = (float(x) for x in r)
        if f == 'rmse':
            lo, hi = lo * lo, hi * hi
        return nums([(lo + hi) / 2, ((hi - lo) / 2) ** 2])
    run(rec, 'interval', {"f": f, "c": enc.cell(c)}, k, p, lambda: fn(k, p, confidence=c), e)


def detect(rec, rng, ty):
    kind = rng.choice(['right', 'wrong', 'const', 'right2'])
    declared = rng.choice(['', '', 'min', 'max'])

    def own(known, pred):
        w = C.fractionIncorrect(known, pred)
        return {'right': 1 - w, 'wrong': w * 3, 'const': 4, 'right2': 1 - w * w}[kind]
    if declared:
        own.optimal = declared
    k = rec.build(rng, column(rng, [0, 1], 2), ty)
    if k is None:
        return
    rec.call('detect', {"declared": declared, "kind": kind[:5]}, k, lambda: C.detectBestResult(own))
