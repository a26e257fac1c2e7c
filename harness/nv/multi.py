"""Strategies for many classes, the learners of nimble, filling and
normalizing with a learner."""
import nimble
from fractions import Fraction
from . import enc, gen, learners, ops3
from .ops9 import names

nan = gen.nan


def raw(tab):
    return [[enc.cell(v) for v in r] for r in tab.d]


def col(tab, j=0):
    return [enc.cell(r[j]) for r in tab.d]


def xtab(rng, n, m, vals, names_p=.3):
    return gen.Tab([[rng.choice(vals) for _ in range(m)] for _ in range(n)], m, names(rng, gen.PN, n, names_p), names(rng, gen.FN, m, names_p))


def built(rec, rng, ty, *tabs, dense=False):
    out = []
    for t in tabs:
        ty2 = ty if rng.random() < .6 else gen.any_type(rng, t)
        if dense and ty2 == 'Sparse' or ty2 == 'Sparse' and not gen.sparseable(t):
            ty2 = 'List'
        o = rec.build(rng, t, ty2, view=bool(t.n and t.m) and rng.random() < .15)
        if o is None:
            return None
        out.append(o)
    return out


def texts(labs):
    out = []
    for v in labs:
        t = {str(v)}
        if not isinstance(v, str):
            t |= {str(float(v)), str(int(v))} if v == int(v) else {str(float(v))}
        out.append([enc.cell(v), sorted(t)])
    return out


def training(rec, rng, ty, x, y, yname='y'):
    """the training data and labels as arguments of train; labels are an object
    or a feature of the data at any place"""
    if rng.random() < .5:
        objs = built(rec, rng, ty, x, y, dense=bool(y.n) and isinstance(y.d[0][0], str))
        return objs and (objs[0], objs[1], objs)
    at = rng.randint(0, x.m)
    t = x.copy()
    for r, v in zip(t.d, y.d):
        r.insert(at, v[0])
    t.fn.insert(at, None if all(f is None for f in x.fn) and rng.random() < .7 else yname)
    t.m += 1
    if ty == 'Sparse' and not gen.sparseable(t):
        ty = 'List'
    objs = built(rec, rng, ty, t)
    if not objs:
        return None
    ident = yname if t.fn[at] and rng.random() < .5 else at
    return objs[0], ident, objs


def emit(rec, op, a, objs, fn, e):
    """one call that must leave all objects as they are"""
    was = [enc.table(o) for o in objs]
    r = rec.call(op, a, objs[0], fn, enc_ret=e)
    for o, w in list(zip(objs, was))[1:]:
        ops3.frame(rec, o, w)
    return r


STRAT = {'all': ['OneVsAll', 'OneVsAll', 'onevsall', 'ONEVSALL'], 'one': ['OneVsOne', 'OneVsOne', 'onevsone', 'OneVSone']}


def multi(rec, rng, ty):
    labs = rng.choice([[0, 1, 2], [1, 2, 3], ['a', 'b', 'cc'], [0, 1, 2, 3], [5, 9, 10, 11], [0.5, 1.5, 2], [1, 2]])
    if isinstance(labs[0], str) and ty == 'Sparse':
        ty = 'List'
    m = rng.randint(1, 3)
    re = rng.random() < .12
    strat = rng.choice(['all', 'one'])
    how = rng.choice(STRAT[strat])
    args = {} if rng.random() < .6 else {'a': rng.randint(1, 3)}

    def data():
        n = rng.randint(2, 8)
        x = xtab(rng, n, m, range(-3, 12), .2)
        y = gen.Tab([[rng.choice(labs)] for _ in range(n)], 1, list(x.pn), names(rng, ['y', 'lab'], 1))
        return x, y
    x, y = data()
    if re and len({r[0] for r in y.d}) < 2:
        re = False
    tr = training(rec, rng, ty, x, y)
    tx = xtab(rng, rng.randint(1, 4), m, range(-3, 12))
    tx.fn = list(x.fn) if rng.random() < .8 else [None] * m
    test = tr and built(rec, rng, ty, tx, dense=isinstance(y.d[0][0], str))
    if not test:
        return
    tx0 = test[0]
    X, Y, objs = tr
    learners.OUT['how'] = rng.randint(0, 2)
    mode = rng.choice(['none', 'none', 'bestScore', 'allScores', 'test'])
    ty_ = gen.Tab([[rng.choice(labs)] for _ in range(tx.n)], 1, [None] * tx.n, [None])
    tY = None
    if mode == 'test':
        tY = rec.build(rng, ty_, 'List')
        if tY is None:
            return
    if re:
        x2, y2 = data()
        tr2 = training(rec, rng, ty, x2, y2)
        if tr2 is None:
            return
    state = {}

    def go():
        if not re and mode != 'test' and rng.random() < .3:
            return nimble.trainAndApply(learners.ProbeCls, X, Y, tx0, multiClassStrategy=how,
                                        scoreMode=None if mode == 'none' else mode, arguments=args)
        tl = nimble.train(learners.ProbeCls, X, Y, multiClassStrategy=how, **args)
        if re:
            tl.retrain(tr2[0], tr2[1])
        if mode == 'test':
            return tl.test(nimble.calculate.fractionIncorrect, tx0, tY)
        return tl.apply(tx0, scoreMode=None if mode == 'none' else mode)
    if re:
        x, y = x2, y2
    a = {"x": raw(x), "y": col(y), "tx": raw(tx), "ty": col(ty_), "strat": strat, "mode": mode, "re": re,
         "args": [[k, v] for k, v in args.items()], "txt": texts(labs), "how": how}
    emit(rec, 'multi', a, objs + [tx0], go, None)
    learners.OUT['how'] = 0


def disturb(rng, obj):
    """the user goes on working with the data a learner was trained with"""
    r = rng.random()
    if obj.isView() if hasattr(obj, 'isView') else 'View' in type(obj).__name__:
        return
    if r < .4:
        obj.points.permute(list(range(len(obj.points)))[::-1])
    elif r < .7:
        obj.points.delete(0)
    else:
        obj[0, 0] = 11


def knn(rec, rng, ty):
    labs = rng.choice([[0, 1], [0, 1, 2], ['a', 'b', 'cc'], [3, 7]])
    if isinstance(labs[0], str) and ty == 'Sparse':
        ty = 'List'
    n, m = rng.randint(1, 7), rng.randint(1, 3)
    x = xtab(rng, n, m, range(-2, 7))
    y = gen.Tab([[rng.choice(labs)] for _ in range(n)], 1, list(x.pn), names(rng, ['y', 'lab'], 1))
    tr = training(rec, rng, ty, x, y)
    tx = xtab(rng, rng.randint(1, 4), m, range(-2, 7))
    tx.fn = list(x.fn)
    test = tr and built(rec, rng, ty, tx, dense=isinstance(y.d[0][0], str))
    if not test:
        return
    X, Y, objs = tr
    k = rng.choice([1, 1, 2, 3, 3, 4, 5, 9])
    mode = rng.choice(['none', 'none', 'none', 'bestScore', 'allScores'])
    sm = None if mode == 'none' else mode
    later = rng.random() < .3
    a = {"x": raw(x), "y": col(y), "tx": raw(tx), "k": k, "mode": mode}
    if later:
        try:
            tl = nimble.train('nimble.KNNClassifier', X, Y, k=k)
        except Exception as e:
            rec.bad('train:' + type(e).__name__ + str(e)[:80])
            return
        for o in objs:
            if rng.random() < .7:
                disturb(rng, o)
        emit(rec, 'knn', a, test, lambda: tl.apply(test[0], scoreMode=sm), None)
    else:
        emit(rec, 'knn', a, objs + test, lambda: nimble.trainAndApply(
            'nimble.KNNClassifier', X, Y, test[0], scoreMode=sm, arguments={'k': k} if k != 5 or rng.random() < .5 else None), None)


def linear(rec, rng, ty):
    model = rng.choice(['ridge', 'mridge', 'mlinear', 'ridge'])
    n, m = rng.randint(2, 6), rng.randint(1, 2)
    q = 1 if model == 'ridge' and rng.random() < .6 else rng.randint(1, 3)
    lam = rng.choice([0, 0, 1, 2, .5])
    x = xtab(rng, n, m, range(-3, 5))
    y = gen.Tab([[rng.randint(-3, 6) for _ in range(q)] for _ in range(n)], q, list(x.pn), names(rng, ['y1', 'y2', 'y3'], q))
    tr = training(rec, rng, ty, x, y) if q == 1 else None
    if q > 1:
        o = built(rec, rng, ty, x, y)
        tr = o and (o[0], o[1], o)
    tx = xtab(rng, rng.randint(1, 3), m, range(-3, 5))
    tx.fn = list(x.fn)
    test = tr and built(rec, rng, ty, tx, dense=isinstance(y.d[0][0], str))
    if not test:
        return
    X, Y, objs = tr
    name = {'ridge': 'RidgeRegression', 'mridge': 'MultiOutputRidgeRegression', 'mlinear': 'MultiOutputLinearRegression'}[model]
    args = {} if model == 'mlinear' or (lam == 0 and rng.random() < .5) else {'lamb': lam}
    a = {"x": raw(x), "y": raw(y), "tx": raw(tx), "lam": enc.cell(lam), "model": 'linear' if model == 'mlinear' else 'ridge'}
    if rng.random() < .3:
        try:
            tl = nimble.train('nimble.' + name, X, Y, **args)
        except Exception:
            return
        for o in objs:
            disturb(rng, o)
        emit(rec, 'linear', a, test, lambda: tl.apply(test[0]), None)
    else:
        emit(rec, 'linear', a, objs + test, lambda: nimble.trainAndApply('nimble.' + name, X, Y, test[0], **args), None)


def learn_fill(rec, rng, ty):
    n, m = rng.randint(2, 6), rng.randint(1, 4)
    x = xtab(rng, n, m, [1, 2, 3, 4, 7, 9] if rng.random() < .6 else [0, 1, 2])
    value = rng.choice([nan, nan, nan, 0, 9])
    for r in x.d:
        for j in range(m):
            if rng.random() < .25:
                r[j] = value
    if rng.random() < .05:
        x.d[0][0] = nan
    objs = built(rec, rng, ty, x)
    if not objs:
        return
    obj = objs[0]
    if 'View' in type(obj).__name__:
        return
    t = obj.copy(to='python list')
    miss = lambda v: v is None or v != v
    matched = [[miss(v) if value != value else v == value for v in r] for r in t]
    r = rng.random()
    if r < .6:
        if value != value:
            mt = rng.choice([nimble.match.missing, nan, lambda v: v is None or v != v])
        else:
            mt = rng.choice([value, [value, 77], lambda v, w=value: v == w])
    else:
        if r < .7:
            matched = [[miss(v) or rng.random() < .2 for v in r] for r in t]
        mt = nimble.data(matched, useLog=False)
    if rng.random() < .5:
        s = rng.choice([['mean'], ['median'], ['most_frequent'], ['constant', enc.cell(4)]])
        learner, name = ["simple", s], 'sklearn.SimpleImputer'
        args = {'strategy': s[0]}
        if s[0] == 'constant':
            args['fill_value'] = 4
        if s[0] == 'mean' and rng.random() < .5:
            args = {}
    else:
        k = rng.randint(1, 3)
        mode = rng.choice(['regression', 'classification'])
        learner, name, args = ["knn", mode, k], 'nimble.KNNImputation', {'k': k, 'mode': mode}
    ps, fs = [], []
    if rng.random() < .2:
        ps = sorted(rng.sample(range(n), rng.randint(1, n)))
    if rng.random() < .2:
        fs = sorted(rng.sample(range(m), rng.randint(1, m)))
    a = {"matched": matched, "learner": learner, "ps": [p + 1 for p in ps], "fs": [f + 1 for f in fs]}
    rec.call('learnFill', a, obj, lambda: nimble.fillMatching(name, mt, obj, args, ps or None, fs or None))


def square(vals):
    import math
    k = [Fraction(v) for v in vals]
    mu = sum(k) / len(k)
    var = sum((v - mu) ** 2 for v in k) / len(k)
    return all(math.isqrt(q) ** 2 == q for q in (var.numerator, var.denominator))


def learn_norm(rec, rng, ty):
    s = rng.choice(['standard', 'range'])
    n, m = rng.randint(1, 5), rng.randint(1, 3)
    x = xtab(rng, n, m, range(-3, 6))
    if s == 'standard':
        for j in range(m):
            for _ in range(300):
                c = [r[j] for r in x.d]
                if square(c):
                    break
                for r in x.d:
                    r[j] = rng.randint(-3, 6)
            else:
                for r in x.d:
                    r[j] = 2
    tabs = [x]
    if rng.random() < .6:
        u = xtab(rng, rng.randint(1, 4), m if rng.random() < .9 else m + 1, range(-3, 6))
        if rng.random() < .6 and u.m == m:
            u.fn = list(x.fn)
        tabs.append(u)
    objs = built(rec, rng, ty, *tabs, dense=True)
    if not objs:
        return
    name = 'sklearn.StandardScaler' if s == 'standard' else 'sklearn.MinMaxScaler'
    if any(o.getTypeString() == 'Sparse' for o in objs):
        return
    a = {"s": s, "u": [enc.table(o) for o in objs[1:]]}
    emit(rec, 'learnNorm', a, objs, lambda: nimble.normalizeData(name, objs[0], testX=objs[1] if len(objs) > 1 else None),
         lambda r: ["tt", enc.table(r[0]), enc.table(r[1])] if isinstance(r, tuple) else ["t", enc.table(r)])
