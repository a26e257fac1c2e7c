"""Tuning runs of probe learners, recorded as events of spec/TuneTrace."""
import json
import signal
from fractions import Fraction
import nimble
from nimble.calculate import performanceFunction
from nv import enc, gen, core, learners
from nv.learners import rows

TRACE = []
TABLE = {}


def mean_pred(predictedValues):
    p = learners.cells(predictedValues)
    return sum(p) / len(p)


@performanceFunction('min')
def low(knownValues, predictedValues):
    return mean_pred(predictedValues)


@performanceFunction('max')
def high(knownValues, predictedValues):
    return mean_pred(predictedValues)


PERF = {'mae': nimble.calculate.meanAbsoluteError, 'right': nimble.calculate.fractionCorrect,
        'wrong': nimble.calculate.fractionIncorrect, 'low': low, 'high': high}


class _Watch:
    def _t(self, trainX, trainY):
        TRACE.append(('t', rows(trainX), rows(trainY)))

    def _a(self, testX):
        TRACE.append(('a', rows(testX), None))


class TuneReg(learners._Reg, _Watch):
    def train(self, trainX, trainY, a=1, b=0):
        self._t(trainX, trainY)
        self._fit(trainX, trainY, a, b)

    def apply(self, testX, c=1):
        self._a(testX)
        return self._apply(testX, c)


class TuneCls(learners.ProbeCls, _Watch):
    def train(self, trainX, trainY, a=1):
        self._t(trainX, trainY)
        learners.ProbeCls.train(self, trainX, trainY, a)

    def incrementalTrain(self, trainX, trainY, a=1):
        raise TypeError

    def apply(self, testX, c=0):
        self._a(testX)
        return learners.ProbeCls.apply(self, testX, c)


class TuneTab(nimble.CustomLearner, _Watch):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=0, b=0, d=0, z=None):
        self._t(trainX, trainY)
        self.v = {'a': a, 'b': b, 'd': d}

    def apply(self, testX):
        self._a(testX)
        v = TABLE['values'][tuple(self.v[k] for k in TABLE['names'])]
        return nimble.data([[v] for _ in testX.points], useLog=False)


class TuneTabInc(TuneTab):
    def incrementalTrain(self, trainX, trainY, a=0, b=0, d=0, z=None):
        self.train(trainX, trainY, a, b, d, z)


KINDS = {'Reg': TuneReg, 'Cls': TuneCls, 'Tab': TuneTab, 'TabInc': TuneTabInc}
TRAINP = {'Reg': ['a', 'b', 'c'], 'Cls': ['a', 'c'], 'Tab': ['a', 'b', 'd'], 'TabInc': ['a', 'b', 'd']}
NAMES = {'brute': ['brute force', 'Brute Force', 'bruteforce', 'brute-force'], 'consec': ['consecutive', 'Consecutive'],
         'iter': ['iterative'], 'folds': ['cross validation', 'crossValidation', 'Cross-Validation'],
         'one': ['leave one out', 'leave-one-out'], 'group': ['leave one group out', 'leaveOneGroupOut'],
         'data': ['data'], 'prop': ['proportion']}
FIXED = [3, 'q']          # an argument that is a list


class Hang(Exception):
    pass


def limited(fn, seconds=20):
    def ring(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def distinct(r, n, m, kind):
    """n different points of m features"""
    while True:
        d = [[gen.value(r, kind) for _ in range(m)] for _ in range(n)]
        d = [[(v if not isinstance(v, float) or v == v else 0) for v in row] for row in d]
        for i, row in enumerate(d):
            if len(set(map(tuple, d))) < n:
                row[0] = row[0] + i * 7
        if len(set(map(tuple, d))) == n:
            return d


def build(r, tab):
    o = gen.build(r, tab, gen.any_type(r, tab))
    return o[0] if isinstance(o, tuple) else o


class Setup:
    """data and labels of one scenario"""
    def __init__(self, r, kind, n, grouped=False):
        self.r, self.kind = r, kind
        m = r.choice([1, 2, 2, 3])
        self.d = distinct(r, n, m, r.choice(['int', 'half']))
        self.groups, gid = None, None
        if grouped:
            k = r.choice(['str', 'int', 'miss'])
            self.groups = [r.choice(['u', 'v', 'w'] if k == 'str' else [1, 2, 5]) for _ in range(n)]
            if k == 'miss':
                self.groups = [None if r.random() < .2 else g for g in self.groups]
            if k == 'int' and r.random() < .7:          # a feature of the data
                gid = r.randint(0, m)
                for row, g in zip(self.d, self.groups):
                    row.insert(gid, g)
                m += 1
        self.m = m
        self.y = self.labels(n)
        pn, fn = gen.gen_names(r, gen.PN, n), gen.gen_names(r, gen.FN, m)
        self.inside = r.random() < .35
        self.yname = r.choice(['lab', 'out', None])
        if self.inside:
            at = r.randint(0, m)
            if gid is not None and at <= gid:
                gid += 1
            d = [row[:at] + [y] + row[at:] for row, y in zip(self.d, self.y)]
            fn = fn[:at] + [self.yname] + fn[at:]
            self.X = build(r, gen.Tab(d, m + 1, pn, fn))
            self.Y = self.yname if self.yname and r.random() < .5 else at
            self.at = at
        else:
            self.X = build(r, gen.Tab([list(x) for x in self.d], m, pn, fn))
            self.Y = build(r, gen.Tab([[y] for y in self.y], 1, gen.gen_names(r, gen.PN, n), [self.yname]))
        self.fold = None
        if grouped:
            if gid is not None:
                self.fold = fn[gid] if fn[gid] and r.random() < .5 else gid
            else:
                o = nimble.data([[g] for g in self.groups], useLog=False, treatAsMissing=[None])
                self.fold = o
        self.index = {(tuple(x), y): i + 1 for i, (x, y) in enumerate(zip(self.d, self.y))}
        self.known = {tuple(x): i + 1 for i, x in enumerate(self.d)}

    def labels(self, n):
        r = self.r
        if self.kind == 'Cls':
            return [r.choice([0, 1, 2]) for _ in range(n)]
        return [gen.value(r, 'int') for _ in range(n)]

    def more(self, n):
        """other data of the same form: (x object, y argument, rows, labels)"""
        r = self.r
        d = [[gen.value(r, 'int') for _ in range(self.m)] for _ in range(n)]
        y = self.labels(n)
        if self.inside and r.random() < .6:
            names = self.X.features.getNames()
            t = gen.Tab([x[:self.at] + [v] + x[self.at:] for x, v in zip(d, y)], self.m + 1, [None] * n, names)
            return build(r, t), r.choice([self.Y, None]) if r.random() < .5 else self.Y, d, y
        return build(r, gen.Tab([list(x) for x in d], self.m, [None] * n, [None] * self.m)), \
            build(r, gen.Tab([[v] for v in y], 1, [None] * n, [None])), d, y

    def call(self, c):
        """a recorded call with points as indices (0: not a point of the data)"""
        what, xs, ys = c
        if what == 't':
            idx = [self.index.get((tuple(x), y[0]), 0) for x, y in zip(xs, ys)]
            return ['t', idx, len(xs) == len(ys) and 0 not in idx]
        return ['a', [self.known.get(tuple(x), 0) for x in xs], True]


def vals(o):
    return [[enc.cell(v) for v in row] for row in o]


def tune_event(rec, r, st, given, sel, val, perf, table=None, how=None, tuning=None, args=None, extra_args=(), bad=""):
    """one tuning run: given [(name, values, tuned)], sel / val as in the model"""
    kind = st.kind
    ins = [o for o in (st.X, st.Y, st.fold) if isinstance(o, core.Base)]
    ev = {"op": "tune", "kind": 'Tab' if kind == 'TabInc' else kind, "x": vals(st.d), "y": [[enc.cell(v)] for v in st.y],
          "yn": [""], "given": [[k, list(v)] for k, v, _ in given], "sel": sel, "perf": perf, "bad": bad,
          "table": [], "calls": [], "fin": ["none"], "zx": [], "zy": [], "rep": [], "targs": [], "extra": True, "kept": "",
          "exc": "", "note": ""}
    kw = {}
    vx = vy = None
    if val[0] == 'data':
        vx, vy, d, y = st.more(r.randint(1, 3))
        ev["val"] = ["data", vals(d), [[enc.cell(v)] for v in y]]
        kw.update(validateX=vx, validateY=vy)
        ins += [o for o in (vx, vy) if isinstance(o, core.Base)]
    elif val[0] == 'group':
        ev["val"] = ["group", [enc.cell(g) for g in st.groups]]
        kw.update(foldFeature=st.fold)
    elif val[0] == 'folds':
        ev["val"] = val
        kw.update(folds=val[1])
    elif val[0] == 'prop':
        ev["val"] = val
        kw.update(proportion=val[1] / val[2])
    else:
        ev["val"] = val
    if table is not None:
        TABLE['names'] = [k for k, _, _ in given]
        TABLE['values'] = {tuple(v for _, v in k): p for k, p in table}
        ev["table"] = [[[list(p) for p in k], enc.cell(p)] for k, p in table]
    if sel[0] == 'consec':
        kw['loops'] = sel[2]
        if sel[1] != [k for k, _, t in given if t] or r.random() < .3:
            kw['order'] = list(sel[1])
        if 'order' in (args or {}):
            kw['order'] = args['order']
    if sel[0] == 'iter':
        kw['maxIterations'] = sel[1]
        if sel[2] != ["x"]:
            kw['threshold'] = Fraction(sel[2][1], sel[2][2]).__float__()
    kw.update(args or {})
    how = how or r.choice(['train', 'train', 'train', 'apply', 'test'])
    pf = PERF[perf]
    largs = {k: (nimble.Tune(list(v)) if t else v[0]) for k, v, t in given}
    if kind in ('Tab', 'TabInc') and r.random() < .3:
        largs['z'] = list(FIXED)
    largs.update(dict(extra_args))
    la, lk = (largs, {}) if r.random() < .5 else ({}, largs)      # in the order given
    seed = r.choice([None, r.randint(0, 99)])
    try:
        pre = [[core.observe(o), o.name or ""] for o in ins]
    except core.Unobservable:
        return None, None
    TRACE.clear()
    learners.OUT['how'] = r.randint(0, 2)
    tl = None
    zx, zy = st.X, st.Y
    try:
        if tuning is None:
            if kw.get('folds') == 5 and sel == ['consec', [k for k, _, t in given if t], 1] and r.random() < .3 \
                    and 'validation' not in kw:
                tuning = pf if how != 'test' or r.random() < .5 else None
            else:
                k2 = dict(kw)
                k2.setdefault('selection', r.choice(NAMES[sel[0]]))
                k2.setdefault('validation', r.choice(NAMES[val[0]]))
                if val[0] == 'prop' and 'validation' not in kw and r.random() < .4:
                    k2['validation'] = k2.pop('proportion')
                if not (how == 'test' and r.random() < .5) and 'performanceFunction' not in kw:
                    k2['performanceFunction'] = pf
                tuning = nimble.Tuning(**k2)
        L = KINDS[kind]
        if how == 'train':
            tl = limited(lambda: nimble.train(L, st.X, st.Y, la, randomSeed=seed, tuning=tuning, useLog=False, **lk))
        elif how == 'apply':
            zx, _, d, y = st.more(2) if not st.inside else (None, None, None, None)
            if zx is None:
                d = [[1] * st.m, [0] * st.m]
                zx = nimble.data(d, useLog=False)
            res = limited(lambda: nimble.trainAndApply(L, st.X, st.Y, zx, la, randomSeed=seed, tuning=tuning, useLog=False, **lk))
            ev["zx"] = vals(d)
            ev["fin"] = ["p", core.observe(res)["d"]]
        else:
            zx, zy, d, y = st.more(r.randint(1, 3))
            if zy is None:
                zy = st.Y
            res = limited(lambda: nimble.trainAndTest(L, pf, st.X, st.Y, zx, zy, la, randomSeed=seed, tuning=tuning,
                                                      useLog=False, **lk))
            ev["zx"], ev["zy"] = vals(d), [[enc.cell(v)] for v in y]
            ev["fin"] = ["v", enc.cell(res)]
        calls = [st.call(c) for c in TRACE]
        if ev["fin"][0] != "none":
            calls = calls[:-1]                   # the final application
        ev["calls"] = calls
        t = tuning if isinstance(tuning, nimble.Tuning) else None
        if tl is not None:
            t = tl.tuning
            ev["targs"] = pairs(tl.arguments)
            TRACE.clear()
            zx, _, d, y = st.more(2)
            if zx.shape[1] != st.m:
                zx = nimble.data(d, useLog=False)
            ev["zx"] = vals(d)
            ev["fin"] = ["p", core.observe(tl.apply(zx, useLog=False))["d"]]
        if t is not None:
            ev["rep"] = report(t)
    except Exception as e:
        ev["exc"], ev["note"] = type(e).__name__, str(e)[:200]
        ev["fin"] = ["none"]
    try:
        post = [[core.observe(o), o.name or ""] for o in ins]
    except core.Unobservable:
        post = [["unobservable"] for o in ins]
    ev["ins"] = [[a, b] for a, b in zip(pre, post)]
    return ev, (tuning, tl)


def pairs(d):
    out = []
    for k, v in d.items():
        if k == 'z':
            if v != FIXED:
                out.append([k, -1])
        else:
            out.append([k, int(v) if v == int(v) else repr(v)])
    return out


def report(t):
    deep = t.deepResults
    return {"best": enc.cell(t.bestResult), "bestargs": pairs(t.bestArguments),
            "results": [enc.cell(v) for v in t.allResults], "args": [pairs(a) for a in t.allArguments],
            "deep": [] if deep is None else [[enc.cell(v) for v in f] for f in deep]}


def emit(rec, ev):
    if ev is None:
        return
    ev["it"] = rec.tag
    ev["rk"] = enc.strings(ev.get("y"), ev.get("x"))
    rec.out.write(json.dumps(ev) + '\n')
    rec.n += 1
    rec.count(ev["op"] + ':' + (ev["sel"][0] + ':' + ev["val"][0] if ev["op"] == 'tune' else 'values') + ('!' if ev["exc"] else ''))


# --- generation --------------------------------------------------------------------
def gen_given(r, kind, single=False, most=12):
    names = TRAINP[kind][:]
    r.shuffle(names)
    names = names[:r.randint(1, len(names))]
    given, total = [], 1
    for i, k in enumerate(names):
        tuned = i == 0 or (not single and r.random() < .7)
        c = r.randint(1, 4) if tuned else 1
        if total * c > most:
            c = 1
        total *= c
        given.append((k, r.sample([-2, -1, 0, 1, 2, 3, 5], c), tuned))
    r.shuffle(given)
    return given


def gen_sel(r, given, what=None):
    what = what or r.choice(['brute', 'consec', 'consec'])
    tuned = [k for k, _, t in given if t]
    if what == 'brute':
        return ['brute']
    order = tuned[:]
    if r.random() < .4:
        r.shuffle(order)
    return ['consec', order, r.choice([1, 1, 2, 3])]


def gen_table(r, given, top=3):
    import itertools
    names = [k for k, _, _ in given]
    return [(list(zip(names, c)), r.randint(0, top)) for c in itertools.product(*[v for _, v, _ in given])]


def validation_run(rec, r):
    """T01: real folds, performance computed from predictions"""
    kind = r.choice(['Reg', 'Reg', 'Cls', 'Tab'])
    what = r.choice(['folds', 'folds', 'one', 'group', 'prop', 'data'])
    n = r.randint(2, 8) if what != 'group' else r.randint(3, 8)
    st = Setup(r, kind, n, what == 'group')
    given = gen_given(r, kind, most=4)
    sel = gen_sel(r, given)
    if what == 'folds':
        val = ['folds', r.choice([2, 2, 3, 4, n - 1, n, 5]) if r.random() < .92 else r.choice([0, -1, n + 1, 1])]
    elif what == 'prop':
        val = ['prop'] + r.choice([[1, 2], [1, 4], [3, 4], [1, 8], [1, 5], [2, 5]])
        if r.random() < .05:
            val = ['prop'] + r.choice([[0, 1], [1, 1], [3, 2], [-1, 4]])
    else:
        val = [what]
    perf = r.choice(['right', 'wrong', 'mae'] if kind == 'Cls' else ['mae', 'mae', 'wrong', 'low', 'high'])
    table = gen_table(r, given) if kind == 'Tab' else None
    ev, _ = tune_event(rec, r, st, given, sel, val, perf, table)
    emit(rec, ev)


BAD = [('selection', dict(selection='best')), ('validation', dict(validation='none')),
       ('iterative needs data', dict(selection='iterative', validation='cross validation')),
       ('loops', dict(loops=0)), ('validation type', dict(validation=['data']))]


def selection_run(rec, r, tab=None):
    """T02: performance given by a table, all ways of selecting"""
    kind = r.choice(['Tab', 'TabInc'])
    st = Setup(r, kind, r.randint(2, 5))
    what = r.choice(['brute', 'consec', 'consec', 'iter'])
    val = ['data'] if what == 'iter' or r.random() < .5 else ['folds', 2]
    if what == 'iter':
        given = gen_given(r, kind, single=r.random() < .6)
        k = next(k for k, _, t in given if t)
        if r.random() < .4:                      # long searches
            given = [(q, r.sample(range(-9, 9), r.randint(4, 7)) if q == k else v[:2], t) for q, v, t in given]
        sel = ['iter', r.choice([1, 2, 3, 100]), ["x"] if r.random() < .6 else enc.cell(r.choice([0, 1, 2, .5, 3]))]
    else:
        given = gen_given(r, kind)
        sel = gen_sel(r, given, what)
    perf = r.choice(['low', 'high'])
    top = r.choice([1, 2, 3, 9])
    bad, args, extra = "", {}, ()
    if r.random() < .06:
        b = r.randint(0, len(BAD) + 1)
        if b < len(BAD):
            bad, args = BAD[b]
            sel = ['consec', [k for k, _, t in given if t], 1]
        elif b == len(BAD) and sel[0] == 'consec':
            bad, args = 'order', dict(order=sel[1][1:])
        else:
            bad, extra = 'argument', (('unknown', nimble.Tune([1, 2])),)
    ev, got = tune_event(rec, r, st, given, sel, val, perf, gen_table(r, given, top), args=args, extra_args=extra, bad=bad)
    if ev is None:
        return
    emit(rec, ev)
    # the same Tuning object again: what the first learner says stays
    if got[1] is not None and isinstance(got[0], nimble.Tuning) and val[0] != 'data' and not ev["exc"] and r.random() < .5:
        first = report(got[1].tuning)
        ev2, _ = tune_event(rec, r, st, given, sel, val, perf, gen_table(r, given, top), tuning=got[0], how='train')
        if ev2 is not None:
            if report(got[1].tuning) != first:
                ev2["kept"] = "changed"
            emit(rec, ev2)


def values_run(rec, r):
    """the values of Tune objects"""
    ev = {"op": "values", "exc": "", "note": ""}

    def num():
        return r.choice([-3, -1, 0, 1, 2, 3, 4, 6, 8, 27, 100, .5, .25, 1.5, 2.5, .1, .3])
    kind = r.choice(['list', 'range', 'steps', 'steps', 'steps'])
    if kind == 'list':
        v = [r.choice([1, 2, 3, 5, .5, 'a', 'b', None]) for _ in range(r.randint(1, 4))]
        ev["a"] = ["list", [enc.cell(x) for x in v]]
        go = lambda: nimble.Tune(v if r.random() < .5 else tuple(v))
    elif kind == 'range':
        a = r.randint(-5, 6)
        s = r.choice([-3, -2, -1, 1, 1, 2, 3])
        v = range(a, a + s * r.randint(1, 4) + r.choice([0, 0, 1, -1]), s)
        if not len(v):
            return
        ev["a"] = ["list", [enc.cell(x) for x in v]]
        go = lambda: nimble.Tune(v)
    else:
        a = {}
        if r.random() < .8:
            a['start'] = num()
        a['end'] = num()
        if r.random() < .8:
            a['change'] = r.choice([-3, -2, -1, -.5, -.1, .1, .25, .5, 1, 1, 2, 2, 3, 10, 0])
        if r.random() < .6:
            a['changeType'] = r.choice(['add', 'add', 'multiply', 'multiply', 'multiply', 'power'])
        ch = Fraction(str(a.get('change', 1)))
        s, e = Fraction(str(a.get('start', 0))), Fraction(str(a['end']))
        if a.get('changeType') != 'multiply' and ch and abs((e - s) / ch) > 60:
            return
        if a.get('changeType') == 'multiply' and abs(ch - 1) < Fraction(1, 5):
            return
        ev["a"] = ["steps", enc.cell(a.get('start', 0)), enc.cell(a['end']), enc.cell(a.get('change', 1)), a.get('changeType', 'add')]
        go = lambda: nimble.Tune(**a)
    try:
        t = limited(go, 1)
        ev["values"] = [enc.cell(x) for x in t]
        if len(t) != len(ev["values"]) or any(enc.cell(t[i]) != v for i, v in enumerate(ev["values"])):
            ev["values"] = ["inconsistent"]
    except Exception as e:
        ev["exc"], ev["note"], ev["values"] = type(e).__name__, str(e)[:200], []
    emit(rec, ev)
