"""M01: histories of training, applying, testing, retraining, extending, saving
and loading probe learners.  The first scenarios replay histories enumerated
by spec/LearnPlan, the others are random."""
import os
import shutil
import tempfile
import nimble
from nv import enc, gen, core, learners
from nv.learners import KINDS, TRAIN, APPLY, PERF
from nv.plans import plans

LABS = ['a', 'b', 'cc', 'B']
SLOTS = 3
M_CHOICES = [1, 2, 2, 3]


def ident(v):
    return ["s", v] if isinstance(v, str) else ["i", int(v)]


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.tl, self.kind = {}, {}
        self.m = rng.choice(M_CHOICES)
        self.ny = rng.choice([1, 1, 1, 2])
        self.strings = rng.random() < .4
        self.dicts = []           # (dict, contents when given)
        self.objs = []
        self.tmp = None

    # --- inputs ------------------------------------------------------------
    def obj(self, tab, ty=None):
        o = gen.build(self.rng, tab, ty or gen.any_type(self.rng, tab))
        return o[0] if isinstance(o, tuple) else o

    def xtab(self, n, m):
        r = self.rng
        k = r.choice(['int', 'float', 'half'])
        d = [[gen.value(r, k) for _ in range(m)] for _ in range(n)]
        return gen.Tab(d, m, gen.gen_names(r, gen.PN, n), gen.gen_names(r, gen.FN, m))

    def labels(self, kind, n, ny):
        r = self.rng
        if kind == 'Cls' and self.strings:
            return [[r.choice(LABS)] for _ in range(n)]
        if kind == 'Cls':
            return [[r.choice([0, 1, 2])] for _ in range(n)]
        return [[gen.value(r, 'int') for _ in range(ny)] for _ in range(n)]

    def data(self, kind, n=None, m=None, labeled=None, wrong=False):
        """(x object, y argument, y encoded); the objects are remembered"""
        r = self.rng
        n = r.randint(1, 4) if n is None else n
        m = self.m if m is None else m
        x = self.xtab(n, m)
        lab = (kind != 'Trans') if labeled is None else labeled
        if not lab:
            xo = self.obj(x)
            return xo, None, ["none"]
        ny = 1 if kind == 'Cls' else self.ny
        if r.random() < .45:                       # labels inside x
            y = self.labels(kind, n, 1)
            at = r.randint(0, m)
            d = [row[:at] + yy + row[at:] for row, yy in zip(x.d, y)]
            fn = x.fn[:at] + [r.choice([None, 'lab', 'y'])] + x.fn[at:]
            t = gen.Tab(d, m + 1, x.pn, fn)
            xo = self.obj(t)
            idn = at if fn[at] is None or r.random() < .5 else fn[at]
            if wrong:
                idn = r.choice(['nope', m + 1, m + 5])
            elif isinstance(idn, int) and r.random() < .15:
                idn -= m + 1
            return xo, idn, ["id", ident(idn)]
        k = n + 1 if wrong else n
        y = self.labels(kind, k, ny)
        t = gen.Tab(y, ny, gen.gen_names(r, gen.PN, k), gen.gen_names(r, ['lab', 'y', 'out', 'f0'], ny))
        xo, yo = self.obj(x), self.obj(t)
        return xo, yo, ["obj", yo]

    def args(self, names, bad=0.08):
        r = self.rng
        a, kw = {}, {}
        for p in names:
            if r.random() < .55:
                v = r.choice([-2, -1, 0, 1, 2, 3, 5])
                (a if r.random() < .5 else kw)[p] = v
                if r.random() < .1:
                    a[p] = kw[p] = v
        if r.random() < bad:
            (a if r.random() < .5 else kw)[r.choice(['zz', 'trainX', 'a', 'b', 'c', 'k'])] = r.choice([1, 4])
        if a and r.random() < bad / 3:
            k = r.choice(list(a))
            kw[k] = a[k] + 1
        return a, kw

    def pairs(self, d):
        return [[k, v] for k, v in d.items()]

    # --- one call -------------------------------------------------------------
    def call(self, op, a, ins, fn, given=(), kind=None):
        ins = [o for o in ins if isinstance(o, nimble.core.data.Base)]
        for d in given:
            self.dicts.append((d, dict(d)))
        try:
            pre = [core.observe(o) for o in ins]
        except core.Unobservable as e:
            return self.emit({"op": "bad", "exc": 'pre:' + str(e), "a": a})
        a = {k: (core.observe(v[1]) if k == '?' else self.encode(v)) for k, v in a.items()}
        learners.OUT['how'] = self.rng.randint(0, 3)
        exc, note, res = "", "", None
        try:
            res = fn()
        except Exception as e:
            exc, note = type(e).__name__, str(e)[:160]
        try:
            post = [core.observe(o) for o in ins]
            r = self.result(res) if not exc else ["none"]
        except core.Unobservable as e:
            return self.emit({"op": "bad", "exc": 'post:' + op + ':' + str(e) + exc, "a": a})
        self.emit({"op": op, "a": a, "ins": [[p, q] for p, q in zip(pre, post)], "res": r, "exc": exc, "note": note,
                   "dicts": [[self.pairs(d), self.pairs(w)] for d, w in self.dicts], "obs": self.observe()})
        return res if not exc else None

    def encode(self, v):
        if isinstance(v, nimble.core.data.Base):
            return core.observe(v)
        if isinstance(v, list) and len(v) == 2 and v[0] == "obj":
            return ["obj", core.observe(v[1])]
        return v

    def result(self, res):
        if isinstance(res, nimble.core.data.Base):
            t = core.observe(res)
            t["lab"] = [enc.cell(learners.label(n)) for n in t["fn"]]
            return ["t", t]
        if isinstance(res, tuple):
            return ["tt", core.observe(res[0]), core.observe(res[1])]
        if isinstance(res, (int, float)) or hasattr(res, 'dtype'):
            return ["v", enc.cell(res), enc.cell(float(res) * float(res))]
        return ["none"]

    def observe(self):
        out = []
        for s, tl in self.tl.items():
            seed = tl.randomSeed
            out.append([s, self.pairs(tl.arguments), tl.learnerType,
                        int(seed) if isinstance(seed, int) and abs(seed) < 2 ** 31 else -1, tl.learnerName])
        return out

    def emit(self, ev):
        full = {"a": {}, "ins": [], "res": ["none"], "exc": "", "note": "", "dicts": [], "obs": []}
        full.update(ev)
        full["it"] = self.rec.tag
        full["rk"] = enc.strings(full["a"], full["ins"], full["res"], LABS)
        self.rec.out.write(core.json.dumps(full) + '\n')
        self.rec.n += 1
        self.rec.count(full["op"] + ('!' if full["exc"] else ''))

    # --- the operations -----------------------------------------------------------
    def learner(self, kind):
        c = KINDS[kind]
        if self.rng.random() < .3 and c.__name__ in nimble.core.interfaces.available['custom'].registeredLearners:
            return 'custom.' + c.__name__
        return c

    def seed(self):
        return self.rng.randint(1, 99) if self.rng.random() < .3 else None

    def step(self, op=None, slot=None, kind=None, wrong=None, args=None, n=None, to=None):
        r = self.rng
        live = sorted(self.tl)
        op = op or r.choice(['train'] * 3 + ['apply', 'test', 'scores', 'retrain', 'extend'] * 2 * bool(live)
                            + ['saveload'] * bool(live) + ['trainApply', 'trainTest', 'onTraining', 'normalize', 'touch'])
        wrong = r.random() < .06 if wrong is None else wrong
        if op == 'train':
            kind = kind or r.choice(list(KINDS))
            slot = slot or r.randint(1, SLOTS)
            x, y, ye = self.data(kind, n, wrong=wrong)
            a, kw = self.args(TRAIN[kind] + APPLY[kind]) if args is None else args
            if kind == 'Need' and 'a' not in a and 'a' not in kw and r.random() < .85:
                a['a'] = r.choice([1, 2])
            seed = self.seed()
            self.tl.pop(slot, None)
            L = self.learner(kind)

            def go():
                tl = nimble.train(L, x, y, a if a or r.random() < .5 else None, randomSeed=seed, useLog=False, **kw)
                self.tl[slot] = tl
                self.kind[slot] = kind
                return None
            self.call(op, {"slot": slot, "kind": kind, "x": x, "y": ye, "args": self.pairs(a), "kw": self.pairs(kw),
                           "seed": seed or -1}, [x, y], go, [a])
        elif op in ('retrain', 'extend'):
            slot = slot or r.choice(live)
            if slot not in self.tl:
                return
            kind, tl = self.kind[slot], self.tl[slot]
            if r.random() < .1:
                self.ny = r.choice([1, 2])
            m = None if op == 'extend' or r.random() < .7 else r.choice(M_CHOICES)
            x, y, ye = self.data(kind, n, m=m, wrong=wrong)
            a, kw = self.args(TRAIN[kind] + APPLY[kind] * (op == 'retrain' or r.random() < .2)) if args is None else args
            seed = self.seed()
            if op == 'extend':
                a.update(kw)
                kw = {}
            if op == 'extend':
                go = lambda: tl.incrementalTrain(x, y, a if a or r.random() < .5 else None, randomSeed=seed, useLog=False)
            else:
                go = lambda: tl.retrain(x, y, a if a or r.random() < .5 else None, randomSeed=seed, useLog=False, **kw)
            self.call(op, {"slot": slot, "x": x, "y": ye, "args": self.pairs(a), "kw": self.pairs(kw), "seed": seed or -1},
                      [x, y], go, [a])
        elif op in ('apply', 'scores'):
            slot = slot or r.choice(live)
            if slot not in self.tl:
                return
            kind, tl = self.kind[slot], self.tl[slot]
            m = self.m if r.random() < .93 else r.choice(M_CHOICES)
            x = self.obj(self.xtab(r.randint(1, 4), m))
            a, kw = self.args(APPLY[kind]) if args is None else args
            mode = r.choice([None, None, None, 'bestScore', 'allScores', 'best'] if kind != 'Cls' or r.random() < .5
                            else ['bestScore', 'allScores'])
            if op == 'apply':
                go = lambda: tl.apply(x, a if a or r.random() < .5 else None, mode, useLog=False, **kw)
            else:
                go = lambda: tl.getScores(x, a if a or r.random() < .5 else None, **kw)
            self.call(op, {"slot": slot, "x": x, "args": self.pairs(a), "kw": self.pairs(kw), "mode": mode or "none"},
                      [x], go, [a])
        elif op == 'test':
            slot = slot or r.choice(live)
            if slot not in self.tl:
                return
            kind, tl = self.kind[slot], self.tl[slot]
            x, y, ye = self.data(kind, labeled=True if kind != 'Trans' else None, wrong=wrong)
            a, kw = self.args(APPLY[kind]) if args is None else args
            p = self.perf(kind)
            self.call(op, {"slot": slot, "x": x, "y": ye, "args": self.pairs(a), "kw": self.pairs(kw), "perf": p}, [x, y],
                      lambda: tl.test(PERF[p], x, y, a if a or r.random() < .5 else None, useLog=False, **kw), [a])
        elif op == 'saveload':
            slot = slot or r.choice(live)
            to = to or r.randint(1, SLOTS)
            if slot not in self.tl or slot == to:
                return
            if self.tmp is None:
                self.tmp = tempfile.mkdtemp(prefix='nv')
            path = os.path.join(self.tmp, r.choice(['l', 'l.pickle', 'l.nimm']))
            tl = self.tl[slot]
            self.tl.pop(to, None)

            def go():
                tl.save(path)
                full = path if '.' in os.path.basename(path) else path + '.pickle'
                if r.random() < .5:
                    self.tl[to] = nimble.loadTrainedLearner(full, useLog=False)
                else:
                    with open(full, 'rb') as f:
                        self.tl[to] = nimble.loadTrainedLearner(f, useLog=False)
                self.kind[to] = self.kind[slot]
            self.call(op, {"slot": slot, "to": to}, [], go)
        elif op in ('trainApply', 'trainTest', 'onTraining', 'normalize'):
            kind = 'Trans' if op == 'normalize' else kind or r.choice(['Reg', 'Need', 'Cls', 'Cls', 'Trans'] if op == 'trainApply'
                                                                      else ['Reg', 'Need', 'Cls', 'Cls'])
            x, y, ye = self.data(kind, wrong=wrong)
            a, kw = self.args(TRAIN[kind] + APPLY[kind]) if args is None else args
            if kind == 'Need' and 'a' not in a and 'a' not in kw and r.random() < .85:
                a['a'] = r.choice([1, 2])
            seed = self.seed()
            L = self.learner(kind)
            A = {"kind": kind, "x": x, "y": ye, "args": self.pairs(a), "kw": self.pairs(kw), "seed": seed or -1}
            arg = a if a or r.random() < .5 else None
            if op in ('trainApply', 'normalize'):
                z = None if r.random() < .3 else self.obj(self.xtab(r.randint(1, 4), self.m))
                A["z"] = ["none"] if z is None else ["obj", z]
                if op == 'normalize':
                    go = lambda: nimble.normalizeData(L, x, y, z, arg, randomSeed=seed, useLog=False, **kw)
                else:
                    mode = r.choice([None, None, 'bestScore', 'allScores'] if kind == 'Cls' else [None, None, None, 'allScores'])
                    A["mode"] = mode or "none"
                    go = lambda: nimble.trainAndApply(L, x, y, z, arg, randomSeed=seed, scoreMode=mode, useLog=False, **kw)
                self.call(op, A, [x, y, z], go, [a])
            else:
                p = self.perf(kind)
                A["perf"] = p
                if op == 'onTraining':
                    self.call(op, A, [x, y], lambda: nimble.trainAndTestOnTrainingData(
                        L, PERF[p], x, y, arguments=arg, randomSeed=seed, useLog=False, **kw), [a])
                else:
                    how = r.choice(['both', 'both', 'both', 'none', 'xonly'])
                    if how == 'both':
                        z, zy, zye = self.data(kind)
                    elif how == 'xonly':
                        z, zy, zye = self.obj(self.xtab(r.randint(1, 4), self.m)), None, ["none"]
                        if ye[0] == 'id':       # the labels of testX at the same place
                            z, zy, zye = x.copy(), None, ["none"]
                    else:
                        z, zy, zye = None, None, ["none"]
                    A["z"] = ["none"] if z is None else ["obj", z]
                    A["zy"] = zye
                    self.call(op, A, [x, y, z, zy], lambda: nimble.trainAndTest(
                        L, PERF[p], x, y, z, zy, arg, randomSeed=seed, useLog=False, **kw), [a])
        elif op == 'touch':
            # the caller changes a mapping or an object given before
            if self.dicts:
                i = r.randrange(len(self.dicts))
                d, _ = self.dicts[i]
                d['a'] = d.get('a', 0) + 7
                self.dicts[i] = (d, dict(d))
                self.call(op, {}, [], lambda: None)

    def perf(self, kind):
        if kind == 'Cls':
            return self.rng.choice(['wrong', 'right', 'scored', 'wrong', 'mae', 'total'])
        return self.rng.choice(['mae', 'rmse', 'total', 'wrong', 'mae'])


ARGS = {'-': {}, 'a2': {'a': 2}, 'a3': {'a': 3}, 'b3': {'b': 3}, 'c5': {'c': 5}, 'bad': {'zz': 1}}


def tab(rows, fn):
    return gen.Tab([list(r) for r in rows], len(rows[0]), [None] * len(rows), fn)


def replay(w, plan):
    """one history of spec/LearnPlan, its data in random forms"""
    r = w.rng
    x1, y1 = w.obj(tab([[1, 2], [0, 3], [5, 0]], ['f', 'g'])), w.obj(tab([[1], [0], [1]], ['lab']))
    x2, y2 = w.obj(tab([[4, 1], [2, 2]], [None, None])), w.obj(tab([[2], [1]], [None]))
    xb, test = w.obj(tab([[4, 1]], [None, None])), w.obj(tab([[1, 1], [3, 0]], [None, None]))
    testy = w.obj(tab([[1], [0]], ['truth']))
    slot = 1

    def form(x, y):
        """labels apart or inside"""
        if r.random() < .5 or len(x.points) != len(y.points):
            return x, y, ["obj", y]
        both = x.copy()
        both.features.append(y, useLog=False)
        idn = 2 if y.features.getNames()[0] is None else r.choice([2, 'lab'])
        return both, idn, ["id", ident(idn)]

    def probe():
        kind, tl = w.kind[slot], w.tl[slot]
        mode = r.choice(['none', 'bestScore', 'allScores']) if kind == 'Cls' else 'none'
        w.call('apply', {"slot": slot, "x": test, "args": [], "kw": [], "mode": mode}, [test],
               lambda: tl.apply(test, scoreMode=None if mode == 'none' else mode, useLog=False))

    for c in plan:
        op, a = c[0], dict(ARGS[c[-1]])
        if op == 'train':
            kind = c[1]
            L = w.learner(kind)
            x, y, ye = form(x1, y1)

            def go():
                w.tl[slot] = nimble.train(L, x, y, a, useLog=False)
                w.kind[slot] = kind
            w.call('train', {"slot": slot, "kind": kind, "x": x, "y": ye, "args": w.pairs(a), "kw": [], "seed": -1}, [x, y], go, [a])
        elif slot not in w.tl:
            return
        elif op in ('retrain', 'retrainData', 'extend'):
            tl = w.tl[slot]
            x, y, ye = form(xb if op == 'retrainData' else x2, y2)
            if op == 'extend':
                w.call('extend', {"slot": slot, "x": x, "y": ye, "args": w.pairs(a), "kw": [], "seed": -1}, [x, y],
                       lambda: tl.incrementalTrain(x, y, a, useLog=False), [a])
            else:
                kw = a if r.random() < .5 else {}
                pos = {} if kw else a
                w.call('retrain', {"slot": slot, "x": x, "y": ye, "args": w.pairs(pos), "kw": w.pairs(kw), "seed": -1}, [x, y],
                       lambda: tl.retrain(x, y, pos, useLog=False, **kw), [pos])
        elif op == 'apply':
            tl = w.tl[slot]
            w.call('apply', {"slot": slot, "x": test, "args": w.pairs(a), "kw": [], "mode": "none"}, [test],
                   lambda: tl.apply(test, a, useLog=False), [a])
        elif op == 'saveload':
            to = slot % SLOTS + 1
            w.step('saveload', slot=slot, to=to)
            slot = to
        if slot in w.tl:
            probe()
    tl = w.tl.get(slot)
    if tl is not None:
        p = w.perf(w.kind[slot])
        w.call('test', {"slot": slot, "x": test, "y": ["obj", testy], "args": [], "kw": [], "perf": p}, [test, testy],
               lambda: tl.test(PERF[p], test, testy, useLog=False))


def scenario(rec, rng, i, tier):
    w = World(rng, rec)
    w.emit({"op": "start"})
    pl = plans()
    try:
        if i < len(pl):
            return replay(w, pl[i])
        for _ in range(rng.randint(4, 9)):
            w.step()
    finally:
        if w.tmp:
            shutil.rmtree(w.tmp, ignore_errors=True)
