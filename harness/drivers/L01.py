"""L01: histories of logged calls, logging settings, new sessions and showLog.
The log is read back in full through showLog after every call."""
import calendar
import contextlib
import datetime
import io
import json
import os
import re
import shutil
import tempfile
import time
import nimble
from nv.plans import plans

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']
DOTS = '.' * 79
TEXTS = ['vwa_b', 'vwaxb', 'vwa%b', 'vwab', 'vwa', 'vw.b', 'vwa b', 'vw(b)']
SEARCH = ['vwa_b', 'vwaxb', 'vwa%', 'a%b', 'vwa', 'vw.b', 'b', '_b', 'vwa b', 'w(b)', 'vw', '%', '_']
REGEX = ['vwa.b', 'vwa[_x]b', 'vw.*b', 'vwa?b', r'w\(b', r'vwa\s', 'vw(a|.)b']
BADDATES = ['18-03-24', '2018-3-24', '2018-02-31', '2018-03-24 1:00', 'today', '2018/03/24', '']
COUNT = [0]


def kind(head):
    if head.startswith('User - '):
        return 'user'
    if head in ('load', 'tl', 'report', 'prep', 'run', 'deepRun', 'tuning', 'setSeed'):
        return head         # shown without formatting
    if head.startswith('Loaded: '):
        return 'load'
    if re.match(r'(Summary|Feature) Report', head):
        return 'report'
    if re.match(r'(random\.setSeed|entered random\.|exited random\.)', head):
        return 'setSeed'
    if re.search(r'(Hyperparameter Tuning|Validation)\s*$', head):
        return 'tuning'
    if re.match(r'(KFold|LeaveOne|Holdout)\w*\("', head):
        return 'deepRun'
    if re.search(r'\(".*"\)\s*$', head):
        return 'run'
    return 'prep'


def stamp(s):
    return calendar.timegm(time.strptime(s, '%Y-%m-%d %H:%M:%S'))


def parse(text):
    """entries shown: [session, kind, token, time, text]"""
    out, sess = [], None
    for part in text.split(DOTS):
        m = re.fullmatch(r'\s*\.\s+SESSION (\d+)\s+\.\s*', part)
        if m:
            sess = int(m.group(1))
        elif part.strip() in ('NIMBLE LOGS', ''):
            continue
        else:
            lines = part.strip('\n').split('\n')
            head, ts = lines[0][:-19].rstrip(), lines[0][-19:]
            k = kind(head)
            if k == 'load' and 'Learner name' in part:
                k = 'tl'
            t = re.search(r'zq\d+z', part)
            tok = t.group(0) if t else ''
            if k == 'setSeed':
                tok = 's' + re.search(r'seed=(\d+)', part).group(1)
            out.append([sess, k, tok, stamp(ts), part])
    return out


class Learner(nimble.CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1):
        self.n = len(trainX.points)

    def incrementalTrain(self, trainX, trainY, a=1):
        self.n += len(trainX.points)

    def apply(self, testX):
        return nimble.data([[1.0]] * len(testX.points), useLog=False)


TL = None


def learner():
    global TL
    if TL is None:
        TL = nimble.train(Learner, x4('a', useLog=False), 1, useLog=False)
    return TL


def x4(tok, useLog=False, ty='Matrix'):
    return nimble.data([[float(i), float(i % 2)] for i in range(4)], name=tok, returnType=ty, useLog=useLog)


class Ctx:
    def __init__(self, rng, tok):
        self.rng, self.tok = rng, tok

    def obj(self, ty=None):
        """a small object named after the token"""
        return nimble.data([[1, 2, 0], [1, 5, 6], [2, 8, 9]], pointNames=['a', 'b', 'c'], featureNames=['x', 'y', 'z'],
                           name=self.tok, returnType=ty or self.rng.choice(TYPES), useLog=False)

    def y4(self):
        return nimble.data([[1.0], [2.0], [1.0], [2.0]], useLog=False)

    def csv(self):
        path = os.path.join(tempfile.gettempdir(), 'nv_l01.csv')
        with open(path, 'w') as f:
            f.write('1,2\n3,4\n')
        return path


def boom(*a):
    raise ZeroDivisionError('boom')


mean = nimble.calculate.rootMeanSquareError
# name -> (kind, function of (context, keywords), fails); every function makes one logged call
OPS = {
    'data': ('load', lambda c, k: nimble.data([[1, 2], [3, 4]], name=c.tok, returnType=c.rng.choice(TYPES + [None]), **k)),
    'dataFile': ('load', lambda c, k: nimble.data(c.csv(), name=c.tok, **k)),
    'random': ('load', lambda c, k: nimble.random.data(2, 3, .5, name=c.tok, **k)),
    'sort': ('prep', lambda c, k: c.obj().points.sort('x', **k)),
    'permute': ('prep', lambda c, k: c.obj().features.permute(**k)),
    'extract': ('prep', lambda c, k: c.obj().points.extract('a', **k)),
    'delete': ('prep', lambda c, k: c.obj().features.delete(lambda f: f[0] == 1, **k)),
    'retain': ('prep', lambda c, k: c.obj().points.retain([0, 2], **k)),
    'pcopy': ('prep', lambda c, k: c.obj().points.copy('b', **k)),
    'transformP': ('prep', lambda c, k: c.obj().points.transform(lambda p: [v + 1 for v in p], **k)),
    'calculateF': ('prep', lambda c, k: c.obj().features.calculate(sum, **k)),
    'matchingP': ('prep', lambda c, k: c.obj().points.matching(lambda p: p[0] > 1, **k)),
    'insert': ('prep', lambda c, k: c.obj().points.insert(0, nimble.data([[7, 7, 7]], pointNames=['n'], featureNames=['x', 'y', 'z'], useLog=False), **k)),
    'append': ('prep', lambda c, k: c.obj().features.append(nimble.data([[7], [7], [7]], pointNames=['a', 'b', 'c'], featureNames=['n'], useLog=False), **k)),
    'repeat': ('prep', lambda c, k: c.obj().points.repeat(2, True, **k)),
    'replace': ('prep', lambda c, k: c.obj().features.replace(nimble.data([[7], [7], [7]], pointNames=['a', 'b', 'c'], featureNames=['x'], useLog=False), **k)),
    'setNames': ('prep', lambda c, k: c.obj().points.setNames(['q', 'r', 's'], **k)),
    'fill': ('prep', lambda c, k: c.obj().features.fillMatching(nimble.fill.mean, 0, **k)),
    'normalize': ('prep', lambda c, k: c.obj().features.normalize(nimble.calculate.range0to1Normalize, **k)),
    'mapReduce': ('prep', lambda c, k: c.obj().points.mapReduce(lambda p: [(p[0], 1)], lambda kk, v: (kk, sum(v)), **k)),
    'splitByParsing': ('prep', lambda c, k: nimble.data([['a-b'], ['c-d']], featureNames=['f'], name=c.tok, useLog=False)
                       .features.splitByParsing('f', lambda v: v.split('-'), ['g', 'h'], **k)),
    'transpose': ('prep', lambda c, k: c.obj().transpose(**k)),
    'flatten': ('prep', lambda c, k: c.obj().flatten(**k)),
    'elements': ('prep', lambda c, k: c.obj().transformElements(lambda v: v + 1, **k)),
    'calcElements': ('prep', lambda c, k: c.obj().calculateOnElements(lambda v: v + 1, **k)),
    'matchElements': ('prep', lambda c, k: c.obj().matchingElements(1, **k)),
    'group': ('prep', lambda c, k: c.obj().groupByFeature('x', **k)),
    'onehot': ('prep', lambda c, k: c.obj().replaceFeatureWithBinaryFeatures('x', **k)),
    'intcode': ('prep', lambda c, k: c.obj().transformFeatureToIntegers('x', **k)),
    'rectangle': ('prep', lambda c, k: c.obj().replaceRectangle(0, 0, 0, 0, 0, **k)),
    'sets': ('prep', lambda c, k: c.obj().trainAndTestSets(.34, **k)),
    'merge': ('prep', lambda c, k: c.obj().merge(nimble.data([[7], [7]], pointNames=['a', 'b'], featureNames=['w'], useLog=False), 'union', 'union', **k)),
    'report': ('report', lambda c, k: c.obj().report(**k)),
    'featureReport': ('report', lambda c, k: nimble.data([[1, 2], [3, 4]], featureNames=['a', c.tok], useLog=False).features.report(**k)),
    'train': ('run', lambda c, k: nimble.train(Learner, x4(c.tok), 1, **k)),
    'trainA': ('run', lambda c, k: nimble.train('nimble.KNNClassifier', x4(c.tok), c.y4(), k=1, **k)),
    'trainAndApply': ('run', lambda c, k: nimble.trainAndApply(Learner, x4(c.tok), c.y4(), x4('t'), **k)),
    'trainAndTest': ('run', lambda c, k: nimble.trainAndTest(Learner, mean, x4(c.tok), c.y4(), x4('t'), c.y4(), **k)),
    'onTraining': ('run', lambda c, k: nimble.trainAndTestOnTrainingData(Learner, mean, x4(c.tok), c.y4(), **k)),
    'normalizeData': ('run', lambda c, k: nimble.normalizeData('sklearn.StandardScaler', x4(c.tok), **k)),
    'apply': ('run', lambda c, k: learner().apply(nimble.data([[1.0]], name=c.tok, useLog=False), **k)),
    'test': ('run', lambda c, k: learner().test(mean, nimble.data([[1.0]], name=c.tok, useLog=False), nimble.data([[1.0]], useLog=False), **k)),
    'retrain': ('run', lambda c, k: learner().retrain(x4(c.tok), 1, **k)),
    'incremental': ('run', lambda c, k: learner().incrementalTrain(x4(c.tok), 1, **k)),
    'fillMatching': ('run', lambda c, k: nimble.fillMatching('nimble.KNNImputation', 0, c.obj('Matrix'), mode='regression', k=1, **k)),
    'tune': ('tune', lambda c, k: nimble.train(Learner, x4(c.tok), 1, a=nimble.Tune([1, 2, 3]),
                                               tuning=nimble.Tuning(folds=2, performanceFunction=mean), **k)),
    'tuneApply': ('tune', lambda c, k: nimble.trainAndApply(Learner, x4(c.tok), c.y4(), x4('t'), a=nimble.Tune([1, 2, 3]),
                                                            tuning=nimble.Tuning(folds=2, performanceFunction=mean), **k)),
    'tuneTest': ('tune', lambda c, k: nimble.trainAndTest(Learner, mean, x4(c.tok), c.y4(), x4('t'), c.y4(), a=nimble.Tune([1, 2, 3]),
                                                          tuning=nimble.Tuning(folds=2), **k)),
    'validate': ('deep', lambda c, k: nimble.core.tune.KFold(Learner, x4(c.tok), c.y4(), mean, folds=6 - 2, **k).validate()),
    'copy': ('quiet', lambda c, k: c.obj().copy(to=c.rng.choice(TYPES))),
    'count': ('quiet', lambda c, k: c.obj().points.count('x > 1')),
    'stats': ('quiet', lambda c, k: c.obj().features.statistics('mean')),
    'unique': ('quiet', lambda c, k: c.obj().points.unique()),
    'plus': ('quiet', lambda c, k: c.obj() + 1),
    'view': ('quiet', lambda c, k: c.obj().points[0]),
    'str': ('quiet', lambda c, k: str(c.obj())),
    'scores': ('quiet', lambda c, k: learner().getAttributes()),
    'draw': ('quiet', lambda c, k: nimble.random.generateSubsidiarySeed()),
    'ones': ('quiet', lambda c, k: nimble.ones(2, 2)),
    'rmse': ('quiet', lambda c, k: mean(c.y4(), c.y4())),
}
FAIL = {
    'dataBad': ('load', lambda c, k: nimble.data([[1, 2], [3]], name=c.tok, **k)),
    'randomBad': ('load', lambda c, k: nimble.random.data(0, 3, .5, name=c.tok, **k)),
    'sortBad': ('prep', lambda c, k: c.obj().points.sort('nope', **k)),
    'deleteBad': ('prep', lambda c, k: c.obj().features.delete('nope', **k)),
    'transformBad': ('prep', lambda c, k: c.obj().points.transform(boom, **k)),
    'elementsBad': ('prep', lambda c, k: c.obj().transformElements(boom, **k)),
    'setNamesBad': ('prep', lambda c, k: c.obj().points.setNames(['q', 'q', 's'], **k)),
    'unflattenBad': ('prep', lambda c, k: c.obj().unflatten((2, 2), **k)),
    'trainBad': ('run', lambda c, k: nimble.train('nimble.Nope', x4(c.tok), 1, **k)),
    'trainYBad': ('run', lambda c, k: nimble.train(Learner, x4(c.tok), 'nope', **k)),
    'applyBad': ('run', lambda c, k: learner().apply(nimble.data([[1.0, 2.0, 3.0]], name=c.tok, useLog=False), **k)),
    'seedBad': ('setSeed', lambda c, k: nimble.random.setSeed('abc', **k)),
    'reportBad': ('report', lambda c, k: c.obj().report('nope', **k)),
}
SLOW = ['normalizeData', 'fillMatching']
CUT = [n for n in OPS if n not in SLOW]


class Run:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.dir = tempfile.mkdtemp()
        self.cur = 'A/log0'
        self.texts = {}         # token -> text the entry carries
        self.shift = 0
        nimble.settings.set('logger', 'enabledByDefault', 'True')
        nimble.settings.set('logger', 'enableDeepLogging', 'False')
        nimble.settings.set('logger', 'name', 'log0')
        nimble.settings.set('logger', 'location', os.path.join(self.dir, 'A'))
        self.event('start', what=self.cur)

    def token(self):
        COUNT[0] += 1
        return 'zq%dz' % COUNT[0]

    def dump(self):
        path = os.path.join(self.dir, 'dump.txt')
        nimble.showLog(levelOfDetail=3, leastSessionsAgo=0, mostSessionsAgo=10 ** 6, maximumEntries=None, saveToFileName=path)
        with open(path, encoding='utf-8') as f:
            return parse(f.read())

    def now(self):
        return calendar.timegm(time.localtime())

    def event(self, op, what='', flag=False, kind='', n=0, useLog='none', tok='', exc='', bad=False, q=None, shown=None, t0=0, t1=0):
        t1 = self.now()
        try:
            full = self.dump()
        except Exception as e:
            ev = {"op": "bad", "exc": "read:%s:%s" % (type(e).__name__, str(e)[:80])}
            full = None
        else:
            self.full = full
            ev = {"op": op, "what": what, "flag": flag, "kind": kind, "n": n, "useLog": useLog, "tok": tok, "exc": exc,
                  "bad": bad, "q": q or 0, "shown": shown or [], "t0": t0, "t1": t1, "log": [x[:4] for x in full]}
        ev["it"] = self.rec.tag
        self.rec.out.write(json.dumps(ev) + '\n')
        self.rec.n += 1
        self.rec.count((what or op) if op == 'call' else op + ('!' if exc else ''))

    # ---- steps
    def call(self, name, useLog='none'):
        rng = self.rng
        bad = name in FAIL
        kind, f = (FAIL if bad else OPS)[name]
        tok = self.token()
        c = Ctx(rng, tok)
        k = {} if useLog == 'none' and rng.random() < .7 else {'useLog': {'none': None, 'yes': True, 'no': False}[useLog]}
        exc, t0 = '', self.now()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(c, k)
        except Exception as e:
            exc = type(e).__name__
        seen = {'report': tok if name == 'featureReport' else '', 'deep': ''}.get(kind, tok)
        if kind == 'tune':
            self.event('call', name, kind=kind, n=6, useLog=useLog, tok=tok, exc=exc, bad=bad, t0=t0)
        else:
            self.event('call', name, kind=kind, n=4 if kind == 'deep' else 0, useLog=useLog, tok=seen, exc=exc, bad=bad, t0=t0)

    def user(self, bad=False):
        rng, tok = self.rng, self.token()
        text = rng.choice(TEXTS)
        head = rng.choice(['note ', 'load ', 'run ', 'prep ', 'setSeed ', 'tuning ', "it's \"", 'x' * 30]) + tok
        info = rng.choice([text, [text, 1], {'k': text}, {'k': [1, text], 'j': None}, [1.5, text, float('nan')]])
        if bad:
            head, info = rng.choice([(5, 'x'), ('y' * 51, 'x'), ('h', 5), ('h', None), ('h', (1, 2))])
        exc, t0 = '', self.now()
        try:
            nimble.log(head, info)
            self.texts[tok] = text
        except Exception as e:
            exc = type(e).__name__
        self.event('call', 'user', kind='user', tok=tok, exc=exc, bad=bad, t0=t0)

    def seed(self, useLog='none', control=False):
        COUNT[0] += 1
        s = COUNT[0]
        exc, t0 = '', self.now()
        k = {} if useLog == 'none' else {'useLog': useLog == 'yes'}
        try:
            if control:
                try:
                    with nimble.random.alternateControl(s, **k):
                        if self.rng.random() < .5:
                            raise KeyError('leave')
                except KeyError:
                    pass
            else:
                nimble.random.setSeed(s, **k)
        except Exception as e:
            exc = type(e).__name__
        self.event('call', 'control' if control else 'setSeed', kind='control' if control else 'setSeed', useLog=useLog,
                   tok='s%d' % s, exc=exc, t0=t0)

    def option(self, op, flag):
        exc = ''
        try:
            nimble.settings.set('logger', 'enabledByDefault' if op == 'enabled' else 'enableDeepLogging',
                                self.rng.choice(['True', 'true'] if flag else ['False', 'false']))
        except Exception as e:
            exc = type(e).__name__
        self.event(op, flag=flag, exc=exc)

    def switch(self, to=None):
        """another log: a new session starts"""
        exc = ''
        a, b = self.cur.split('/')
        if to is not None:
            na, nb = to
        elif self.rng.random() < .5:
            na, nb = ('B' if a == 'A' else 'A'), b
        else:
            na, nb = a, ('log1' if b == 'log0' else 'log0')
        try:
            if na != a:
                nimble.settings.set('logger', 'location', os.path.join(self.dir, na))
            if nb != b:
                nimble.settings.set('logger', 'name', nb)
        except Exception as e:
            exc = type(e).__name__
        self.cur = na + '/' + nb
        self.event('switch', self.cur, exc=exc)

    def zone(self):
        """the clock moves (the only clock nimble has is local time)"""
        os.environ['TZ'] = 'UTC%+d' % self.rng.choice([0, 2, -3, 11, -9])
        time.tzset()

    def date(self, t):
        """a date in one of the accepted formats, and its time"""
        d = datetime.datetime.utcfromtimestamp(t)
        k = self.rng.randrange(4)
        if k == 0:
            d = d.replace(hour=0, minute=0, second=0)
            return d.strftime('%Y-%m-%d'), calendar.timegm(d.timetuple())
        if k == 1:
            d = d.replace(second=0)
            return d.strftime('%Y-%m-%d %H:%M'), calendar.timegm(d.timetuple())
        if k == 2:
            return d.strftime('%Y-%m-%d %H:%M:%S'), t
        return d, t

    def show(self, bad=False):
        rng = self.rng
        a, q = {}, {"level": 2, "least": 0, "most": 1, "from": -1, "to": -1, "max": 100, "search": False, "hits": []}
        if rng.random() < .7:
            a['levelOfDetail'] = q['level'] = rng.choice([1, 2, 3, 3])
        if rng.random() < .8:
            q['least'] = rng.choice([0, 0, 1, 2])
            q['most'] = q['least'] + rng.choice([0, 1, 1, 2, 3, 5])
            a['leastSessionsAgo'], a['mostSessionsAgo'] = q['least'], q['most']
        if rng.random() < .3 and self.full:
            a['startDate'], q['from'] = self.date(rng.choice(self.full)[3] + rng.choice([0, 1, -1, 3600]))
        if rng.random() < .3 and self.full:
            a['endDate'], q['to'] = self.date(rng.choice(self.full)[3] + rng.choice([0, 1, -1, 7200]))
        if q['from'] >= 0 and q['to'] >= 0 and q['from'] > q['to']:
            bad = True
        if rng.random() < .4:
            m = rng.choice([0, 1, 2, 3, 5, None])
            a['maximumEntries'] = m
            q['max'] = -1 if m is None else m
        if rng.random() < .35:
            q['search'] = True
            if rng.random() < .3:
                s = rng.choice(REGEX)
                a['regex'] = True
                hit = lambda x: re.search(s, x)
            else:
                s = rng.choice(SEARCH if all(x[1] == 'user' for x in self.full) else [x for x in SEARCH if x.startswith('vw')])
                hit = lambda x: s in x
            if s in ('_', '%', 'b', '_b', 'a%b', 'w(b)') and any(x[1] != 'user' for x in self.full):
                s = 'vwa'
            a['searchForText'] = s
            q['hits'] = [i + 1 for i, x in enumerate(self.full) if hit(self.texts.get(x[2], '')) or (s == 'b' and False)]
        elif rng.random() < .1:
            # every entry carries its own token
            if self.full:
                t = rng.choice(self.full)[2]
                if t.startswith('z'):
                    q['search'], a['searchForText'] = True, t
                    q['hits'] = [i + 1 for i, x in enumerate(self.full) if t in x[4]]
        if bad and not (q['from'] >= 0 and q['to'] >= 0 and q['from'] > q['to']):
            a.update(rng.choice([{'levelOfDetail': 0}, {'levelOfDetail': 4}, {'leastSessionsAgo': -1},
                                 {'leastSessionsAgo': 3, 'mostSessionsAgo': 2}, {'startDate': rng.choice(BADDATES)},
                                 {'endDate': rng.choice(BADDATES)}]))
        exc, shown = '', []
        path = os.path.join(self.dir, 'out.txt')
        how = rng.randrange(4)
        try:
            if how == 0:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    nimble.showLog(**a)
                text = out.getvalue()
            elif how == 1:
                with open(path, 'w') as f:
                    f.write('mark')
                nimble.showLog(saveToFileName=path, append=True, **a)
                with open(path, encoding='utf-8') as f:
                    text = f.read()
                if not text.startswith('mark'):
                    raise AssertionError('overwritten')
                text = text[4:]
            else:
                nimble.showLog(saveToFileName=path, **a)
                with open(path, encoding='utf-8') as f:
                    text = f.read()
            shown = [x[:3] for x in parse(text)]
        except Exception as e:
            exc = type(e).__name__ + ('' if bad else ':' + str(e)[:60])
        self.event('show', exc=exc, bad=bad, q=q, shown=shown)


USE = ['none', 'none', 'none', 'yes', 'no']


def scenario(rec, rng, i, tier):
    pl = plans()
    r = Run(rec, rng)
    try:
        if i < len(pl):
            for op, arg in pl[i]:
                if op == 'call':
                    r.call('data', arg)
                elif op == 'fail':
                    r.call('dataBad', arg)
                elif op == 'user':
                    r.user()
                elif op == 'switch':
                    r.switch(arg.split('/'))
                elif op == 'enabled':
                    r.option('enabled', arg == 'yes')
                elif op == 'show':
                    r.show()
            r.show()
            return
        few = rng.sample(CUT, 6) + [rng.choice(list(FAIL))] + ([rng.choice(SLOW)] if rng.random() < .05 else [])
        only = rng.random() < .25       # user entries only: any text can be searched for
        for _ in range(rng.randint(5, 14)):
            k = rng.random()
            if k < .42:
                r.user() if only else r.call(rng.choice(few), rng.choice(USE))
            elif k < .54:
                r.user(rng.random() < .15)
            elif k < .58 and not only:
                r.seed(rng.choice(USE), rng.random() < .5)
            elif k < .66:
                r.option(rng.choice(['enabled', 'enabled', 'deepset']), rng.random() < .5)
            elif k < .76:
                r.switch()
            elif k < .82:
                r.zone()
            else:
                r.show(rng.random() < .15)
        for _ in range(rng.randint(1, 3)):
            r.show()
    finally:
        os.environ.pop('TZ', None)
        time.tzset()
        nimble.settings.set('logger', 'enabledByDefault', 'False')
        nimble.core.logger.active.cleanup()
        shutil.rmtree(r.dir)
