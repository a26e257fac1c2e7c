"""C01: histories of the settings object.  The first scenarios replay every
history of three steps of spec/SettingsPlan, the others are long random ones
with interface sections, odd values and hooks that fail."""
import configparser
import json
import os
import shutil
import tempfile
import nimble
from nimble.core.configuration import SessionConfiguration, setInterfaceOptions
from nimble.core.interfaces.universal_interface import UniversalInterface
from nv.plans import plans

KINDS = None
SECS = ['S', 'T', 'logger', 'sklearn', 'keras', 'autoimpute', 'nimble', 'custom', 'Sec Tion']
OPTS = ['a', 'A', 'location', 'b.c', 'foo']
VALS = ['1', '2', '', 'x y', '/tmp/50%', 'a;b#c', 'é', '%(a)s', 'True', '=1', '#', 'two\nlines']


class FakeInterface:
    def getCanonicalName(self):
        return 'fake'

    def optionNames(self):
        return ['a', 'q']


def kinds():
    """which sections belong to interfaces, as the interfaces say it"""
    global KINDS
    if KINDS is None:
        nimble.core._learnHelpers.initAvailablePredefinedInterfaces()
        KINDS = [['fake', 'none', ['a', 'q']]]
        for name, i in nimble.core.interfaces.available.items():
            if name in ('nimble', 'custom'):
                KINDS.append([name, 'fixed', []])
            else:
                KINDS.append([name, 'iface', list(i.optionNames())])
        for i in nimble.core.interfaces.predefined:
            if i.getCanonicalName() not in nimble.core.interfaces.available:
                KINDS.append([i.getCanonicalName(), 'away', []])
    return KINDS


def triples(d):
    return sorted([s, o, v] for s, os_ in d.items() for o, v in os_.items())


class Run:
    def __init__(self, rec, rng, start):
        self.rec, self.rng = rec, rng
        self.dir = tempfile.mkdtemp()
        self.path = os.path.join(self.dir, 'conf.ini')
        with open(self.path, 'w') as f:
            for s, o, v in start:
                f.write('[%s]\n%s = %s\n' % (s, o, v))
        self.cfg = SessionConfiguration(self.path)
        self.how = rng.randrange(3)
        self.fired = []
        self.emit('start', '', '', '', first=True)

    def current(self):
        """what is in force, read in one of three ways"""
        if self.how == 0:
            return triples(self.cfg.get())
        names = self.cfg.get()
        if self.how == 1:
            return triples({s: self.cfg.get(s) for s in names})
        return sorted([s, o, self.cfg.get(s, o)] for s in names for o in names[s])

    def stored(self):
        return triples(SessionConfiguration(self.path).get())

    def emit(self, op, s, o, v, exc='', ret=None, first=False):
        try:
            cur, sav = self.current(), self.stored()
        except Exception as e:
            ev = {"op": "bad", "exc": "read:%s:%s" % (type(e).__name__, str(e)[:80]), "s": s, "o": o, "v": v, "first": first}
        else:
            ev = {"op": op, "s": s, "o": o, "v": v, "exc": exc, "ret": ret or ["none"], "cur": cur, "saved": sav,
                  "fired": self.fired, "kinds": [k for k in kinds() if k[1] != 'none' or op == 'sync'], "first": first}
        ev['it'] = self.rec.tag
        self.fired = []
        self.rec.out.write(json.dumps(ev) + '\n')
        self.rec.n += 1
        self.rec.count(op + ('!' if exc else ''))

    def hook(self, h):
        if h == 'off':
            return None
        if h == 'bad':
            return self.rng.choice([5, 'f', lambda: None, lambda a, b: None])

        def called(newValue):
            self.fired.append([h, newValue])
            if h == 'boom':
                raise ZeroDivisionError('hook')
        return called

    def step(self, op, s, o, v):
        rng, cfg = self.rng, self.cfg
        exc, ret = '', None
        try:
            if op == 'set':
                cfg.set(s, o, v)
            elif op == 'setDefault':
                cfg.setDefault(s, o, v)
            elif op == 'save':
                if s == '' and o == '' and rng.random() < .5:
                    cfg.saveChanges()
                else:
                    cfg.saveChanges(s or None, o or None)
            elif op in ('get', 'getScribble'):
                r = cfg.get(s or None, o or None)
                if s and o:
                    ret = ['val', r]
                else:
                    ret = ['all', triples({s: r} if s else r)]
                    if op == 'getScribble':     # what was returned belongs to the caller
                        for k in list(r):
                            if isinstance(r[k], dict):
                                r[k].clear()
                            r[k] = 'scribble'
            elif op == 'str':
                p = configparser.ConfigParser(interpolation=None)
                p.optionxform = str
                p.read_string(str(cfg))
                ret = ['all', triples({x: dict(p[x]) for x in p.sections()})]
                repr(cfg)
            elif op == 'hook':
                cfg.hook(s, o, self.hook(v))
            elif op == 'reload':
                self.cfg = SessionConfiguration(self.path)
            elif op == 'sync':
                old = nimble.settings
                nimble.settings = cfg
                try:
                    setInterfaceOptions(FakeInterface(), v == 'save')
                finally:
                    nimble.settings = old
        except Exception as e:
            exc = type(e).__name__
        self.emit(op, s, o, v, exc, ret)


def scenario(rec, rng, i, tier):
    pl = plans()
    if i < len(pl):
        r = Run(rec, rng, [['S', 'a', '1']])
        steps = pl[i]
    else:
        r = Run(rec, rng, [['S', 'a', '1'], ['T', 'A', 'x']])
        secs, opts, vals = rng.sample(SECS, 3), rng.sample(OPTS, 2), rng.sample(VALS, 3)
        keys = [[rng.choice(secs), rng.choice(opts)] for _ in range(3)] + [['S', 'a']]
        steps = []
        for _ in range(rng.randint(6, 16)):
            s, o = rng.choice(keys)
            k = rng.random()
            if k < .4:
                steps.append(['set', s, o, rng.choice(vals)])
            elif k < .5:
                steps.append(['setDefault', s, o, rng.choice(vals)])
            elif k < .65:
                steps.append(['save', rng.choice(['', s]), rng.choice(['', '', o]), ''])
            elif k < .78:
                steps.append([rng.choice(['get', 'getScribble']), rng.choice(['', s, s]), rng.choice(['', o]), ''])
            elif k < .82:
                if 'two\nlines' not in vals:
                    steps.append(['str', '', '', ''])
            elif k < .92:
                steps.append(['hook', s, o, rng.choice(['h1', 'h1', 'h2', 'off', 'boom', 'bad'])])
            elif k < .96:
                steps.append(['sync', 'fake', '', rng.choice(['', 'save'])])
            else:
                steps.append(['reload', '', '', ''])
    try:
        for x in steps:
            r.step(*x)
    finally:
        shutil.rmtree(r.dir)
