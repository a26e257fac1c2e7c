"""Saving objects to files and loading them again."""
import csv
import gzip
import os
import nimble
from . import enc, gen

TEXTS = ['a', 'b', 'x y', 'c,d', 'q"t', '"q"', 'e\nf', 'é', 'ab"c,"', '5', '1.5', 'True', 'B', "it's", '3 apples', 'c;d', 'tab\tx', ',', 'e\n\nf']
NAMES = ['p1', 'b', 'x y', '7', 'c,d', 'q"t', '"q"', 'é', 'zz', 'aa', 'r-1', '10', 'a;b', 'pointNames2']
MISS = ('', 'nan', 'None', 'NULL', 'NA')


def reading(s):
    if s in MISS:
        return [s, 'miss', ["x"]]
    for f, k in ((int, 'num'), (float, 'num')):
        try:
            return [s, k, enc.cell(f(s))]
        except ValueError:
            pass
    if s in ('True', 'False'):
        return [s, 'bool', enc.cell(s == 'True')]
    return [s, 'str', ["s", s]]


def table(rng):
    many = rng.random() < .12
    n = 0 if rng.random() < .04 else rng.randint(10, 14) if many else rng.randint(1, 5)
    m = 0 if rng.random() < .04 else rng.randint(1, 4)
    kind = rng.choice(['num', 'num', 'num', 'text', 'text', 'mix'])

    def column():
        k = rng.choice(['int', 'half', 'miss', 'none', 'tenth', 'big'] if kind == 'num' else
                       ['int', 'half', 'miss', 'text', 'text', 'bool', 'both', 'textmiss', 'boolmiss'])
        if k in ('int', 'half', 'miss', 'none', 'bool'):
            return [gen.value(rng, k) for _ in range(n)]
        if k == 'tenth':
            return [rng.randint(-30, 30) / 10 for _ in range(n)]
        if k == 'big':
            return [rng.choice([2 ** 30 + 1, 123456.75, 1 / 1024, 10 ** 6, -7, 0]) for _ in range(n)]
        if k == 'text':
            return [rng.choice(TEXTS) for _ in range(n)]
        if k == 'textmiss':
            return [rng.choice(TEXTS + [None, gen.nan] * 4) for _ in range(n)]
        if k == 'boolmiss':
            return [rng.choice([True, False, None]) for _ in range(n)]
        return [rng.choice([rng.choice(TEXTS), rng.randint(0, 9), 2.5]) for _ in range(n)]
    cols = [column() for _ in range(m)]

    def names(k):
        r = rng.random()
        if r < .4 or not k:
            return [None] * k
        ns = rng.sample(NAMES + ['k%d' % i for i in range(max(0, k - 6))], k)
        if r < .6:
            ns = [x if rng.random() < .6 else None for x in ns]
        return ns
    pn, fn = names(n), names(m)
    if rng.random() < .05 and pn and pn[0]:
        pn[0] = 'a/b'
    return gen.Tab([[c[i] for c in cols] for i in range(n)], m, pn, fn)


def save_load(rec, rng, ty):
    tab = table(rng)
    text = any(isinstance(v, str) for r in tab.d for v in r)
    fmt = rng.choice(['csv', 'csv', 'csv', 'mtx', 'hdf5', 'h5', 'pickle', 'p', 'pkl', 'csv', 'mtx'])
    if rng.random() < .02:
        fmt = rng.choice(['txt', 'xls', 'cvs'])
    obj = rec.build(rng, tab, ty, view=bool(tab.n and tab.m) and rng.random() < .2)
    if obj is None:
        return
    tab_ty = obj.getTypeString()
    inc = rng.random() < .8
    byext = rng.random() < .6
    ext = fmt if byext else rng.choice(['', '.dat', '.tmp'])
    if byext and rng.random() < .15:
        ext = fmt.upper()
    path = os.path.abspath('saved_%d%s' % (rng.randint(0, 9), '.' + ext if byext else ext))
    if os.path.exists(path):
        os.remove(path)
    if rng.random() < .1:
        with open(path, 'w') as f:
            f.write('old,content\n' * 50)
        old = True
    else:
        old = False
    named = lambda ns: inc and any(x is not None for x in ns)
    rtys = ['', 'List', 'Matrix', 'DataFrame'] + ([] if any(not isinstance(v, (int, float)) or isinstance(v, bool) for r in tab.d for v in r) else ['Sparse'])
    rty = rng.choice(rtys)
    a = {"fmt": fmt, "inc": inc, "rty": rty, "orig": tab_ty, "stage": "save", "made": False, "sep": False,
         "bools": [[isinstance(v, bool) for v in r] for r in tab.d],
         "anymiss": any(v is None or v != v for r in tab.d for v in r),
         "oddname": inc and any(x is not None and (',' in x or x != x.strip()) for x in tab.pn + tab.fn),
         "slash": inc and any(x is not None and ('/' in x or x == '.') for x in tab.pn), "rd": []}

    def load():
        kw = {'returnType': rty or None}
        if fmt == 'csv':
            kw.update(pointNames=named(tab.pn), featureNames=named(tab.fn), inputSeparator=',')
        if rng.random() < .2:
            kw['name'] = 'loaded'
        r = rng.random()
        if r < .15:
            with open(path, 'rb') as f:
                return nimble.data(f, **kw)
        if r < .25 and fmt == 'csv':
            with open(path, 'r', newline=None) as f:
                return nimble.data(f, **kw)
        if r < .35 and fmt in ('csv', 'mtx'):
            with open(path, 'rb') as f, gzip.open(path + '.gz', 'wb') as g:
                g.write(f.read())
            try:
                return nimble.data(path + '.gz', **kw)
            finally:
                os.remove(path + '.gz')
        if r < .5 and os.path.dirname(path) == os.getcwd():
            return nimble.data(os.path.basename(path), **kw)
        return nimble.data(path, **kw)

    def go():
        try:
            args = {} if byext else {'fileFormat': fmt}
            if fmt == 'csv' and not byext and ext == '' and rng.random() < .5:
                args = {}
            if not inc or rng.random() < .3:
                args['includeNames'] = inc
            obj.save(path, **args)
            a["stage"] = "load"
            ret = load()
            a["rd"] = [reading(s) for s in sorted({v for o in (obj, ret) for r in o.copy(to='python list') for v in r
                                                   if isinstance(v, str)})]
            return ret
        finally:
            a["made"] = not old and os.path.exists(path)
            a["sep"] = csv.excel.delimiter != ','
            csv.excel.delimiter = ','
            if os.path.exists(path):
                os.remove(path)
    rec.call('saveLoad', a, obj, go)
