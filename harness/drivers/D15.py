"""D15: nimble.data builds the table its source describes."""
import copy
import csv
import io
import os
import tempfile
import numpy as np
import pandas as pd
import scipy.sparse
import nimble
from nv import enc, gen, core

nan = float('nan')
DEFMISS = [["x"], ["s", ""], ["s", "None"], ["s", "nan"]]
WORDS = ['a', 'b', 'cc', 'B', 'zz', 'd e', 'a,b', 'q"t', 'None', 'nan', '7', 'pointNames']
TMP = [None]


def how_read(s):
    """how Python reads a text"""
    if s == '':
        return [s, "none", ["x"]]
    try:
        return [s, "int", enc.cell(int(s))]
    except ValueError:
        pass
    try:
        return [s, "float", enc.cell(float(s))]
    except ValueError:
        pass
    if s in ('True', 'False'):
        return [s, "bool", enc.cell(s == 'True')]
    return [s, "str", ["s", s]]


def mutate_source(src):
    """change a value of the source in place; False when it has none"""
    if isinstance(src, np.ndarray):
        if src.size:
            src[(0,) * src.ndim] = 77
            return True
    elif isinstance(src, pd.DataFrame):
        if src.size:
            src.iat[0, 0] = 77
            return True
    elif scipy.sparse.issparse(src):
        if src.nnz and hasattr(src, 'data') and isinstance(src.data, np.ndarray):
            src.data[0] = 77
            return True
    elif isinstance(src, nimble.core.data.Base):
        if src.shape[0] and src.shape[1]:
            src.replaceRectangle(77, 0, 0, 0, 0, useLog=False)
            return True
    elif isinstance(src, dict):
        k = next(iter(src), None)
        if k is not None:
            if isinstance(src[k], list) and src[k]:
                src[k][0] = 77
            elif isinstance(src[k], np.ndarray) and src[k].size:
                src[k][0] = 77
            else:
                src[k] = 77
            return True
    elif isinstance(src, list) and src:
        if isinstance(src[0], (list, dict, np.ndarray, nimble.core.data.Base)):
            return mutate_source(src[0])
        if isinstance(src[0], tuple):
            src[0] = (77,) * len(src[0])
        else:
            src[0] = 77
        return True
    return False


def snap(src):
    if isinstance(src, np.ndarray):
        return (str(src.dtype), repr(src.tolist()))
    if isinstance(src, pd.DataFrame):
        return (repr(src.values.tolist()), list(src.index), list(src.columns), [str(x) for x in src.dtypes])
    if scipy.sparse.issparse(src):
        return (type(src).__name__, str(src.dtype), repr(src.toarray().tolist()), src.nnz)
    if isinstance(src, nimble.core.data.Base):
        return repr(core.observe(src))
    if isinstance(src, dict):
        return [(k, snap(v)) for k, v in src.items()]
    if isinstance(src, (list, tuple)):
        return (type(src).__name__, [snap(v) for v in src])
    return repr(src)


def names_arg(rng, mode, k, pool, dup=False):
    """(argument, model) for an axis of length k"""
    if mode in ('true', 'false', 'auto'):
        return {'true': True, 'false': False if rng.random() < .6 else None, 'auto': 'automatic'}[mode], [mode]
    if mode == 'bad':
        return rng.choice([5, 2.5]), ["bad"]
    ns = rng.sample(pool, min(k, len(pool)))
    if dup and len(ns) > 1:
        ns[-1] = ns[0]
    r = rng.random()
    if r < .3 and not dup and ns:
        order = list(enumerate(ns))
        rng.shuffle(order)
        return {n: i for i, n in order}, ["list", ns]
    if r < .4 and ns:
        return tuple(ns), ["list", ns]
    if r < .5 and k > 1 and not dup:
        ns[rng.randrange(len(ns))] = None
    return list(ns), ["list", ["" if n is None else n for n in ns]]


def pick_ids(rng, k, names, ints):
    """some identifiers of an axis with k members (names: known names)"""
    r = rng.random()
    cnt = rng.randint(1, max(1, k if r < .25 else k - 1)) if k else 1
    pos = rng.sample(range(k), min(cnt, k)) or [0]
    ids = []
    for p in pos:
        if not ints and names and p < len(names) and names[p] and rng.random() < .6:
            ids.append(names[p])
        else:
            ids.append(p)
    r = rng.random()
    if r < .05:
        ids.append(ids[0])
    elif r < .1:
        ids.append(rng.choice([k, k + 1, 'nope']))
    elif r < .15 and names and pos[0] < len(names) and names[pos[0]]:
        ids.append(pos[0] if isinstance(ids[0], str) else names[pos[0]])
    return ids


def mid(ids):
    return [["s", i] if isinstance(i, str) else ["i", i] for i in ids]


def grid_values(rng, n, m, kind):
    if kind == 'num':
        ks = [rng.choice(('int', 'float', 'half', 'int')) for _ in range(m)]
    elif kind == 'int':
        ks = ['int'] * m
    elif kind == 'miss':
        ks = [rng.choice(('int', 'miss', 'half')) for _ in range(m)]
    else:
        ks = [rng.choice(('int', 'str', 'str', 'miss', 'half')) for _ in range(m)]
    return [[rng.choice(WORDS + ['']) if k == 'str' else gen.value(rng, k) for k in ks] for _ in range(n)]


def text_values(rng, n, m):
    """columns of a text file"""
    cols = []
    for _ in range(m):
        k = rng.choice(('int', 'float', 'mixnum', 'str', 'str', 'bool', 'boolnum', 'empty', 'numstr', 'nan'))
        one = {'int': lambda: str(rng.randint(-3, 9)), 'float': lambda: str(rng.randint(-6, 9) / 2),
               'mixnum': lambda: str(rng.choice([1, 2, 0.5, -1.5, 3])), 'str': lambda: rng.choice(WORDS),
               'bool': lambda: rng.choice(['True', 'False']), 'boolnum': lambda: rng.choice(['True', 'False', '1', '0']),
               'empty': lambda: '', 'numstr': lambda: rng.choice(['1', '2', 'x', '2.5']),
               'nan': lambda: rng.choice(['nan', '1', '2.5', 'None'] if rng.random() < .3 else ['nan', '1', '2'])}[k]
        hole = rng.choice([0, 0, .3, .6])
        cols.append([('' if rng.random() < hole else one()) for _ in range(n)])
    return [[cols[j][i] for j in range(m)] for i in range(n)]


def write_csv(rng, grid, sep, path):
    out = io.StringIO()
    if rng.random() < .2:
        out.write(rng.choice(['#comment line\n', '\n', '\n\n', '# one\n# two\n']))
    w = csv.writer(out, delimiter=sep, lineterminator='\n', quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
    for i, row in enumerate(grid):
        if len(row) == 1 and row[0] == '':
            out.write('""\n')
        else:
            w.writerow(row)
        if i and rng.random() < .08:
            out.write('\n')
    txt = out.getvalue()
    if rng.random() < .2:
        txt = txt.rstrip('\n')
    with open(path, 'w', newline=rng.choice(['\n', '\n', '\r\n'])) as f:
        f.write(txt)


def make(rng, form):
    """source object and abstract source"""
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    a = {"form": form, "rl": [], "cl": [], "det": {"p": False, "f": False}}
    gs = None
    hints = {'p': None, 'f': None, 'strs': False}
    if form == 'grid':
        kind = rng.choice(('num', 'int', 'miss', 'mixed', 'mixed'))
        g = grid_values(rng, n, m, kind)
        emb = (rng.random() < .5, rng.random() < .6)
        if emb[1] or rng.random() < .1:
            head = rng.sample(gen.FN, m)
            if rng.random() < .1 and m > 1:
                head[-1] = head[0]
            g.insert(0, head)
            hints['f'] = head
        if emb[0]:
            col = rng.sample(gen.PN, len(g))
            if rng.random() < .05 and len(g) > 2:
                col[-1] = col[-2]
            for r, x in zip(g, col):
                r.insert(0, x)
            if hints['f']:
                g[0][0] = rng.choice(['pointNames', 'ID', 'pointNames'])
                hints['p'] = col[1:]
            else:
                hints['p'] = col
        c = rng.choice(('list', 'list', 'tuples', 'array', 'rowarrays', 'sparse', 'iter', 'flat', 'flatarray', 'matrix'))
        numeric = all(isinstance(v, (int, float)) for r in g for v in r)
        if c == 'sparse' and not numeric or (c in ('array', 'rowarrays', 'matrix', 'flatarray') and any(v is None for r in g for v in r)):
            c = 'list'
        if c in ('flat', 'flatarray'):
            g = g[:1]
            if hints['p']:
                hints['p'] = hints['p'][:1]
        if c in ('array', 'matrix', 'rowarrays', 'flatarray'):
            if numeric:
                isint = all(isinstance(v, int) for r in g for v in r)
                arr = np.array(g, dtype=int if isint and rng.random() < .7 else float)
            else:
                arr = np.array(g, dtype=object)
            g = arr.tolist()
            src = {'array': lambda: arr, 'matrix': lambda: np.matrix(arr), 'rowarrays': lambda: [r.copy() for r in arr],
                   'flatarray': lambda: arr[0].copy()}[c]()
        elif c == 'sparse':
            src = rng.choice([scipy.sparse.coo_matrix, scipy.sparse.csr_matrix, scipy.sparse.csc_matrix])(np.array(g, dtype=float))
            g = np.array(g, dtype=float).tolist()
        else:
            src = {'list': lambda: [list(r) for r in g], 'tuples': lambda: tuple(tuple(r) for r in g),
                   'iter': lambda: iter([list(r) for r in g]), 'flat': lambda: list(g[0])}[c]()
        a['kind'] = c
        gs = [[str(v) for v in r] for r in g]
        hints['np'] = c in ('sparse',)
    elif form == 'frame':
        g = grid_values(rng, n, m, rng.choice(('num', 'int', 'miss', 'mixed')))
        rl = rng.sample(gen.PN, n) if rng.random() < .6 else list(range(n))
        cl = rng.sample(gen.FN, m) if rng.random() < .7 else list(range(m))
        src = pd.DataFrame([list(r) for r in g], index=rl, columns=cl)
        a['rl'], a['cl'] = [str(x) for x in rl], [str(x) for x in cl]
        a['kind'] = 'frame'
        hints['p'], hints['f'] = a['rl'], a['cl']
    elif form == 'rows':
        g = grid_values(rng, n, m, rng.choice(('num', 'int', 'miss', 'mixed')))
        a['rl'] = rng.sample(gen.PN, n)
        src = {k: list(r) for k, r in zip(a['rl'], g)}
        a['kind'] = 'dict'
        hints['p'] = a['rl']
    elif form == 'cols':
        g = grid_values(rng, n, m, rng.choice(('num', 'int', 'miss', 'mixed')))
        a['cl'] = rng.sample(gen.FN, m)
        src = []
        for r in g:
            items = list(zip(a['cl'], r))
            if src and rng.random() < .3:
                rng.shuffle(items)
            src.append(dict(items))
        a['kind'] = 'dicts'
        hints['f'] = a['cl']
    elif form in ('base', 'bases'):
        tab = gen.gen_table(rng, kinds=('int', 'half', 'float', 'miss', 'str', 'mixnb'), nr=(1, 4), mr=(1, 4) if form == 'base' else (2, 4))
        if form == 'base':
            ty = gen.any_type(rng, tab)
            src = gen.as_view(rng, tab, ty) if rng.random() < .3 else gen.direct(tab, ty)
        else:
            src = [gen.direct(gen.Tab([r], tab.m, [p], tab.fn), gen.any_type(rng, gen.Tab([r], tab.m, [p], tab.fn)))
                   for r, p in zip(tab.d, tab.pn)]
        g = tab.d
        a['rl'] = ["" if x is None else x for x in tab.pn]
        a['cl'] = ["" if x is None else x for x in tab.fn]
        a['kind'] = form
        hints['p'], hints['f'] = a['rl'], a['cl']
    if form != 'csv':
        a['g'] = [[enc.cell(v) for v in r] for r in g]
        a['gs'] = gs if gs is not None else [["" for _ in r] for r in g]
        a['m'] = len(g[0])
        hints['vals'] = [v for r in g for v in r]
        return src, a, hints
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    g = text_values(rng, n, m)
    if rng.random() < .6:
        head = rng.sample(gen.FN, m)
        if rng.random() < .1 and m > 1:
            head[-1] = head[0]
        if rng.random() < .1:
            head[rng.randrange(m)] = ''
        g.insert(0, head)
        hints['f'] = head
    if rng.random() < .5:
        col = [str(x) for x in rng.sample(gen.PN, len(g))] if rng.random() < .6 else [str(x) for x in range(10, 10 + len(g))]
        if rng.random() < .1 and len(g) > 2:
            col[-1] = col[-2]
        for r, x in zip(g, col):
            r.insert(0, x)
        if hints['f']:
            g[0][0] = rng.choice(['pointNames', 'ID', '', ''])
            hints['p'] = col[1:]
        else:
            hints['p'] = col
    if rng.random() < .08:
        for r in g:
            r.append('')
    if g[0] and (g[0][0].startswith('#')):
        g[0][0] = 'h'
    a['g'] = [[["s", v] for v in r] for r in g]
    a['gs'] = g
    a['m'] = len(g[0])
    a['kind'] = 'csv'
    hints['vals'] = [v for r in g for v in r]
    return g, a, hints


def scenario(rec, rng, i, tier):
    for k in range(2):
        one(rec, rng, '%s' % i)


def one(rec, rng, tag):
    form = rng.choice(('grid', 'grid', 'grid', 'frame', 'rows', 'cols', 'base', 'bases', 'csv', 'csv', 'csv', 'csv'))
    src, a, h = make(rng, form)
    rap = rng.random() < .8 or a['kind'] in ('flat', 'flatarray', 'bases')
    vals = h['vals']
    kw = {}
    rows, cols = len(a['g']), a['m']
    # numbers of points and features, when no names are taken out of the source
    n, m = (rows, cols) if rap else (cols, rows)
    hp, hf = (h['p'], h['f']) if rap else (h['f'], h['p'])
    # names
    pmodes = ['auto', 'auto', 'true', 'false', 'list']
    pmode, fmode = rng.choice(pmodes), rng.choice(pmodes)
    if form in ('grid', 'csv') and rng.random() < .7:
        # mostly what the source has
        pmode = rng.choice(['true', 'auto'] if hp else ['false', 'list', 'auto'])
        fmode = rng.choice(['true', 'auto', 'true'] if hf else ['false', 'list', 'auto'])
    if form == 'grid' and a['kind'] in ('flat', 'flatarray') and (pmode == 'true' or fmode == 'true'):
        pmode = fmode = 'auto'
    if form == 'grid' and a['kind'] == 'sparse':
        pmode, fmode = ('false' if x in ('true', 'auto') else x for x in (pmode, fmode))
    if rng.random() < .02:
        pmode = 'bad'
    # how many points there will be, as far as the driver can tell
    np_, nf = n, m
    if form in ('grid', 'csv'):
        if fmode == 'true' or (fmode == 'auto' and hf):
            np_ -= 1
        if pmode == 'true' or (pmode == 'auto' and hp and (hf and rows and (a['gs'][0][0] in ('pointNames', '')))):
            nf -= 1
    np_, nf = max(np_, 0), max(nf, 0)
    kp = rng.random() < .25
    kf = rng.random() < .25
    dup = rng.random() < .04

    def axis(mode, k, pool, keys, keep):
        ln = k if rng.random() < .93 else k + rng.choice([-1, 1])
        if mode == 'list' and keys and form in ('rows', 'cols') and rng.random() < .8:
            ns = list(keys)
            rng.shuffle(ns)
            return ns, ["list", ns]
        sub = None
        if mode == 'list' and keep and rng.random() < .4 and k > 1:
            ln = sub = rng.randint(1, k - 1)
        arg, mod = names_arg(rng, mode, max(ln, 0), pool, dup)
        return arg, mod, sub
    pa, pm, *ps = axis(pmode, np_, gen.PN, hp if form in ('rows', 'cols') else None, kp)
    fa, fm, *fs = axis(fmode, nf, gen.FN, hf if form in ('rows', 'cols') else None, kf)
    if pmode != 'auto' or rng.random() < .3:
        kw['pointNames'] = pa
    if fmode != 'auto' or rng.random() < .3:
        kw['featureNames'] = fa
    a['pn'], a['fn'] = pm, fm

    def keeps(want, k, mod, found, sub):
        if not want or k == 0:
            return ["all"]
        names = mod[1] if mod[0] == 'list' else (found if mod[0] in ('true', 'auto') else None)
        if sub and sub[0]:
            ids = rng.sample(range(k), min(sub[0], k))
        else:
            ids = pick_ids(rng, k, names, False)
        return ids
    kpa, kfa = keeps(kp, np_, pm, hp, ps), keeps(kf, nf, fm, hf, fs)
    a['kp'] = ["all"] if kpa == ["all"] else ["ids", mid(kpa)]
    a['kf'] = ["all"] if kfa == ["all"] else ["ids", mid(kfa)]
    if kpa != ["all"]:
        kw['keepPoints'] = list(kpa)
    if kfa != ["all"]:
        kw['keepFeatures'] = list(kfa)
    # missing values
    r = rng.random()
    a['tam'], a['rep'], a['emptymiss'] = DEFMISS, ["x"], True
    texts = list(vals)
    if r < .12:
        kw['treatAsMissing'] = rng.choice([None, []])
        a['tam'], a['emptymiss'] = [], False
    elif r < .3 and vals:
        pool = [v for v in vals if v == v and v is not None] or [1]
        sel = rng.sample(pool, min(len(pool), rng.randint(1, 2)))
        if form == 'csv':
            # of a number of the file either its text or its value
            sel = [how_read(s) for s in sel]
            sel = [(s[0] if s[1] in ('str', 'none', 'bool') else float(s[0])) for s in sel]
            sel = [s for s in sel if s == s and s not in ('True', 'False')]
        full = rng.random() < .5
        lst = sel + ([nan, None, '', 'None', 'nan'] if full else [])
        a['tam'] = [enc.cell(v) for v in lst]
        a['emptymiss'] = '' in lst
        kw['treatAsMissing'] = lst
    if rng.random() < .15:
        rep = rng.choice([-1, 0, 9.5, 'M'])
        if rep == 'M' and a['kind'] == 'sparse':
            rep = -1
        kw['replaceMissingWith'] = rep
        a['rep'] = enc.cell(rep)
        texts.append(str(rep))
    a['rap'] = rap
    if not rap:
        kw['rowsArePoints'] = False
    a['ign'] = False
    if form == 'csv' and rng.random() < .12:
        kw['ignoreNonNumericalFeatures'] = True
        a['ign'] = True
    # conversion
    a['conv'] = ["none"]
    TY = {"num": [float, float, np.float64], "str": [str], "none": [None, object]}
    if rng.random() < .2 and 'treatAsMissing' not in kw and nf > 0:
        r = rng.random()
        kinds = ['num', 'num', 'str']
        if r < .35:
            k = rng.choice(kinds)
            kw['convertToType'] = rng.choice(TY[k])
            a['conv'] = ["one", k]
        elif r < .65:
            ln = len(kfa) if kfa != ["all"] and rng.random() < .6 else nf
            ln = ln if rng.random() < .93 else ln + 1
            ks = [rng.choice(kinds + ['none']) for _ in range(ln)]
            kw['convertToType'] = [rng.choice(TY[k]) for k in ks]
            a['conv'] = ["list", ks]
        else:
            nmz = fm[1] if fm[0] == 'list' else (hf or [])
            d = {}
            for j in rng.sample(range(nf), rng.randint(1, nf)):
                key = nmz[j] if j < len(nmz) and nmz[j] and rng.random() < .7 else j
                k = rng.choice(kinds)
                d[key] = (k, TY[k][0])
            if rng.random() < .08:
                d['nope'] = ('str', str)
            kw['convertToType'] = {k: v[1] for k, v in d.items()}
            a['conv'] = ["dict", [[mid([k])[0], v[0]] for k, v in d.items()]]
    # type
    rts = ['List', 'Matrix', 'DataFrame', None, None]
    numeric = all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals)
    if numeric and a['conv'] == ["none"] and a['rep'][0] != 's':
        rts += ['Sparse', 'Sparse', 'Sparse']
    rt = rng.choice(rts)
    if a['kind'] == 'sparse' and (a['conv'] != ["none"] or a['rep'][0] == 's'):
        rt = 'List'
    if form in ('base', 'bases') and (a['conv'] != ["none"] or a['rep'][0] == 's') and rt is None:
        rt = 'DataFrame'
    kw['returnType'] = rt
    a['rt'] = rt if rt and a['conv'] == ["none"] else ""
    if rng.random() < .1 and form != 'csv':
        kw['copyData'] = False
    kw['useLog'] = False
    path = None
    source = src
    if form == 'csv':
        TMP[0] = TMP[0] or tempfile.mkdtemp(prefix='nvd15')
        sep = rng.choice([',', ',', ';', '\t', '|'])
        path = os.path.join(TMP[0], '%d.csv' % rng.randrange(10 ** 9))
        write_csv(rng, src, sep, path)
        if sep != ',' or rng.random() < .5 or any(',' in v or ' ' in v or '"' in v for v in vals) or a['m'] == 1:
            kw['inputSeparator'] = sep
        source = path
        if rng.random() < .2:
            source = open(path, newline=None)
    before_kw = snap({k: v for k, v in kw.items() if isinstance(v, (list, dict))})
    before = snap(source) if form != 'csv' and a['kind'] != 'iter' else None
    obj, exc, note = None, "", ""
    try:
        obj = nimble.data(source, **kw)
    except Exception as e:
        exc, note = type(e).__name__, str(e)[:150]
    args = before_kw == snap({k: v for k, v in kw.items() if isinstance(v, (list, dict))})
    same = True
    post = 0
    if before is not None and kw.get('copyData', True):
        same = before == snap(source)
    if path:
        if not isinstance(source, str):
            source.close()
        os.remove(path)
    if obj is not None:
        try:
            post = core.observe(obj)
        except core.Unobservable as e:
            rec.bad(str(e), repr(kw)[:300])
            return
        if before is not None and same and kw.get('copyData', True) and not exc:
            # two objects that have nothing in common
            view = isinstance(source, nimble.core.data.BaseView) or (isinstance(source, list) and source and
                                                                     isinstance(source[0], nimble.core.data.BaseView))
            try:
                keep = snap(source)
                if rng.random() < .5 and not view:
                    if mutate_source(source) and core.observe(obj) != post:
                        same = False
                elif post["m"] and post["d"]:
                    obj.replaceRectangle(55, 0, 0, 0, 0, useLog=False)
                    if snap(source) != keep:
                        same = False
            except core.Unobservable:
                same = False
            except Exception:
                pass
        texts += [v[1] for r in post["d"] for v in r if v[0] == "s"]
    a['pr'] = [how_read(s) for s in sorted({t for t in texts if isinstance(t, str)})]
    ev = {"op": a['form'], "a": a, "post": post, "exc": exc, "same": same, "args": args, "note": note + ' ' + a['kind'] + ' ' + repr(kw)[:300],
          "it": rec.tag}
    import json
    rec.out.write(json.dumps(ev) + '\n')
    rec.n += 1
    rec.count(a['kind'] + ('!' if exc else ''))
