"""What objects print, read back as a grid of words."""
import contextlib
import io
import os
import re
import numpy as np
import nimble
from . import core, enc, gen, ops

LONG = ['a' * 21, 'feature-with-a-long-name', 'bcdefghi', 'k', 'point-with-a-long-name', "qu'ote", 'eta', 'mu', 'nu',
        'rho', 'tau', 'phi', 'chi', 'psi', 'omega-omega', 'xi', 'wide-name-wide', 'z9', '0', '5']
TEXT = ['ab', 'abcdefghijkl', 'x', 'a-much-longer-piece-of-text', 'B4', '12']


def plain(s):
    return s.replace('\u2500', '-').replace('\u2502', '|')


def parse(text, indent, top):
    """(top, labels, head, cells, lines, widths) of a printed table"""
    out = {}
    lines = text.split('\n')
    if lines[-1] == '':
        lines = lines[:-1]
    out["top"] = ""
    if top:
        k = top
        out["top"] = '/'.join(lines[:k])
        lines = lines[k:]
    out["lines"] = len(lines)
    out["widths"] = [len(x) for x in lines]
    lines = [x[indent:] if x[:indent].strip() == '' else '?' + x for x in lines]
    sep = lines[1]
    p = sep.index('\u250c')
    if sep[:p].strip():
        raise ValueError('separator line')
    labels, rows = [], []
    for x in lines[2:]:
        x = x.ljust(p + 1)
        if x[p] != '\u2502':
            raise ValueError('no separator in row')
        labels.append(plain(x[:p].strip()))
        rows.append(x[p + 1:])
    region = [lines[0][p + 1:]] + rows
    if lines[0][:p + 1].strip():
        raise ValueError('text before the first feature')
    w = max(map(len, region))
    region = [x.ljust(w) for x in region]
    blank = [all(x[i] == ' ' for x in region) for i in range(w)]
    spans, i = [], 0
    while i < w:
        if blank[i]:
            i += 1
            continue
        j = i
        # a single blank column belongs to a text
        while j < w and not (blank[j] and (j + 1 >= w or blank[j + 1])):
            j += 1
        spans.append((i, j))
        i = j
    grid = [[plain(x[a:b].strip()) for a, b in spans] for x in region]
    out["labels"], out["head"], out["cells"] = labels, grid[0], grid[1:]
    return out


def spans_of(region):
    """the words of a region of lines, by blank columns"""
    w = max(map(len, region))
    region = [x.ljust(w) for x in region]
    blank = [all(x[i] == ' ' for x in region) for i in range(w)]
    spans, i = [], 0
    while i < w:
        if blank[i]:
            i += 1
            continue
        j = i
        # a single blank column belongs to a text
        while j < w and not (blank[j] and (j + 1 >= w or blank[j + 1])):
            j += 1
        spans.append((i, j))
        i = j
    return [[plain(x[a:b].strip()) for a, b in spans] for x in region]


def parse_axis(text, short=False):
    """what obj.points or obj.features prints"""
    lines = text.split('\n')
    if not short:
        if not lines[0].startswith('< ') or lines[-1] != ' >':
            raise ValueError('frame')
        lines = [lines[0][2:]] + lines[1:-1]
    head = lines[0]
    lines = lines[1:]
    # separators are the columns with a bar in every line
    w = max(map(len, lines))
    lines = [x.ljust(w) for x in lines]
    bars = [i for i in range(w) if all(x[i] == '\u2502' for x in lines)]
    gap = [x for x in lines if x[:bars[0]].strip() == '\u2502']
    if len(gap) == len(lines):
        raise ValueError('only a gap')
    cut = bars[:1]
    full = [x for x in lines if x not in gap]
    if len(bars) > 1 and all(x[bars[0] + 1:bars[1]].strip() for x in lines):
        # an index column and a label column
        cut = bars[:2]
    first = [plain(x[:cut[0]].strip()) for x in lines]
    second = [plain(x[cut[0] + 1:cut[-1]].strip()) for x in lines] if len(cut) > 1 else first
    return {"head": head, "idx": first, "labels": second, "cells": spans_of([x[cut[-1] + 1:] for x in lines])}


def axis_repr(rec, rng, ty):
    t = table(rng, ty)
    if t.n * t.m == 0 or any(isinstance(v, str) and len(v) > 8 for r in t.d for v in r):
        return None
    short = {x: x[:8] for x in t.pn + t.fn if x}
    if len(set(short.values())) < len(short):
        return None
    t.pn = [x and short[x] for x in t.pn]
    t.fn = [x and short[x] for x in t.fn]
    for k, ns in ((t.n, t.pn), (t.m, t.fn)):
        if {x for x in ns if x} & {str(i) for i in range(k)}:
            return None
    ax = rng.choice('pf')
    for k in range(t.m if ax == 'p' else t.n):     # a column without any text cannot be seen
        i, j = (0, k) if ax == 'p' else (k, 0)
        if t.d[i][j] is None or t.d[i][j] != t.d[i][j]:
            t.d[i][j] = 1
    obj = rec.build(rng, t, ty, view=rng.random() < .12)
    if obj is None:
        return None
    if rng.random() < .2:
        obj.name = 'my_data'
    a = {"ax": ax, "obs": {"head": "", "idx": [], "labels": [], "cells": []}}
    form = rng.choice([repr, str])

    def run():
        os.environ['COLUMNS'], os.environ['LINES'] = '80', '24'
        try:
            s = form(ops.axis(obj, ax))
        finally:
            del os.environ['COLUMNS'], os.environ['LINES']
        a["obs"] = parse_axis(s if form is repr else '< ' + s + ' >')
    rec.call("axisShow", a, obj, run)
    return obj


def table(rng, ty):
    n, m = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 13, 36]), rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 12, 15])
    if n == 36:
        m = min(m, 3)
    if n * m > 90:
        m = 90 // n
    if n * m == 0 and rng.random() < .6:
        n, m = max(n, 1), max(m, 1)
    kinds = ['int', 'half'] if ty == 'Sparse' else ['int', 'half', 'miss', 'text', 'big']
    cols = [rng.choice(kinds) for _ in range(m)]
    if rng.random() < .3 and m:
        cols = [cols[0]] * m

    def val(k):
        if k == 'text':
            return rng.choice(TEXT)
        if k == 'big':
            return rng.choice([1, -7, 12345678, 999999999, -100200])
        return gen.value(rng, k)
    d = [[val(cols[j]) for j in range(m)] for _ in range(n)]

    def names(k, pool):
        pool = pool + ['e%d' % i for i in range(k)]
        return gen.gen_names(rng, pool, k)
    return gen.Tab(d, m, names(n, LONG), names(m, LONG[::-1]))


def asked(rng, n):
    r = rng.random()
    if r < .62:
        return ["all"], None
    if r < .8:
        k = rng.randint(1, n + 3)
        if rng.random() < .06:
            k = rng.choice([0, -2])
        return ["int", k], k
    s = rng.randint(-1 if rng.random() < .1 else 0, n)
    e = rng.randint(s, n + (2 if rng.random() < .3 else 0))
    st = 2 if rng.random() < .08 else 1
    return ["range", s, e, st], range(s, e, st)


def cube(rng, ty):
    """an object of more than two dimensions, with its flat table"""
    dims = [rng.randint(1, 4)] + [rng.randint(1, 3) for _ in range(rng.randint(2, 3))]
    arr = np.array([rng.randint(-5, 60) for _ in range(int(np.prod(dims)))]).reshape(dims)
    pn = gen.gen_names(rng, LONG, dims[0])
    obj = nimble.data(arr.tolist(), pointNames=gen.nm(pn), returnType=ty, useLog=False)
    flat = arr.reshape(dims[0], -1).tolist()
    return obj, gen.Tab(flat, len(flat[0]), pn, [None] * len(flat[0])), dims


def scenario(rec, rng, ty):
    dims = None
    if rng.random() < .12:
        return axis_repr(rec, rng, ty)
    if rng.random() < .12:
        obj, t, dims = cube(rng, ty)
        flat = t.json(obj.getTypeString())
    else:
        t = table(rng, ty)
        obj = rec.build(rng, t, ty, view=rng.random() < .12)
        if obj is None:
            return None
    n, m = t.n, t.m
    if rng.random() < .25 and n * m:
        obj.name = rng.choice(['obj', 'my_data'])
    kind = rng.choice(['toString'] * 4 + ['show'] * 3 + ['str', 'repr'])
    kw = {}
    a = {"points": ["all"], "fts": ["all"], "lines": 30, "width": 79, "sig": 3, "col": 19, "incP": True, "incF": True,
         "quote": False, "indent": 0, "top": "", "kind": kind}
    cols, rows = rng.choice([20, 60, 80, 95, 130]), rng.choice([10, 24, 33, 60])
    nlines = 0
    if kind in ('str', 'repr'):
        a["width"], a["lines"], nlines = max(79, cols - 1), max(30, rows - 1) - 2, 1
        a["col"] = 60
    else:
        if rng.random() < .5:
            a["points"], kw["points"] = asked(rng, n)
        if rng.random() < .5:
            a["fts"], kw["features"] = asked(rng, m)
        if kw.get("points", 0) is None:
            del kw["points"]
        if kw.get("features", 0) is None:
            del kw["features"]
        auto_w = kind == 'show' and rng.random() < .4
        auto_l = kind == 'show' and rng.random() < .4
        if auto_w:
            a["width"] = max(79, cols - 1)
        elif rng.random() < .6 or kind == 'show':
            kw["lineWidthLimit"] = rng.choice([None, rng.randint(12, 30), rng.randint(20, 90), rng.randint(30, 60), 200])
            a["width"] = -1 if kw["lineWidthLimit"] is None else kw["lineWidthLimit"]
        if auto_l:
            a["lines"] = max(30, rows - 1)
        elif rng.random() < .6 or kind == 'show':
            kw["lineLimit"] = rng.choice([None, rng.randint(3, 8), rng.randint(5, 16), rng.randint(7, 14), 40])
            a["lines"] = -1 if kw["lineLimit"] is None else kw["lineLimit"]
        if kind == 'show':
            if kw.get("features") is not None:
                a["width"] = -1        # not used when features are asked for
            if auto_l and kw.get("points") is not None:
                a["lines"] = -2        # documented as ignored then: open
            a["col"] = 60 if "columnWidthLimit" not in kw else a["col"]
        if rng.random() < .4:
            kw["sigDigits"] = rng.choice([None, 0, 1, 2, 3, 5])
            a["sig"] = -1 if kw["sigDigits"] is None else kw["sigDigits"]
        if rng.random() < .4:
            kw["columnWidthLimit"] = a["col"] = rng.choice([5, 6, 8, 10, 12, 19, 25, 40])
        if rng.random() < .25:
            kw["includePointNames"] = a["incP"] = rng.random() < .3
        if rng.random() < .25:
            kw["includeFeatureNames"] = a["incF"] = rng.random() < .3
        if kind == 'toString':
            if rng.random() < .25:
                kw["indent"] = ' ' * rng.randint(0, 4)
                a["indent"] = len(kw["indent"])
            if rng.random() < .3:
                kw["quoteNames"] = a["quote"] = True
    top = ''
    if kind == 'show':
        nlines = 1
        if rng.random() < .4:
            kw["description"] = 'what this is'
            top, nlines = 'what this is/', 2
        incN = True
        if rng.random() < .3:
            kw["includeObjectName"] = incN = rng.random() < .3
        if a["lines"] >= 0:
            a["lines"] -= 1 + nlines
    if kind != 'toString':
        if kind == 'repr':
            top, a["indent"] = '<%s ' % obj.getTypeString(), 1
        if obj.name is not None and (kind != 'show' or incN):
            top += '"%s" ' % obj.name
        if dims:
            top += ' x '.join(map(str, dims)) + ' dimensions encoded as '
        a["top"] = top + '%dpt x %dft' % (n, m)
    auto_col = kind != 'toString' and "columnWidthLimit" not in kw

    def run():
        os.environ['COLUMNS'], os.environ['LINES'] = str(cols), str(rows)
        try:
            if kind == 'toString':
                s = obj.toString(**kw)
            elif kind == 'show':
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    obj.show(**kw)
                s = b.getvalue()
                s = s[:-1] if s.endswith('\n\n') else s
            elif kind == 'str':
                s = str(obj)
            else:
                s = repr(obj)
                if not s.endswith('\n>'):
                    raise ValueError('end of repr')
                s = s[:-1]
        finally:
            del os.environ['COLUMNS'], os.environ['LINES']
        a["obs"] = parse(s, a["indent"], nlines)
        if auto_col:
            a["obs"]["auto"] = True
        return None
    a["obs"] = {"top": "", "labels": [], "head": [], "cells": [], "lines": 0, "widths": []}
    if auto_col:
        # the width of a column is chosen by the program: texts that it cuts
        # are left out by keeping every text short
        short = all(len(str(v)) < 8 for r in t.d for v in r if not isinstance(v, float)) and \
            all(x is None or len(x) < 8 for x in t.pn + t.fn) and not (a["sig"] == 5)
        if not short:
            return obj
    if a["lines"] == -2:
        if n > 20:
            return obj
        a["lines"] = -1
    if dims:
        try:
            run()
            exc = ''
        except Exception as e:
            exc = type(e).__name__
        rec.emit("show", a, flat, flat, exc=exc)
    else:
        rec.call("show", a, obj, run)
    return obj
