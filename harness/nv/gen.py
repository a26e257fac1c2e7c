"""Random tables and real nimble objects holding them, built in many ways
(the same abstract table reached through different internal states)."""
import copy
import warnings
import numpy as np
import scipy.sparse
import pandas as pd
import nimble
from . import enc

warnings.filterwarnings('ignore')
TYPES = ('List', 'Matrix', 'Sparse', 'DataFrame')
nan = float('nan')

STR = ['a', 'b', 'cc', 'B', 'd e', 'zz', 'a1']
PN = ['p0', 'p1', 'p2', 'p3', 'r4', 'x y', 'Q', '7', 'pt', 'uu', 'vv', 'ww']
FN = ['f0', 'f1', 'f2', 'f3', 'g4', 'h i', 'Z', '3', 'ft', 'mm', 'nn', 'oo']


class Tab:
    """A plain table: the reference contents of an object."""
    def __init__(self, d, m, pn, fn):
        self.d, self.m, self.pn, self.fn = d, m, pn, fn

    @property
    def n(self):
        return len(self.d)

    def copy(self):
        return Tab([list(r) for r in self.d], self.m, list(self.pn), list(self.fn))

    def T(self):
        return Tab([[self.d[i][j] for i in range(self.n)] for j in range(self.m)],
                   self.n, list(self.fn), list(self.pn))

    def json(self, ty):
        return {"d": [[enc.cell(v) for v in r] for r in self.d], "m": self.m,
                "pn": ["" if x is None else x for x in self.pn],
                "fn": ["" if x is None else x for x in self.fn], "ty": ty}


def value(rng, kind):
    if kind == 'int':
        return 0 if rng.random() < .35 else rng.randint(-2, 5)
    if kind == 'pos':
        return rng.randint(0, 5)
    if kind == 'bin':
        return rng.randint(0, 1)
    if kind == 'half':
        return 0.0 if rng.random() < .3 else rng.randint(-4, 9) / 2
    if kind == 'float':
        return float(rng.randint(-2, 5))
    if kind == 'str':
        return rng.choice(STR)
    if kind == 'miss':
        return nan if rng.random() < .35 else (0 if rng.random() < .3 else rng.randint(-2, 5))
    if kind == 'none':
        return None if rng.random() < .35 else float(rng.randint(-2, 5))
    if kind == 'bool':
        return rng.random() < .5
    raise ValueError(kind)


NUMK = ('int', 'half', 'float', 'bin', 'pos')
ALLK = ('int', 'half', 'float', 'bin', 'str', 'miss', 'mixed', 'none', 'int', 'bool', 'nummix')


def gen_names(rng, pool, k, mode=None):
    mode = mode or rng.choice(['none', 'all', 'all', 'some'])
    if mode == 'none':
        return [None] * k
    pool = pool if k <= len(pool) else pool + ['extra %d' % i for i in range(k)]
    nm = rng.sample(pool, k)
    if mode == 'some':
        nm = [x if rng.random() < .5 else None for x in nm]
    return nm


def gen_table(rng, kinds=ALLK, nr=(1, 4), mr=(1, 4), names=None, pmode=None, fmode=None, distinct=False):
    n, m = rng.randint(*nr), rng.randint(*mr)
    kind = rng.choice(kinds)
    if kind == 'nummix':
        cols = [rng.choice(('int', 'half', 'float', 'int')) for _ in range(m)]
        d = [[value(rng, cols[j]) for j in range(m)] for i in range(n)]
    elif kind in ('mixed', 'mixnb'):
        cols = [rng.choice(('int', 'str', 'half', 'miss', 'bool') if kind == 'mixed' else ('int', 'str', 'half', 'miss')) for _ in range(m)]
        d = [[value(rng, cols[j]) for j in range(m)] for i in range(n)]
    else:
        d = [[value(rng, kind) for j in range(m)] for i in range(n)]
    if distinct:
        c = iter(rng.sample(range(-3, n * m + 8), n * m))
        d = [[next(c) for _ in range(m)] for _ in range(n)]
    return Tab(d, m, gen_names(rng, PN, n, pmode or names), gen_names(rng, FN, m, fmode or names))


def nm(ns):
    """names argument for the constructor"""
    return list(ns) if any(x is not None for x in ns) else False


def direct(tab, ty):
    if tab.n == 0 or tab.m == 0:
        src = np.empty((tab.n, tab.m))
    else:
        src = [list(r) for r in tab.d]
    return nimble.data(src, pointNames=nm(tab.pn), featureNames=nm(tab.fn), returnType=ty, useLog=False)


def isnumeric(tab):
    return all(isinstance(v, (int, float)) for r in tab.d for v in r)


def sparseable(tab):
    """the installed scipy has no sparse matrices of object dtype, which is
    what strings, None or booleans mixed with numbers need"""
    vals = [v for r in tab.d for v in r]
    if any(v is None or isinstance(v, str) for v in vals):
        return False
    return not any(isinstance(v, bool) for v in vals)


def isint(tab):
    return all(isinstance(v, int) for r in tab.d for v in r)


def any_type(rng, tab):
    return rng.choice(TYPES if sparseable(tab) else ('List', 'Matrix', 'DataFrame'))


def p_direct(rng, tab, ty):
    return direct(tab, ty)


def p_other(rng, tab, ty):
    return direct(tab, any_type(rng, tab)).copy(to=ty)


def p_numpy(rng, tab, ty):
    if isnumeric(tab):
        arr = np.array(tab.d, dtype=float if not isint(tab) or rng.random() < .5 else int).reshape(tab.n, tab.m)
        if rng.random() < .3:
            arr = np.asfortranarray(arr)
    else:
        arr = np.empty((tab.n, tab.m), dtype=object)
        for i in range(tab.n):
            for j in range(tab.m):
                arr[i, j] = tab.d[i][j]
    return nimble.data(arr, pointNames=nm(tab.pn), featureNames=nm(tab.fn), returnType=ty, useLog=False)


def p_pandas(rng, tab, ty):
    df = pd.DataFrame([list(r) for r in tab.d], index=rng.sample(range(50), tab.n),
                      columns=rng.sample(range(50), tab.m))
    return nimble.data(df, pointNames=list(tab.pn), featureNames=list(tab.fn), returnType=ty, useLog=False)


def p_coo(rng, tab, ty):
    """sparse triples in random order, optionally a built-by-csr matrix"""
    if not isnumeric(tab):
        return direct(tab, ty)
    tr = [(tab.d[i][j], i, j) for i in range(tab.n) for j in range(tab.m) if tab.d[i][j] != 0]
    rng.shuffle(tr)
    coo = scipy.sparse.coo_matrix(([t[0] for t in tr], ([t[1] for t in tr], [t[2] for t in tr])),
                                  shape=(tab.n, tab.m), dtype=None if tr else float)
    k = rng.random()
    if k < .25:
        coo = coo.tocsr()
    elif k < .5:
        coo = coo.tocsc()
    return nimble.data(coo, pointNames=nm(tab.pn), featureNames=nm(tab.fn), returnType=ty, useLog=False)


def p_permute(rng, tab, ty):
    if tab.n < 2:
        return direct(tab, ty)
    order = rng.sample(range(tab.n), tab.n)
    # order[k] = position in tab of the k-th row of the shuffled one
    sh = Tab([tab.d[i] for i in order], tab.m, [tab.pn[i] for i in order], tab.fn)
    obj = direct(sh, ty)
    obj.points.permute([order.index(i) for i in range(tab.n)], useLog=False)
    return obj


def p_fpermute(rng, tab, ty):
    if tab.m < 2:
        return direct(tab, ty)
    order = rng.sample(range(tab.m), tab.m)
    sh = Tab([[r[j] for j in order] for r in tab.d], tab.m, tab.pn, [tab.fn[j] for j in order])
    obj = direct(sh, ty)
    obj.features.permute([order.index(j) for j in range(tab.m)], useLog=False)
    return obj


def p_transpose(rng, tab, ty):
    obj = direct(tab.T(), ty)
    if rng.random() < .5:
        return obj.T
    obj.transpose(useLog=False)
    return obj


def p_extract(rng, tab, ty):
    """take the table out of a bigger one, rows and columns interleaved"""
    big = tab.copy()
    k = rng.randint(0, tab.n)
    filler = [(tab.d[0][j] if tab.n else 1.0) for j in range(tab.m)]
    big.d.insert(k, filler)
    big.pn.insert(k, 'EXTRA' if any(tab.pn) else None)
    obj = direct(big, ty)
    which = rng.random()
    if which < .4:
        obj.points.delete(k, useLog=False)
        return obj
    if which < .7:
        obj.points.extract(k, useLog=False)
        return obj
    keep = [i for i in range(big.n) if i != k]
    if which < .85:
        obj.points.retain(keep, useLog=False)
        return obj
    return obj.points.extract(keep, useLog=False)


def p_append(rng, tab, ty):
    if tab.n < 2:
        return direct(tab, ty)
    k = rng.randint(1, tab.n - 1)
    a = Tab(tab.d[:k], tab.m, tab.pn[:k], tab.fn)
    b = Tab(tab.d[k:], tab.m, tab.pn[k:], tab.fn)
    obj = direct(a, ty)
    obj.points.append(direct(b, any_type(rng, tab)), useLog=False)
    return obj


def p_fappend(rng, tab, ty):
    if tab.m < 2:
        return direct(tab, ty)
    k = rng.randint(1, tab.m - 1)
    a = Tab([r[:k] for r in tab.d], k, tab.pn, tab.fn[:k])
    b = Tab([r[k:] for r in tab.d], tab.m - k, tab.pn, tab.fn[k:])
    obj = direct(a, ty)
    obj.features.append(direct(b, any_type(rng, tab)), useLog=False)
    return obj


def p_assign(rng, tab, ty):
    """start from wrong contents and assign every cell"""
    if not isnumeric(tab) or isint(tab) != all(isinstance(v, int) for r in tab.d for v in r):
        return direct(tab, ty)
    wrong = tab.copy()
    cells = [(i, j) for i in range(tab.n) for j in range(tab.m)]
    ch = [c for c in cells if rng.random() < .5]
    for i, j in ch:
        wrong.d[i][j] = type(tab.d[i][j])(9) if rng.random() < .5 else type(tab.d[i][j])(0)
    obj = direct(wrong, ty)
    if cells:
        obj[0, 0]
    rng.shuffle(ch)
    for i, j in ch:
        obj[i, j] = tab.d[i][j]
    return obj


def p_viewcopy(rng, tab, ty):
    v = as_view(rng, tab, ty)
    return v.copy()


def p_sort(rng, tab, ty):
    if not isnumeric(tab) or tab.n == 0 or any(v != v for r in tab.d for v in r):
        return direct(tab, ty)
    order = rng.sample(range(tab.n), tab.n)
    sh = Tab([[float(k)] + list(tab.d[k]) for k in order], tab.m + 1, [tab.pn[k] for k in order],
             (['KEY'] if any(tab.fn) else [None]) + list(tab.fn))
    obj = direct(sh, ty)
    obj.points.sort(0, useLog=False)
    obj.features.delete(0, useLog=False)
    return obj


def p_arith(rng, tab, ty):
    """the difference of two objects, so that zeros are results"""
    if not isnumeric(tab) or any(isinstance(v, bool) or v in (float('inf'), -float('inf')) for r in tab.d for v in r):
        return direct(tab, ty)
    k = [[rng.choice((0, 1, 2)) if rng.random() < .6 else (v if v == v else 1) for v in r] for r in tab.d]
    a = Tab([[v + y for v, y in zip(r, q)] for r, q in zip(tab.d, k)], tab.m, tab.pn, tab.fn)
    b = Tab(k, tab.m, tab.pn, tab.fn)
    oa, ob = direct(a, ty), direct(b, rng.choice(TYPES))
    if rng.random() < .5:
        oa -= ob
        return oa
    return oa - ob


def p_cooz(rng, tab, ty):
    """sparse triples with stored zeros and elements given in two parts"""
    if not isnumeric(tab) or any(isinstance(v, bool) for r in tab.d for v in r):
        return direct(tab, ty)
    tr = []
    dup = rng.random() < .4
    for i in range(tab.n):
        for j in range(tab.m):
            v = tab.d[i][j]
            if v == 0 and rng.random() < .5:
                continue
            if dup and abs(v) < 100 and rng.random() < .3:
                k = rng.choice([1, -1, v])
                tr += [(v - k, i, j), (k, i, j)]
            else:
                tr.append((v, i, j))
    rng.shuffle(tr)
    coo = scipy.sparse.coo_matrix(([t[0] for t in tr], ([t[1] for t in tr], [t[2] for t in tr])),
                                  shape=(tab.n, tab.m), dtype=None if tr else float)
    return nimble.data(coo, pointNames=nm(tab.pn), featureNames=nm(tab.fn), returnType=ty, useLog=False)


def p_transform(rng, tab, ty):
    """reached by element-wise changes"""
    if not isnumeric(tab) or any(isinstance(v, bool) for r in tab.d for v in r):
        return direct(tab, ty)
    k = rng.choice([1, -1, 2])
    obj = direct(Tab([[v + k for v in r] for r in tab.d], tab.m, tab.pn, tab.fn), ty)
    if rng.random() < .5:
        obj.transformElements(lambda x: x - k, useLog=False)
    else:
        obj.features.transform(lambda f: [x - k for x in f], useLog=False)
    return obj


PROV = [p_arith, p_cooz, p_transform, p_direct, p_direct, p_other, p_numpy, p_pandas, p_coo, p_permute, p_fpermute, p_transpose, p_extract,
        p_append, p_fappend, p_assign, p_viewcopy, p_sort]


def build(rng, tab, ty, prov=None):
    if tab.n == 0 or tab.m == 0:
        return direct(tab, ty), 'direct'
    p = prov or rng.choice(PROV)
    return p(rng, tab, ty), p.__name__


def as_view(rng, tab, ty):
    """a view holding the table, at an offset inside a bigger object"""
    t, l, b, r = [rng.randint(0, 1) for _ in range(4)]
    big = tab.copy()
    def fill():
        return tab.d[0][0] if tab.n and tab.m else 1
    big.d = [[fill() for _ in range(l)] + row + [fill() for _ in range(r)] for row in big.d]
    w = tab.m + l + r
    big.d = [[fill() for _ in range(w)] for _ in range(t)] + big.d + [[fill() for _ in range(w)] for _ in range(b)]
    big.m = w
    pe, fe = any(tab.pn), any(tab.fn)
    big.pn = [('T%d' % i if pe else None) for i in range(t)] + big.pn + [('U%d' % i if pe else None) for i in range(b)]
    big.fn = [('L%d' % i if fe else None) for i in range(l)] + big.fn + [('R%d' % i if fe else None) for i in range(r)]
    obj, _ = build(rng, big, ty, rng.choice([p_direct, p_coo, p_numpy, p_permute]))
    if tab.n == 0 or tab.m == 0:
        return direct(tab, ty).view()
    return obj.view(t, t + tab.n - 1, l, l + tab.m - 1)
