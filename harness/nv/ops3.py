"""Arithmetic and logic on whole objects."""
import operator
import nimble
from . import enc, gen

AR = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
      '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor}
IAR = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
       '%': operator.imod, '**': operator.ipow}
ARITH = ['+', '-', '*', '/', '//', '%', '**']
UN = {'pos': operator.pos, 'neg': operator.neg, 'abs': abs, 'inv': operator.invert}


def frame(rec, obj, was):
    rec.call('frame', {"was": was}, obj, lambda: None)


def readonly(rec, obj):
    return hasattr(obj, '_source') and type(rec).__name__ != 'HeapRec'    # the heap model knows edits through views fail


def scalar_for(rng, op):
    if op == '**':
        return rng.choice([0, 1, 2, 3, -1, 2.0])
    return rng.choice([0, 1, 2, 3, -1, -2, 0.5, 2.5, 4.0])


def safe_ops(obj):
    """floor division and remainder only where floats hold the values exactly"""
    exact = all(c[0] != 'f' and (c[0] != 'n' or c[2] in (1, 2, 4)) for r in enc.table(obj)['d'] for c in r)
    return ARITH if exact else ['+', '-', '*']


def bin_scalar(rec, rng, obj):
    op = rng.choice(safe_ops(obj))
    c = scalar_for(rng, op)
    rev = rng.random() < .35 and op != '**'
    inp = not rev and not readonly(rec, obj) and rng.random() < .3
    a = {"op": op, "c": enc.cell(c), "rev": rev, "inp": inp}
    if inp:
        return rec.call('binScalar', a, obj, lambda: IAR[op](obj, c) and None)
    f = (lambda: AR[op](c, obj)) if rev else (lambda: AR[op](obj, c))
    return rec.call('binScalar', a, obj, f)


def partner(rec, rng, obj, kind=None, n=None, m=None, sub=None):
    """an object for the other side of an operation, names often related"""
    was = enc.table(obj)
    n = len(was['d']) if n is None else n
    m = was['m'] if m is None else m
    kind = kind or rng.choice(['int', 'half', 'float', 'miss', 'pos'])
    d = [[gen.value(rng, kind) for _ in range(m)] for _ in range(n)]
    if sub == 'nz':
        d = [[v if v else 3 for v in r] for r in d]
    if sub == 'exp':
        d = [[rng.choice([0, 1, 2, 3, -1]) for _ in r] for r in d]

    def names(cur, pool, k):
        cur = [x or None for x in cur]
        r = rng.random()
        if len(cur) != k or r < .15:
            return gen.gen_names(rng, pool, k)
        if r < .35:
            return [None] * k
        if r < .75:
            return cur
        if r < .85:
            c = list(cur)
            c[rng.randrange(k)] = None
            return c
        if r < .92:
            c = list(cur)
            rng.shuffle(c)
            return c
        return gen.gen_names(rng, [x for x in pool if x not in cur], k, 'all') if k < 5 else cur
    t = gen.Tab(d, m, names(was['pn'], gen.PN, n), names(was['fn'], gen.FN, m))
    return rec.build(rng, t, was['ty'] if rng.random() < .5 else None, view=rng.random() < .15)


NAMED = {"*": nimble.calculate.elementwiseMultiply, "**": nimble.calculate.elementwisePower}


def bin_table(rec, rng, obj):
    op = rng.choice(safe_ops(obj))
    n, m = len(obj.points), len(obj.features)
    if rng.random() < .05:
        n += 1
    u = partner(rec, rng, obj, n=n, m=m,
                sub='exp' if op == '**' else 'nz' if op in ('/', '//', '%') and rng.random() < .85 else None)
    if u is None:
        return
    uj = enc.table(u)
    inp = not readonly(rec, obj) and rng.random() < .25
    g = AR[op]
    if op in NAMED and rng.random() < .3:
        g = NAMED[op]
    f = (lambda: IAR[op](obj, u) and None) if inp else (lambda: g(obj, u))
    r = rec.call('binTable', {"op": op, "u": uj, "inp": inp}, obj, f)
    frame(rec, u, uj)
    return r


def logical(rec, rng, obj):
    op = rng.choice(['&', '|', '^'])
    u = partner(rec, rng, obj, kind=rng.choice(['bin', 'bool', 'bin', 'bin', 'pos']))
    if u is None:
        return
    uj = enc.table(u)
    r = rec.call('binTable', {"op": op, "u": uj, "inp": False}, obj, lambda: AR[op](obj, u))
    frame(rec, u, uj)
    return r


def unary(rec, rng, obj, which=('pos', 'neg', 'abs')):
    op = rng.choice(which)
    return rec.call('unary', {"op": op}, obj, lambda: UN[op](obj))


def matmul(rec, rng, obj):
    m = len(obj.features)
    k = m if rng.random() < .93 else m + 1
    u = partner(rec, rng, obj, kind=rng.choice(['int', 'half', 'float', 'bin']), n=k, m=rng.randint(1, 3))
    if u is None:
        return
    # the right operand's points meet the left operand's features
    fn = obj.features.getNames()
    if rng.random() < .5 and len(u.points) == len(fn) and not hasattr(u, '_source'):
        u.points.setNames(fn, useLog=False)
    uj = enc.table(u)
    r = rng.random()
    if r < .15 and not readonly(rec, obj) and u.getTypeString() == obj.getTypeString():
        out = rec.call('matmul', {"u": uj, "inp": True}, obj, lambda: operator.imatmul(obj, u) and None)
    elif r < .6:
        out = rec.call('matmul', {"u": uj, "inp": False}, obj, lambda: obj @ u)
    else:
        out = rec.call('matmul', {"u": uj, "inp": False}, obj, lambda: obj.matrixMultiply(u))
    frame(rec, u, uj)
    return out


def matpow(rec, rng, obj):
    k = rng.randint(0, 3)
    return rec.call('matpow', {"k": k}, obj, lambda: obj.matrixPower(k))


def stretch(rec, rng, obj, logic=False):
    """obj one-dimensional"""
    ops_ = ['&', '|', '^'] if logic else ARITH
    op = rng.choice(ops_)
    n, m = len(obj.points), len(obj.features)
    sub = None
    kind = rng.choice(['bin', 'bool']) if logic else None
    os_ = rng.random() < .35
    if os_:
        n2, m2 = (rng.randint(1, 3), 1) if n == 1 else (1, rng.randint(1, 3))
        if rng.random() < .08:
            n2, m2 = m2, n2
    else:
        n2 = rng.randint(1, 3) if n == 1 else n
        m2 = rng.randint(1, 3) if m == 1 and n != 1 else m
        if n == 1 and m == 1:
            n2, m2 = rng.choice([(1, rng.randint(1, 3)), (rng.randint(1, 3), 1)])
        if rng.random() < .06:
            n2, m2 = n2 + 1, m2 + 1
    left = rng.random() < .5
    if op == '**':
        left = True if not logic else left
        sub = 'exp'
    elif op in ('/', '//', '%') and rng.random() < .85:
        sub = 'nz'
    u = partner(rec, rng, obj, kind=kind, n=n2, m=m2, sub=sub)
    if u is None:
        return
    uj = enc.table(u)

    def f():
        x, y = obj.stretch, (u.stretch if os_ else u)
        return AR[op](x, y) if left else AR[op](y, x)
    if os_ and not left:
        # the stretched left operand is then the object the model calls s
        pre = enc.table(obj)
        r = rec.call('stretch', {"o": pre, "os": True, "op": op, "left": True}, u, f)
        frame(rec, obj, pre)
        return r
    r = rec.call('stretch', {"o": uj, "os": os_, "op": op, "left": left}, obj, f)
    frame(rec, u, uj)
    return r
