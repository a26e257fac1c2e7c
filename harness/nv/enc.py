"""Projection of real nimble values and objects to the model's encoding."""
import math
from fractions import Fraction
import numpy as np

LIM = 2 ** 31 - 1
MAXDEN = 20000


def cell(v):
    if v is None:
        return ["x"]
    if isinstance(v, (bool, np.bool_)):
        return ["n", int(v), 1]
    if isinstance(v, (int, np.integer)):
        v = int(v)
        if abs(v) < LIM:
            return ["n", v, 1]
        return ["f", repr(v)]
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v:
            return ["x"]
        if math.isinf(v):
            return ["inf", 1 if v > 0 else -1]
        fr = Fraction(v).limit_denominator(MAXDEN)
        if abs(float(fr) - v) <= 1e-9 * max(1.0, abs(v)) and abs(fr.numerator) < LIM:
            return ["n", fr.numerator, fr.denominator]
        return ["f", "%.7g" % v]
    if isinstance(v, str):
        return ["s", str(v)]
    if isinstance(v, np.datetime64) and np.isnat(v):
        return ["x"]
    if type(v).__name__ == 'NaTType':
        return ["x"]
    if hasattr(v, 'isoformat'):
        return ["o", v.isoformat()]
    return ["o", type(v).__name__ + ":" + str(v)[:60]]


def names(axis):
    return ["" if n is None else str(n) for n in axis.getNames()]


def table(obj, how=0):
    """Abstract state of a 2D nimble object, read through its public API."""
    n, m = len(obj.points), len(obj.features)
    if n == 0 or m == 0:
        d = [[] for _ in range(n)]
    elif how == 1:
        d = [[cell(obj[i, j]) for j in range(m)] for i in range(n)]
    elif how == 2:
        d = [[cell(v) for v in row] for row in obj.copy(to='numpy array').tolist()]
    else:
        d = [[cell(v) for v in row] for row in obj.copy(to='python list')]
    return {"d": d, "m": m, "pn": names(obj.points), "fn": names(obj.features),
            "ty": obj.getTypeString()}


def strings(*ts):
    """All strings of the given JSON-ish values in increasing order."""
    out = set()

    def walk(x):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    for t in ts:
        walk(t)
    return sorted(out)
