"""The package behind the learners, observed where nimble calls it: the methods
of the classes of scikit-learn are wrapped so that every outermost call is
recorded with what it received and answered."""
import functools
import inspect
import re
import types
import warnings
import numpy as np
import sklearn.base
from sklearn.utils import all_estimators
import nimble
from . import enc

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    CLASSES = dict(all_estimators())
METHODS = ['fit', 'predict', 'transform', 'fit_predict', 'fit_transform', 'decision_function', 'predict_proba']
DATA = {'self', 'X', 'x', 'Y', 'y', 'T', 'raw_documents', 'obs'}
CALLS = []
DEPTH = [0]


def full(c):
    """parameters of the class with their defaults"""
    return {k: p.default for k, p in inspect.signature(c.__init__).parameters.items()
            if k != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}


def val(v):
    r = val0(v)
    return ["v", re.sub(r'0x[0-9a-fA-F]+', '', r[1])] if r[0] == "v" else r


def val0(v):
    if isinstance(v, nimble.Init):
        return ["init", v.name, pairs(v.kwargs)]
    if isinstance(v, sklearn.base.BaseEstimator):
        return ["init", type(v).__name__, pairs(v.get_params(deep=False))]
    if isinstance(v, np.ndarray):
        return ["v", repr([str(x) for x in v.ravel().tolist()])[:300] + str(v.shape)]
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, (type, types.FunctionType)):
        return ["v", v.__name__]
    if isinstance(v, (bool, int, float, str, type(None), list, tuple, dict)):
        return ["v", repr(v)[:300]]
    return ["v", type(v).__name__]


def pairs(d):
    return [[k, val(d[k])] for k in sorted(d)]


def grid(x):
    if x is None:
        return ["none"]
    if hasattr(x, 'toarray'):
        x = x.toarray()
    if not isinstance(x, np.ndarray):
        return ["o", type(x).__name__]
    if x.ndim == 1:
        return ["v", [enc.cell(v) for v in x.tolist()]]
    if x.ndim == 2:
        return ["a", [[enc.cell(v) for v in r] for r in x.tolist()]]
    return ["o", str(x.shape)]


def neg(x):
    return -x if isinstance(x, np.ndarray) and x.dtype.kind in 'fi' else x


def wrap(cls, name, f):
    names = [p for p in inspect.signature(f).parameters]

    @functools.wraps(f)
    def g(self, *args, **kwargs):
        if DEPTH[0] or type(self) is not cls:
            return f(self, *args, **kwargs)
        given = dict(zip(names[1:], args))
        given.update(kwargs)
        x = [v for k, v in given.items() if k in ('X', 'x')]
        y = [v for k, v in given.items() if k in ('Y', 'y')]
        c = {"meth": name, "params": pairs(self.get_params(deep=False)), "x": 0, "y": grid(y[0] if y else None),
             "extra": pairs({k: v for k, v in given.items() if k not in DATA}), "out": ["raised"], "held": ["none"],
             "attrs": [], "neg": [], "sign": []}
        gx = grid(x[0] if x else None)
        c["x"] = gx[1] if gx[0] == "a" else [["o", gx[0]]]
        CALLS.append(c)
        DEPTH[0] += 1
        try:
            r = f(self, *args, **kwargs)
        finally:
            DEPTH[0] -= 1
        if name == 'fit':
            c["out"] = ["none"]
            for a in ('labels_', 'embedding_'):
                if a in vars(self):
                    c["held"] = grid(getattr(self, a))
            c["attrs"] = [[k, val(v)] for k, v in sorted(vars(self).items()) if k.endswith('_') and k[0] != '_' and not callable(v)]
        else:
            c["out"] = grid(r)
            if name == 'decision_function' and isinstance(r, np.ndarray):
                if r.ndim == 1:
                    c["neg"] = grid(-r)[1]
                else:
                    c["sign"] = np.sign(r).astype(int).tolist()
        return r
    return g


def spy(name):
    """wrap the methods of a class (once)"""
    c = CLASSES[name]
    if '_nv_spied' in vars(c):
        return c
    for m in METHODS:
        for k in c.__mro__:
            if m in vars(k):
                f = vars(k)[m]
                if isinstance(f, types.FunctionType):
                    f = getattr(f, '_nv_orig', f)
                    w = wrap(c, m, f)
                    w._nv_orig = f
                    setattr(c, m, w)
                break
    c._nv_spied = True
    return c


def margs(c, m):
    """further arguments of a method and the defaults of those that have one"""
    if not m or not hasattr(c, m):
        return [], {}
    ps = [p for k, p in inspect.signature(getattr(c, m)).parameters.items()
          if k not in DATA and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
    return [p.name for p in ps], {p.name: p.default for p in ps if p.default is not p.empty}


def learner(name, inits=()):
    c = spy(name)
    meth = next(m for m in ('predict', 'transform', 'fit_predict', 'fit_transform') if hasattr(c, m))
    inst = c()
    score = next((m for m in ('decision_function', 'predict_proba') if hasattr(inst, m)), '')
    kind = getattr(c, '_estimator_type', None)
    ty = ('classification' if kind == 'classifier' else 'regression' if kind == 'regressor' else 'cluster' if kind == 'clusterer'
          else 'transformation' if issubclass(c, sklearn.base.TransformerMixin) else '')
    init = full(c)
    fit, df = margs(c, 'fit')
    if meth.startswith('fit_'):
        fit, df = [], {}
    app, da = margs(c, meth)
    return {"name": name, "init": pairs(init), "fit": fit, "app": app, "meth": meth, "score": score, "sapp": margs(c, score)[0],
            "type": ty, "rnd": 'random_state' in init, "dfit": pairs({**df, **da}),
            "inits": [[k, pairs(full(CLASSES[k]))] for k in inits]}
