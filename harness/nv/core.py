"""Recording of calls on real nimble objects as trace events."""
import json
import random
import traceback
import nimble
from nimble.core.data import Base
from . import enc, gen


class Unobservable(Exception):
    pass


def ret_enc(r):
    """A returned value in the model's encoding."""
    if r is None:
        return ["none"]
    if isinstance(r, Base):
        return ["t", enc.table(r)]
    if isinstance(r, bool):
        return ["b", r]
    if isinstance(r, int):
        return ["i", r]
    if isinstance(r, (list, tuple)):
        return ["l", [enc.cell(v) for v in r]]
    return ["c", enc.cell(r)]


def name_index(axis):
    """What the axis says about its own names: for each member its index by
    name (must be its position); unknown names must not resolve."""
    out = []
    for i, n in enumerate(axis.getNames()):
        if n is not None:
            try:
                k = axis.getIndex(n)
                if not axis.hasName(n) or axis.getName(k) != n or axis.getName(i) != n:
                    k = -7
            except Exception:
                k = -9
            out.append([i, int(k)])
    return out


def observe(obj, how=0):
    """Abstract state read back through the public interface."""
    try:
        t = enc.table(obj, how)
        for ax in (obj.points, obj.features):
            for i, k in name_index(ax):
                if i != k:
                    raise Unobservable('name-index')
        if tuple(obj.shape) != (len(t["d"]), t["m"]):
            raise Unobservable('shape')
        return t
    except Unobservable:
        raise
    except Exception as e:
        raise Unobservable('read:' + type(e).__name__ + ':' + str(e)[:80])


class Rec:
    def __init__(self, out):
        self.out = out
        self.n = 0
        self.cover = {}
        self.tag = None      # scenario identity, for replay

    def count(self, k):
        self.cover[k] = self.cover.get(k, 0) + 1

    def emit(self, op, a, pre=None, post=None, ret=None, exc="", note=""):
        ev = {"op": op, "a": a, "pre": pre if pre is not None else 0,
              "post": post if post is not None else 0,
              "ret": ret if ret is not None else ["none"], "exc": exc,
              "note": note, "it": self.tag}
        ev["rk"] = enc.strings(a, pre, post, ev["ret"])
        self.out.write(json.dumps(ev) + '\n')
        self.n += 1
        self.count(op + ('!' if exc else ''))

    def bad(self, what, note=""):
        self.emit("bad", {"w": 0}, exc=what, note=note)

    def build(self, rng, tab, ty=None, view=False, prov=None):
        """Build a real object for tab, log the build event, return it (or
        None when the build itself misbehaved, which is logged)."""
        if ty is None or (ty == 'Sparse' and not gen.sparseable(tab)):
            ty = gen.any_type(rng, tab)
        try:
            if view:
                obj, how = gen.as_view(rng, tab, ty), 'view'
            else:
                obj, how = gen.build(rng, tab, ty, prov)
        except Exception as e:
            self.bad('build:' + type(e).__name__ + ':' + str(e)[:80],
                     traceback.format_exc()[-700:])
            return None
        try:
            t = observe(obj, rng.randint(0, 2) if not view else rng.randint(0, 1))
        except Unobservable as e:
            self.bad(str(e), how)
            return None
        self.emit("build", {"want": tab.json(ty)}, t, t, note=how)
        return obj

    def call(self, op, a, obj, fn, enc_ret=None, note="", how=0):
        """Make one call and log it with the state before and after."""
        try:
            pre = observe(obj)
        except Unobservable as e:
            self.bad('pre:' + str(e), op)
            return None
        exc, r = "", None
        try:
            r = fn()
        except Exception as e:
            exc = type(e).__name__
            note = (note + ' ' + str(e))[:200]
        try:
            post = observe(obj, how)
        except Unobservable as e:
            self.emit("bad", {"op": op, "args": a, "pre": pre}, exc='post:' + str(e), note=note + ' ' + exc)
            return None
        try:
            ret = (enc_ret or ret_enc)(r) if not exc else ["none"]
            if isinstance(r, Base) and not exc and len(r._dims) == 2:
                observe(r)
            if isinstance(r, Base) and r is obj and not exc:
                raise ValueError('the object itself instead of a new one')
        except Exception as e:
            self.emit("bad", {"op": op, "args": a, "pre": pre}, exc='ret:' + type(e).__name__ + ':' + str(e)[:80], note=note)
            return None
        self.emit(op, a, pre, post, ret, exc, note)
        return r


def rng_for(pid, seed, i):
    return random.Random('%s:%s:%s' % (pid, seed, i))
