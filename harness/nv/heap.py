"""A recorder that keeps every object of a scenario alive and reads all of them
back after every call, so that effects on objects other than the receiver are
part of the trace (validated by spec/HeapTrace)."""
import nimble
from nimble.core.data import BaseView
from nimble.core.data import Base
from . import core, enc

# operations that change values or names but neither the number nor the order
# of points and features: views of the receiver have to follow them
CONTENT = {'setNames', 'setNamesOld', 'transformElements', 'axisTransform', 'replace', 'rectConst', 'rectTable', 'fill',
           'binScalar', 'binTable', 'normalize', 'intcode'}


def usable(obj):
    """Sparse objects of booleans or objects do not work with this scipy"""
    return obj.getTypeString() != 'Sparse' or obj.copy('numpyarray').dtype.kind in 'iuf'


class HeapRec(core.Rec):
    def __init__(self, rec, it):
        self.parent = rec
        self.out, self.n, self.cover, self.tag = rec.out, 0, rec.cover, it
        self.live = {}
        self.next = 1
        self.first = True
        self.broken = False
        self.pending = None

    def id_of(self, obj):
        for k, v in self.live.items():
            if v['obj'] is obj:
                return k
        return 0

    def register(self, obj, src=0):
        k = self.next
        self.next += 1
        self.live[k] = {'obj': obj, 'src': src, 'view': isinstance(obj, BaseView)}
        return k

    def pick(self, rng, view=None):
        ks = [k for k, v in self.live.items() if view is None or v['view'] == view]
        return self.live[rng.choice(ks)]['obj'] if ks else None

    def views_of(self, k):
        return [j for j, v in self.live.items() if v['src'] == k]

    def emit(self, op, a, pre=None, post=None, ret=None, exc="", note="", tgt=0, res=None, structural=False, same=0):
        if op == 'build':
            tgt = 0
        drop = []
        if structural:
            drop = self.views_of(tgt)
            for j in drop:
                del self.live[j]
        after = []
        for k, v in list(self.live.items()):
            if k == tgt:
                continue
            try:
                after.append([k, core.observe(v['obj'])])
            except Exception as e:
                op, a, exc = 'bad', {"op": op, "args": a}, 'heap:%s:%s' % (type(e).__name__, str(e)[:100])
                drop.append(k)
                del self.live[k]
        new = []
        if res is not None:
            obj, src, tab = res
            if not self.id_of(obj) and len(self.live) < 12:
                k = self.register(obj, src)
                new = [[k, tab, src, self.live[k]['view']]]
        ev = {"op": op, "a": a, "pre": pre if pre is not None else 0, "post": post if post is not None else 0,
              "ret": ret if ret is not None else ["none"], "exc": exc, "note": note, "it": self.tag,
              "first": self.first, "tgt": tgt, "same": same, "after": after, "new": new}
        ev["rk"] = enc.strings(a, pre, post, ev["ret"], after)
        self.first = False
        self.parent.out.write(core.json.dumps(ev) + '\n')
        self.parent.n += 1
        self.count(op + ('!' if exc else ''))

    def build(self, rng, tab, ty=None, view=False, prov=None):
        self.building = True
        obj = None
        real, self.emit_real = self.emit, None
        hold = {}

        def catch(op, a, pre=None, post=None, ret=None, exc="", note=""):
            hold['ev'] = (op, a, pre, post, ret, exc, note)
        self.emit = catch
        try:
            obj = super().build(rng, tab, ty, view, prov)
        finally:
            del self.emit
        op, a, pre, post, ret, exc, note = hold['ev']
        self.emit(op, a, pre, post, ret, exc, note, res=(obj, 0, post) if obj is not None else None)
        return obj

    def call(self, op, a, obj, fn, enc_ret=None, note="", how=0):
        tgt = self.id_of(obj)
        hold = {}

        def catch(op, a, pre=None, post=None, ret=None, exc="", note=""):
            hold['ev'] = (op, a, pre, post, ret, exc, note)
        self.emit = catch
        try:
            r = super().call(op, a, obj, fn, enc_ret, note, how)
        finally:
            del self.emit
        op2, a2, pre, post, ret, exc, note = hold['ev']
        if op2 == 'bad' and tgt:
            for j in self.views_of(tgt):
                del self.live[j]
            del self.live[tgt]
            tgt = 0
        res = None
        if isinstance(r, Base) and not exc and r is not obj and ret and ret[0] == 't' and usable(r):
            if not isinstance(r, BaseView):
                res = (r, 0, ret[1])
            elif op == 'view' and tgt:
                res = (r, self.live[tgt]['src'] if self.live[tgt]['view'] else tgt, ret[1])
                if self.live[tgt]['view'] and not self.live[tgt]['src']:
                    res = None
        # a call that gives an object gives one of its own
        same = self.id_of(r) if isinstance(r, Base) and not exc else 0
        self.emit(op2, a2, pre, post, ret, exc, note, tgt=tgt, res=res, same=same,
                  structural=op2 == op and op not in CONTENT and not exc and pre != post and tgt != 0)
        return r
