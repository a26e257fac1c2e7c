"""F01: files fetched from a server into local storage.  The first scenarios
replay histories enumerated by spec/FetchPlan, the others are longer random
ones with failing connections, full disks, changed and removed files, pages
that lead to several files and other storage locations."""
import json
import os
import resource
import shutil
import signal
import tempfile
import nimble
from nv import web
from nv.plans import plans


class Url:
    """a url with what the specification calls it"""

    def __init__(self, url, path=None):
        self.url = url
        self.key = web.norm(url)
        self.query = '?' in self.key
        base = self.key.split('?')[0]
        d, f = base.rsplit('/', 1)
        if self.query:
            d += '/<' + self.key.split('?')[1] + '>'
        self.u = [d + '/' + f, d + '/', d + '/' + f[:-3] if f.endswith('.gz') else '']


def small(rng):
    return 'c%d' % rng.randint(1, 9)


MEMBERS = [['m.csv'], ['m.csv', 's/n.csv'], ['k.csv'], ['s/n.csv'], ['k.csv', 'p/q.csv', 'r.csv']]


def body(rng, kind, root):
    """id, kind, members (and how to damage it)"""
    if kind == 'plain':
        return [small(rng) if rng.random() < .9 else 'b%d' % rng.randint(1, 3), 'plain', []]
    if kind == 'gz':
        c = small(rng) if rng.random() < .6 else 'b%d' % rng.randint(1, 3)
        return ['gz:' + c, 'gz', [['', c]]]
    how = rng.choice(['zip', 'tar', 'tgz'])
    if kind == 'evil':
        what = rng.choice(['../esc.csv', 'a/../../esc.csv', 'ABS', 'LINK', 'DAMAGED'])
        if what == 'LINK' and how == 'zip':
            how = 'tar'
        if what == 'DAMAGED' and how != 'zip':
            how = rng.choice(['zip', 'gz'])
        c = [small(rng), small(rng)]
        name = {'ABS': os.path.join(root, 'out', 'esc.csv'), 'LINK': 'ln/esc.csv', 'DAMAGED': 'n.csv'}.get(what, what)
        ms = [['m.csv', c[0]], [name, c[1]]]
        if rng.random() < .4:
            ms.reverse()
        return ['%s:evil%s%s%s' % (how, what, c[0], c[1]), kind, ms]
    ms = [[n, small(rng)] for n in rng.choice(MEMBERS)]
    if how != 'tar' and rng.random() < .4:
        ms[rng.randrange(len(ms))][1] = 'b%d' % rng.randint(1, 3)
    return [how + ':' + ','.join(n + '=' + c for n, c in ms), kind, ms]


class Run:
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.root = tempfile.mkdtemp(prefix='fetch')
        self.bodies, self.tokens, self.sizes = {}, {}, {}
        self.loc = 'A'
        web.PAGES.clear()
        for k in 'AB':
            os.makedirs(self.where(k))
        nimble.settings.set('fetch', 'location', self.where('A'))
        self.event('start', id='A')

    def where(self, k):
        return os.path.join(self.root, k)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def model_path(self, rel):
        """path below nimbleData as the specification names it"""
        return '/'.join(self.tokens.get(p, p) for p in rel.split('/'))

    def real_path(self, path):
        back = {v: k for k, v in self.tokens.items()}
        return os.path.join(self.where(self.loc), 'nimbleData', *[back.get(p, p) for p in path.split('/')])

    def learn(self, u):
        """storage of a url with a query: its own directory, of any name"""
        if not u.query or '<' + u.key.split('?')[1] + '>' in self.tokens.values():
            return
        d = u.key.split('?')[0].rsplit('/', 1)[0]
        top = os.path.join(self.where(self.loc), 'nimbleData', d)
        if os.path.isdir(top):
            for n in sorted(os.listdir(top)):
                if os.path.isdir(os.path.join(top, n)) and n not in self.tokens and len(n) > 8:
                    self.tokens[n] = '<' + u.key.split('?')[1] + '>'
                    return

    def ident(self, p):
        with open(p, 'rb') as h:
            b = h.read()
        return web.IDS.get(web.digest(b), '?%d' % len(b))

    def files(self):
        out = []
        for k in 'AB':
            top = os.path.join(self.where(k), 'nimbleData')
            for r, _, fs in os.walk(self.where(k)):
                for f in fs:
                    p = os.path.join(r, f)
                    out.append([k, self.model_path(os.path.relpath(p, top)), self.ident(p)])
        for p in sorted(os.listdir(self.root)):
            if p not in 'AB':
                out.append(['outside', p, ''])
        return sorted(out)

    def event(self, op, u=None, over=False, how='', id='', gets=0, ret=(), exc='', note='', links=()):
        self.rec.out.write(json.dumps({
            "op": op, "u": u.u if u else ["", "", ""], "over": over, "how": how, "id": id, "gets": gets, "ret": list(ret),
            "exc": exc, "note": note, "disk": self.files(), "links": [x.u for x in links],
            "bodies": [[b[0], b[1], b[2]] for b in self.bodies.values()], "it": self.rec.tag}) + '\n')
        self.rec.n += 1
        self.rec.count(op + (':' + how if how else '') + ('!' if exc else ''))

    # ---- what happens around nimble ----
    def serve(self, u, b):
        if b in ('gone', 'html'):
            web.PAGES[u.key] = ("gone",) if b == 'gone' else ("html", "<html>no data</html>")
            self.event('serve', u, id=b)
            return
        self.bodies[b[0]] = b
        data = web.pack(*b)
        self.sizes[b[0]] = len(data)
        web.PAGES[u.key] = ("body", data)
        self.event('serve', u, id=b[0])

    def served(self, u):
        for b in self.bodies.values():
            if web.PAGES.get(u.key) == ("body", web.pack(*b)):
                return b
        return None

    def parts(self, u, b):
        """is something already stored where the contents of the body go"""
        names = [u.u[1] + n if n else u.u[2] for n, _ in b[2]]
        return any(n and os.path.exists(self.real_path(n)) for n in names)

    def remove(self, path):
        os.remove(self.real_path(path))
        self.event('remove', id=path)

    def write(self, u):
        c = 'c%d' % self.rng.randint(20, 29)
        data = web.known(c, web.content(c))
        p = self.real_path(u.u[0])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        self.event('write', u, id=c)

    def locate(self, k):
        self.loc = k
        nimble.settings.set('fetch', 'location', self.where(k))
        self.event('locate', id=k)

    # ---- calls of nimble ----
    def call(self, fn, how='', limit=None):
        web.GETS.clear()
        web.MODE['cut'] = how == 'cut'
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        exc, r = '', None
        try:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            r = fn()
        except Exception as e:
            exc = type(e).__name__
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            web.MODE['cut'] = False
        return exc, r, len(web.GETS)

    def entries(self, r):
        """returned paths with the content found there"""
        out, note = [], ''
        top = os.path.join(self.where(self.loc), 'nimbleData')
        if not isinstance(r, list):
            return [], 'not-a-list'
        for p in r:
            if not os.path.isabs(p) or not os.path.isfile(p):
                return [], 'not-a-file'
            out.append([self.model_path(os.path.relpath(p, top)), self.ident(p)])
        return out, note

    def fetch(self, u, over, how=''):
        limit = None
        if how in ('full', 'tight'):
            b = self.served(u)
            limit = self.sizes[b[0]] // 2 if how == 'full' else self.sizes[b[0]] + 1000
        if over is None:
            exc, r, gets = self.call(lambda: nimble.fetchFiles(u.url), how, limit)
            over = False
        else:
            exc, r, gets = self.call(lambda: nimble.fetchFiles(u.url, overwrite=over), how, limit)
        self.learn(u)
        ret, note = self.entries(r) if not exc else ([], '')
        self.event('fetch', u, over, how, gets=gets, ret=ret, exc=exc, note=note)

    def page(self, source, links, over):
        exc, r, gets = self.call(lambda: nimble.fetchFiles(source, overwrite=over))
        ret, note = self.entries(r) if not exc else ([], '')
        self.event('page', None, over, gets=gets, ret=ret, exc=exc, note=note, links=links, id=source)

    def seen(self, obj, absolute, relative):
        """which content an object holds, and whether it knows its origin"""
        rows = obj.copy(to='pythonlist')
        n = int(rows[0][0])
        c = ('c%d' if len(rows) == 1 else 'b%d') % n
        good = [float(v) for v in rows[0]] == [n, n + 1] and all(x == rows[0] for x in rows) and len(rows) in (1, 40000)
        if not good or obj.features.getNames() != ['h1', 'h2']:
            return [["", "wrong"]], ''
        note = ''
        for o in (obj, obj.copy(), obj.copy(to='List')):
            if (o.absolutePath, o.relativePath, o.path) != (absolute, relative, absolute):
                note = 'origin-of-data'
        return [["", c]], note

    def data(self, u, how=''):
        exc, r, gets = self.call(lambda: nimble.data(u.url, featureNames=True, useLog=False), how)
        ret, note = self.seen(r, u.url, None) if not exc else ([], '')
        self.event('data', u, how=how, gets=gets, ret=ret, exc=exc, note=note)

    def load(self, path):
        p = self.real_path(path)
        rel = os.path.relpath(p)
        src = self.rng.choice([p, rel])
        exc, r, gets = self.call(lambda: nimble.data(src, featureNames=True, useLog=False))
        ret, note = self.seen(r, p, rel) if not exc else ([], '')
        self.event('load', id=path, gets=gets, ret=ret, exc=exc, note=note)


PLAN = {'d/x.csv': Url('http://data.test/d/x.csv'), 'd/y.zip': Url('http://data.test/d/y.zip'),
        'd/g.csv.gz': Url('http://data.test/d/g.csv.gz')}
PLANBODIES = {'c1': ['c1', 'plain', []], 'c3': ['c3', 'plain', []],
              'z1': ['zip:1', 'arc', [['m.csv', 'c1'], ['s/n.csv', 'c2']]], 'z2': ['zip:2', 'arc', [['m.csv', 'c3']]],
              'g1': ['gz:c1', 'gz', [['', 'c1']]], 'g2': ['gz:c3', 'gz', [['', 'c3']]], 'gone': 'gone'}

H = 'http://data.test/'
POOL = {
    'plain': ['d/x.csv', 'd/e/x.csv', 'd/raw', 'd/v.csv?v=1', 'd/v.csv?v=2', 'd/v.csv', 'x.csv'],
    'gz': ['g/g.csv.gz', 'g/packed', 'g/v.gz?v=1', 'g/v.gz'],
    'arc': ['z1/y.zip', 'z2/a.tar', 'z3/b.tgz', 'z4/get?fmt=zip', 'z5/bundle', 'z6/w.zip', 'z6/v.zip'],
    'evil': ['e1/y.zip', 'e2/a.tar'],
}


def replay(r, plan):
    for p, b in (('d/x.csv', 'c1'), ('d/y.zip', 'z1'), ('d/g.csv.gz', 'g1')):
        r.serve(PLAN[p], PLANBODIES[b])
    for op, path, over, id in plan:
        if op == 'fetch':
            r.fetch(PLAN[path], over)
        elif op == 'serve':
            r.serve(PLAN[path], PLANBODIES[id])
        elif op == 'remove':
            r.remove('data.test/' + id)
        else:
            r.locate(id)


def shared(r):
    """two archives side by side which contain a file of the same name"""
    w, v = Url(H + 'z6/w.zip'), Url(H + 'z6/v.zip')
    r.serve(w, ['zip:w', 'arc', [['m.csv', 'c1']]])
    r.serve(v, ['zip:v', 'arc', [['m.csv', 'c2']]])
    for u in (w, v, w):
        r.fetch(u, False)


def wander(r, rng):
    urls = []
    for kind in rng.sample(['plain', 'plain', 'gz', 'arc', 'arc', 'evil'], rng.randint(2, 4)):
        for p in rng.sample(POOL[kind], min(2, len(POOL[kind]))):
            u = Url(rng.choice(['http://', 'https://']) + rng.choice(['data.test/', 'data.test/', 'www.data.test/', 'other.test/']) + p)
            if all(u.key != x.key for x, _ in urls):
                urls.append((u, kind))
    for u, kind in urls:
        r.serve(u, body(rng, kind, r.root))
    if rng.random() < .15:
        uci(r, rng)
    if rng.random() < .2:
        example(r, rng, urls)
    for _ in range(rng.randint(4, 14)):
        u, kind = rng.choice(urls)
        k = rng.random()
        if k < .5:
            over = rng.choice([None, False, True])
            how = ''
            b = r.served(u)
            stored = os.path.exists(r.real_path(u.u[0]))
            if b and (over or not stored) and rng.random() < .3:
                how = rng.choice(['cut', 'full'])
                if b[1] in ('gz', 'arc') and any(c[0] == 'b' for _, c in b[2]) and not r.parts(u, b) and rng.random() < .6:
                    how = 'tight'
            r.fetch(u, over, how)
        elif k < .68:
            x = rng.random()
            r.serve(u, 'gone' if x < .15 else 'html' if x < .25 else body(rng, kind if x < .9 or kind == 'evil' else rng.choice(['plain', 'gz', 'arc']), r.root))
        elif k < .78:
            fs = [f for f in r.files() if f[0] == r.loc]
            if fs:
                p = rng.choice(fs)[1]
                if rng.random() < .6:
                    r.remove(p)
                else:
                    r.load(p)
        elif k < .82:
            if kind == 'plain' and not u.query and (r.loc == 'A'):
                r.write(u)
        elif k < .88:
            r.locate(rng.choice('AB'))
        else:
            r.data(u, 'cut' if rng.random() < .2 and r.served(u) else '')


def uci(r, rng):
    """a dataset of the UCI repository, by name or by the url of its page"""
    n, name = rng.choice([('53', 'iris'), ('186', 'wine+quality')])
    u = Url('https://archive.ics.uci.edu/static/public/%s/%s.zip' % (n, name))
    r.serve(u, body(rng, 'arc', r.root))
    web.PAGES['archive.ics.uci.edu/datasets?search=' + name] = (
        "html", '<a href="/dataset/9/other">x</a> <a href="/dataset/%s/%s">y</a> <a href="/dataset/77/%s+2">z</a>' % (n, name, name))
    u.url = rng.choice(['uci::' + name.replace('+', ' ').title(), 'https://archive.ics.uci.edu/dataset/%s/%s' % (n, name), u.url])
    searched = 1 if u.url.startswith('uci') else 0
    for _ in range(rng.randint(1, 2)):
        over = rng.random() < .4
        exc, x, gets = r.call(lambda: nimble.fetchFiles(u.url, overwrite=over))
        ret, note = r.entries(x) if not exc else ([], '')
        r.event('fetch', u, over, gets=max(0, gets - searched), ret=ret, exc=exc, note=note)


def example(r, rng, urls):
    """a page of nimble's examples which leads to files"""
    name = rng.choice(['Hello World', 'merging'])
    anchor = name.lower().replace(' ', '-')
    us = []
    for k in range(rng.randint(1, 3)):
        u = Url('https://www.nimbledata.org/_downloads/%s/f%d.csv' % (rng.choice(['aa11', 'bb22']), k))
        r.serve(u, body(rng, 'plain', r.root) if rng.random() < .9 else 'gone')
        us.append(u)
    href = '<a href="#%s">t</a>' + ''.join('<a href="%s">f</a>' % x for x in ['/_downloads/cc/other.csv'])
    text = '<html>' + href % 'another' + '<a href="index.html">i</a><a href="#%s">t</a>' % anchor \
        + ''.join('<a href="%s">d</a>' % u.key[len('nimbledata.org'):] for u in us) \
        + '<a href="next.html">n</a>' + href % 'last' + '</html>'
    web.PAGES['nimbledata.org/datasets.html'] = ("html", text)
    for _ in range(rng.randint(1, 2)):
        r.page(rng.choice(['nimble::' + name, 'https://www.nimbledata.org/examples/%s.html' % anchor]), us, rng.random() < .4)


def scenario(rec, rng, i, tier):
    web.start()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    pl = plans()
    r = Run(rec, rng)
    try:
        if i < len(pl):
            replay(r, pl[i])
        elif i == len(pl):
            shared(r)
        else:
            wander(r, rng)
    except Exception as e:
        import traceback
        rec.out.write(json.dumps({"op": "bad", "u": ["", "", ""], "over": False, "how": "", "id": "", "gets": 0, "ret": [], "exc":
                                  type(e).__name__ + ':' + str(e)[:80], "note": traceback.format_exc()[-600:], "disk": [],
                                  "links": [], "bodies": [], "it": rec.tag}) + '\n')
        rec.n += 1
    finally:
        r.close()
