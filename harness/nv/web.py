"""A web server for drivers: every request of `requests` in this process, to
whatever host, ends at a local server which offers the bodies it is told to."""
import gzip
import hashlib
import http.server
import io
import tarfile
import threading
import time
import urllib.parse
import zipfile
import requests

PAGES = {}       # url without scheme and 'www.' -> ("body", bytes) / ("gone",) / ("html", text)
GETS = []        # urls of GET requests answered
MODE = {'cut': False}


def norm(url):
    p = urllib.parse.urlsplit(url)
    host = p.netloc[4:] if p.netloc.startswith('www.') else p.netloc
    path = '/' + p.path.lstrip('/')
    return host + path + ('?' + p.query if p.query else '')


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *a):
        pass

    def answer(self, body):
        what = PAGES.get(self.headers['X-Url'], ("gone",))
        data, kind, code = b'', 'application/octet-stream', 200
        if what[0] == 'body':
            data = what[1]
        elif what[0] == 'html':
            data, kind = what[1].encode(), 'text/html; charset=utf-8'
        else:
            code, data = 404, b'not here'
        self.send_response(code)
        self.send_header('Content-Type', kind)
        self.send_header('Content-Length', str(len(data)))
        cut = MODE['cut'] and body and what[0] == 'body'
        self.send_header('Connection', 'close')
        self.end_headers()
        if body:
            self.wfile.write(data[:len(data) // 2] if cut else data)
            self.wfile.flush()
        self.close_connection = True

    def do_GET(self):
        GETS.append(self.headers['X-Url'])
        self.answer(True)

    def do_HEAD(self):
        self.answer(False)


SERVER = None


def start():
    """Start serving (once per process) and direct all requests there."""
    global SERVER
    if SERVER is not None:
        return
    SERVER = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
    SERVER.daemon_threads = True
    threading.Thread(target=SERVER.serve_forever, daemon=True).start()
    base = 'http://127.0.0.1:%d/' % SERVER.server_address[1]
    real = requests.adapters.HTTPAdapter.send

    def send(self, request, **kw):
        asked = request.url
        request.headers['X-Url'] = norm(asked)
        request.url = base
        kw['proxies'] = {}
        kw['verify'] = False
        r = real(self, request, **kw)
        request.url = r.url = asked
        return r
    requests.adapters.HTTPAdapter.send = send
    time.sleep = lambda s: None     # nimble waits between requests to real sites


def content(k):
    """bytes of the csv with content id k: 'c<n>' small, 'b<n>' large"""
    n = int(k[1:])
    row = '%d,%d\n' % (n, n + 1)
    return ('h1,h2\n' + row * (1 if k[0] == 'c' else 40000)).encode()


IDS = {}


def digest(b):
    return hashlib.sha1(b).hexdigest()


def known(cid, b):
    IDS[digest(b)] = cid
    return b


def pack(bid, kind, members):
    """the bytes of a body"""
    if kind == 'plain':
        return known(bid, content(bid))
    if kind == 'gz':
        return known(bid, gzip.compress(known(members[0][1], content(members[0][1])), mtime=0))
    if bid.startswith('gz'):
        b = gzip.compress(content(members[0][1]), mtime=0)
        return known(bid, b[:-6] + bytes(x ^ 255 for x in b[-6:]))
    how = bid.split(':')[0]
    out = io.BytesIO()
    if how == 'zip':
        with zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED) as z:
            for name, c in members:
                z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), known(c, content(c)), zipfile.ZIP_DEFLATED)
    else:
        with tarfile.open(fileobj=out, mode='w') as t:
            if 'LINK' in bid:
                ti = tarfile.TarInfo('ln')
                ti.type, ti.linkname = tarfile.SYMTYPE, '..'
                t.addfile(ti)
            for name, c in members:
                b = known(c, content(c))
                ti = tarfile.TarInfo(name)
                ti.size = len(b)
                t.addfile(ti, io.BytesIO(b))
    data = out.getvalue() if how != 'tgz' else gzip.compress(out.getvalue(), mtime=0)
    if 'DAMAGED' in bid:
        k = data.rindex(b'PK\x03\x04') + 45
        data = data[:k] + bytes(x ^ 255 for x in data[k:k + 6]) + data[k + 6:]
    return known(bid, data)
