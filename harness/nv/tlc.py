"""Running TLC on a trace file or a model, and reading its verdicts."""
import os
import re
import subprocess
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def run(module, cfg=None, env=None, workers='1', heap='1500m', timeout=600, extra=(), cwd=SPEC):
    meta = tempfile.mkdtemp(prefix='nvtlc')
    cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
           '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-workers', workers, '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b''
        return 124, out.decode(errors='replace') if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    st = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if not st:
        st2 = re.findall(r'The number of states generated: (\d+)', out)
        if st2:
            return int(st2[-1]), int(st2[-1])
        return 0, 0
    return int(st[-1][0]), int(st[-1][1])


BAD = re.compile(r'BAD\|(\d+)\|([^"]*)')


def check_trace(module, lines, cfg=None, env=None, timeout=600, workdir=None):
    """Validate trace lines (JSON strings).  Returns (bad, transitions) where
    bad is a list of (index, clause).  An observation the model cannot even
    evaluate is itself a rejected line."""
    todo = list(enumerate(lines))
    bad = []
    total = 0
    tries = 0
    while todo:
        fd, path = tempfile.mkstemp(suffix='.ndjson', dir=workdir)
        with os.fdopen(fd, 'w') as f:
            for _, ln in todo:
                f.write(ln + '\n')
        rc, out = run(module, cfg, dict(env or {}, TRACE=path), timeout=timeout)
        os.unlink(path)
        here = {}
        for m in BAD.finditer(out):
            here.setdefault(int(m.group(1)), m.group(2))
        if rc == 0:
            bad += [(todo[k - 1][0], c) for k, c in here.items()]
            total += stats(out)[0]
            break
        # find the state reached: the failing line is the last position l
        pos = [int(x) for x in re.findall(r'\bl = (\d+)', out)]
        tries += 1
        if not pos or tries > 25 or rc == 124:
            raise MachineryError('TLC failed on %s (rc %s):\n%s' % (module, rc, out[-3000:]))
        k = max(pos)
        bad += [(todo[i - 1][0], c) for i, c in here.items() if i < k]
        msg = re.search(r'Error: (.*)', out)
        bad.append((todo[k - 1][0], 'unevaluable-observation'))
        if os.environ.get('NV_DEBUG'):
            print(out[-2500:])
        total += k
        todo = todo[k:]
    bad.sort()
    return bad, total
