"""Run one property's check: drive the real code in parallel, validate the
recorded events against the specification with TLC, run the property's model,
report."""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HARNESS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(HARNESS)
sys.path.insert(0, HARNESS)
from nv import tlc           # noqa
from nv.props import PROPS   # noqa

PY = os.environ.get('NV_PY', '/opt/venv/bin/python')


def environment(home):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'TERM', 'NV_DEBUG')}
    e.update(HOME=home, LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=os.environ.get('NV_REPO', '/repo') + ':' + HARNESS, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1',
             TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1', PYTHONWARNINGS='ignore', TMPDIR=home)
    e['PATH'] = '/opt/venv/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def drive(pid, seed, tier, start, stop, step, work, k, budget, extra=None):
    home = os.path.join(work, 'h%d' % k)
    os.makedirs(home)
    out = os.path.join(work, 'ev%d.ndjson' % k)
    p = subprocess.run([PY, '-W', 'ignore', '-m', 'nv.worker', pid, str(seed), tier, str(start), str(stop),
                        str(step), out, str(budget)], cwd=home, env=dict(environment(home), **(extra or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        return out, None, p.stdout[-3000:]
    with open(out + '.meta') as f:
        return out, json.load(f), p.stdout[-500:]


def known(pid):
    path = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith('{'):
                r = json.loads(ln)
                if r.get('status') == 'open' and r['property'] == pid:
                    out.append(r)
    return out


def matches(finding, ev, clause):
    """A finding names the operation, the clause and (optionally) a set of
    argument / state constraints: path -> value or regex."""
    m = finding['match']
    if m.get('op') is not None and not re.fullmatch(m['op'], ev.get('op')):
        return False
    if m.get('clause') is not None and not re.fullmatch(m['clause'], clause):
        return False
    for path, want in m.get('where', {}).items():
        cur = ev
        for part in path.split('.'):
            try:
                cur = cur[int(part)] if isinstance(cur, list) else cur[part]
            except Exception:
                return False
        if isinstance(want, str) and want.startswith('re:'):
            if not re.search(want[3:], cur if isinstance(cur, str) else json.dumps(cur)):
                return False
        elif cur != want:
            return False
    return True


def model_runs(cfgs):
    """Model-check the property's design models; returns (states, transitions, info)."""
    st = tr = 0
    info = []
    for module, cfg in cfgs:
        t0 = time.time()
        rc, out = tlc.run(module, cfg, workers='8', heap='6g', timeout=800)
        if rc != 0:
            raise tlc.MachineryError('model %s/%s: rc %s\n%s' % (module, cfg, rc, out[-3000:]))
        a, b = tlc.stats(out)
        st += b
        tr += a
        info.append({"module": module, "cfg": cfg, "distinct_states": b, "generated": a,
                     "wall_s": round(time.time() - t0, 1)})
    return st, tr, info


def make_plans(cfgs, work):
    """Behaviours enumerated by TLC (lines PLAN|...) for the driver to replay."""
    st = tr = 0
    info = []
    path = os.path.join(work, 'plans.txt')
    with open(path, 'w') as f:
        for module, cfg in cfgs:
            t0 = time.time()
            rc, out = tlc.run(module, cfg, workers='1', heap='4g', timeout=800)
            if rc != 0:
                raise tlc.MachineryError('model %s/%s: rc %s\n%s' % (module, cfg, rc, out[-3000:]))
            pl = [x.replace('\\"', '"') for x in re.findall(r'(?m)^"PLAN\|(.*)"$', out)]
            f.write('\n'.join(pl) + '\n')
            a, b = tlc.stats(out)
            st += b
            tr += a
            info.append({"module": module, "cfg": cfg, "distinct_states": b, "generated": a, "behaviours": len(pl),
                         "wall_s": round(time.time() - t0, 1)})
    return path, st, tr, info


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--n', type=int)
    ap.add_argument('--only', type=int, help='replay one scenario')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--show', type=int, default=5)
    ap.add_argument('--nomc', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.pid]
    n = a.n or P[a.tier]
    budget = 150 if a.tier == 'quick' else 700
    work = tempfile.mkdtemp(prefix='nv_%s_' % a.pid)
    try:
        rc = check(a, P, n, budget, work, t0)
    except tlc.MachineryError as e:
        print('MACHINERY ERROR', e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.exit(rc)


def check(a, P, n, budget, work, t0):
    pid = a.pid
    if a.only is not None:
        jobs = [(a.only, a.only + 1, 1)]
    else:
        k = min(a.procs, max(1, n))
        jobs = [(s, n, k) for s in range(k)]
    fixed = dict(P.get('extra_env', {}), VERIF_SEED=str(a.seed))
    st, tr, info = (0, 0, [])
    if P.get('plans'):
        fixed['NV_PLANS'], st, tr, info = make_plans(P['plans'], work)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda kj: drive(pid, a.seed, a.tier, *kj[1], work, kj[0], budget, fixed), enumerate(jobs)))
    lines = []
    cover, scen = {}, 0
    crashed = []
    for out, meta, tail in res:
        if meta is None:
            crashed.append(tail)
        else:
            for c, v in meta['cover'].items():
                cover[c] = cover.get(c, 0) + v
            scen += meta['scenarios']
        if os.path.exists(out):
            with open(out) as f:
                lines += [ln.rstrip('\n') for ln in f if ln.endswith('\n')]
    per = max(200, min(4000, len(lines) // 8 + 1))
    # longest chunk unit is a scenario only for stateful traces; table events stand alone
    chunks = [lines[i:i + per] for i in range(0, len(lines), per)]
    if P.get('stateful'):
        chunks, cur, size = [], [], 0
        last = None
        for ln in lines:
            it = json.loads(ln)['it']
            if it != last and size >= per:
                chunks.append(cur)
                cur, size = [], 0
            last = it
            cur.append(ln)
            size += 1
        if cur:
            chunks.append(cur)
    with cf.ThreadPoolExecutor(8) as ex:
        ver = list(ex.map(lambda c: tlc.check_trace(P['module'], c, workdir=work), chunks))
    if not a.nomc and a.only is None:
        st2, tr2, info2 = model_runs(P.get('mc_' + a.tier, P.get('mc', [])))
        st, tr, info = st + st2, tr + tr2, info + info2
    finds = known(pid)
    viol, kf = [], {}
    tot = 0
    for c, (bad, trans) in zip(chunks, ver):
        tot += trans
        for idx, clause in bad:
            ev = json.loads(c[idx])
            hit = next((f for f in finds if matches(f, ev, clause)), None)
            if hit:
                kf.setdefault(hit['id'], [hit, 0])[1] += 1
            else:
                viol.append((ev, clause))
    if crashed:
        raise tlc.MachineryError('worker process failed:\n' + crashed[0])
    for f in finds:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    rep = os.path.join(ROOT, 'replays')
    seen = {}
    for ev, clause in viol:
        seen.setdefault((ev.get('op'), clause), []).append(ev)
    shown = 0
    for (op, clause), evs in seen.items():
        os.makedirs(rep, exist_ok=True)
        ev = evs[0]
        path = os.path.join(rep, '%s-%s-%d.json' % (pid, re.sub(r'\W+', '_', '%s_%s' % (op, clause))[:60], ev.get('it') or 0))
        with open(path, 'w') as f:
            json.dump({"property": pid, "seed": a.seed, "tier": a.tier, "scenario": ev.get('it'), "clause": clause,
                       "count": len(evs), "event": ev,
                       "replay_cmd": "cd %s && bin/check %s --only %s --tier %s" % (ROOT, pid, ev.get('it'), a.tier)},
                      f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  clause=%s op=%s count=%d scenario=%s' % (clause, op, len(evs), ev.get('it')))
        shown += 1
        if shown <= a.show and os.environ.get('NV_SHOW'):
            for e in evs[:int(os.environ['NV_SHOW'])]:
                print('   ', json.dumps({k: v for k, v in e.items() if k != 'rk'})[:1600])
    if a.only is None:
        ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
              "coverage": {"states": st + tot, "transitions": tr + tot,
                           "traces_validated_against_impl": scen, "events_validated": len(lines),
                           "events_by_kind": cover, "models": info,
                           "samples": [json.loads(x) for x in lines[5:400:130]][:3] if lines else []},
              "assumptions": P.get('assume', []),
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d events, %d violations, %.1fs %s' % (
        pid, a.tier, scen, len(lines), len(viol), time.time() - t0, json.dumps(cover) if os.environ.get('NV_SHOW') else ''))
    return 1 if viol else 0


if __name__ == '__main__':
    main()
