"""mk(...): write /verif/seeded/<id>/ from a textual replacement in /repo's HEAD."""
import json, os, subprocess, sys, tempfile, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=$T TMPDIR=$T MPLBACKEND=Agg OMP_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 PYTHONDONTWRITEBYTECODE=1
R=$PWD; cd "$T" && PYTHONPATH=$R /opt/venv/bin/python -W ignore "$D/demo.py"
'''
HEAD = '''import numpy as np
import nimble
nimble.settings.set('logger', 'enabledByDefault', 'False')
'''


def mk(id, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], check=True, capture_output=True, text=True).stdout
        # changed lines should be the original repository's
        for f, old, new in edits:
            pass
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        os.rmdir(w)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(HEAD + textwrap.dedent(demo).lstrip('\n'))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id, len(diff.splitlines()))
