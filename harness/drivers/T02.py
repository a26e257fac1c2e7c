"""T02: which argument sets are tried, what is reported, what is returned.  The
first scenarios are the runs enumerated by spec/TunePlan."""
import itertools
from nv import tuning
from nv.plans import plans

GIVEN = [('b', [3, 1], True), ('a', [5, -1, 2], True)]


def replay(rec, r, plan):
    tab, sel = plan
    kind = r.choice(['Tab', 'TabInc'])
    st = tuning.Setup(r, kind, r.randint(2, 4))
    seqs = itertools.product(*[v for _, v, _ in GIVEN])
    table = [(list(zip(['b', 'a'], c)), v) for c, v in zip(seqs, tab)]
    s = {'brute': lambda: ['brute'], 'consec': lambda: ['consec', list(sel[2]), sel[3]],
         'iter': lambda: ['iter', sel[2], ["x"]]}[sel[0]]()
    val = ['data'] if sel[0] == 'iter' or r.random() < .5 else ['folds', 2]
    ev, _ = tuning.tune_event(rec, r, st, GIVEN, s, val, 'high' if sel[1] else 'low', table)
    tuning.emit(rec, ev)


def scenario(rec, rng, i, tier):
    ps = plans()
    if i < len(ps):
        replay(rec, rng, ps[i])
    elif rng.random() < .25:
        tuning.values_run(rec, rng)
    else:
        tuning.selection_run(rec, rng)
