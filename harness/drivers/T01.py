"""T01: how argument sets are judged: folds, holdouts, performance."""
from nv import tuning


def scenario(rec, rng, i, tier):
    tuning.validation_run(rec, rng)
