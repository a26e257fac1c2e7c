"""R01: histories of seeding, controlled blocks and random operations.  The
first scenarios replay histories enumerated by spec/RandomPlan, the others are
long random ones; the generators are compared through what they produce."""
import hashlib
import json
import random
import numpy as np
import nimble
from nv.plans import plans

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']


class Boom(Exception):
    pass


class RandomLearner(nimble.CustomLearner):
    """fits nothing, remembers what it drew while training"""
    learnerType = 'regression'

    def train(self, trainX, trainY):
        self.drawn = [nimble.random.pythonRandom.random(), float(nimble.random.numpyRandom.rand())]

    def incrementalTrain(self, trainX, trainY):
        self.drawn = self.drawn + [nimble.random.pythonRandom.random(), float(nimble.random.numpyRandom.rand())]

    def apply(self, testX):
        return nimble.data([[self.drawn[0]]] * len(testX.points), useLog=False)


class Other(Exception):
    pass


def digest(v):
    return hashlib.sha1(repr(v).encode()).hexdigest()[:14]


def lists(obj):
    return [[float(v) for v in row] for row in obj.copy(to='pythonlist')]


def column(rng, n):
    """points 0..n-1 in order"""
    return nimble.data([[float(i)] for i in range(n)], returnType=rng.choice(TYPES), useLog=False)


def row(rng, n):
    return nimble.data([[float(i) for i in range(n)]], returnType=rng.choice(TYPES), useLog=False)


X = Y = None


def xy():
    global X, Y
    if X is None:
        r = np.random.RandomState(5)
        x = r.randint(0, 9, (24, 3)).tolist()
        X = nimble.data(x, returnType='Matrix', useLog=False)
        Y = nimble.data([[float(a[0] + 2 * a[1])] for a in x], returnType='Matrix', useLog=False)
    return X, Y


# name -> (function of rng giving the result, results are apart); the rng only
# chooses what must not matter
def _folds(rng, seed=None):
    """which of several equal-looking arguments wins depends on the folds"""
    x, y = xy()
    t = nimble.Tuning(folds=3, performanceFunction=nimble.calculate.fractionIncorrect)
    nimble.train('nimble.KNNClassifier', x, y, k=nimble.Tune([1, 2, 3, 5]), randomSeed=seed, tuning=t, useLog=False)
    return [t.allResults, t.allArguments, t.deepResults]


def _onTraining(rng, seed=None):
    x, y = xy()
    return nimble.trainAndTestOnTrainingData(RandomLearner, nimble.calculate.rootMeanSquareError, x, y,
                                             crossValidationFolds=3, randomSeed=seed, useLog=False)


def _train(rng, seed=None):
    x, y = xy()
    return nimble.train(RandomLearner, x, y, randomSeed=seed, useLog=False).getAttributes()['drawn']


def _trainApply(rng, seed=None):
    x, y = xy()
    return lists(nimble.trainAndApply(RandomLearner, x, y, x, randomSeed=seed, useLog=False))


def _incremental(rng, seed=None):
    x, y = xy()
    with nimble.random.alternateControl(3, useLog=False):
        tl = nimble.train(RandomLearner, x, y, useLog=False)
    tl.incrementalTrain(x, y, randomSeed=seed, useLog=False)
    return tl.getAttributes()['drawn']


def _retrain(rng, seed=None):
    x, y = xy()
    with nimble.random.alternateControl(3, useLog=False):
        tl = nimble.train(RandomLearner, x, y, useLog=False)
    tl.retrain(x, y, randomSeed=seed, useLog=False)
    return tl.getAttributes()['drawn']


def _forest(rng, seed=None):
    x, y = xy()
    tl = nimble.train('sklearn.RandomForestRegressor', x, y, n_estimators=5, randomSeed=seed, useLog=False)
    return [round(float(v), 9) for v in tl.apply(x, useLog=False)]


def _data(n, m, sparsity, kind):
    def f(rng, seed=None):
        return lists(nimble.random.data(n, m, sparsity, elementType=kind, returnType=rng.choice(TYPES),
                                        randomSeed=seed, useLog=False))
    return f


def _validator(cls, **args):
    def f(rng, seed=None):
        x, y = xy()
        learner = RandomLearner
        v = cls(learner, x, y, nimble.calculate.rootMeanSquareError, randomSeed=seed, useLog=False, **args)
        out = [round(v.validate({}), 12) for _ in range(2)]
        return [v.randomSeed] + out
    return f


def _holdout(rng, seed=None):
    x, y = xy()
    return _validator(nimble.core.tune.HoldoutData, validateX=x, validateY=y)(rng, seed)


def group():
    return nimble.data([[float(i % 3)] for i in range(24)], useLog=False)


def _groups(rng, seed=None):
    return _validator(nimble.core.tune.LeaveOneGroupOut, foldFeature=group())(rng, seed)


DRAWS = {
    'seed': (lambda rng: [nimble.random.generateSubsidiarySeed() for _ in range(2)], True),
    'np': (lambda rng: nimble.random.numpyRandom.rand(3).tolist(), True),
    'py': (lambda rng: [nimble.random.pythonRandom.random() for _ in range(2)], True),
    'shuffle': (lambda rng: shuffled(nimble.random.numpyRandom), True),
    'data': (_data(4, 3, 0, 'float'), True),
    'data5': (_data(5, 4, .5, 'float'), True),
    'dataint': (_data(6, 5, 0, 'int'), True),
    'dataint5': (_data(8, 5, .25, 'int'), True),
    'permuteP': (lambda rng: permuted(column(rng, 25), 'points'), True),
    'permuteF': (lambda rng: permuted(row(rng, 25), 'features'), True),
    'split': (lambda rng: [lists(t) for t in column(rng, 24).trainAndTestSets(.25, useLog=False)], True),
    'split4': (lambda rng: [lists(t) for t in column(rng, 24).trainAndTestSets(.25, labels=column(rng, 24), useLog=False)], True),
    'extractP': (lambda rng: sampled(column(rng, 60), 'points', 'extract', 12), True),
    'copyF': (lambda rng: sampled(row(rng, 60), 'features', 'copy', 12), True),
    'retainP': (lambda rng: sampled(column(rng, 60), 'points', 'retain', 12), True),
    'deleteF': (lambda rng: sampled(row(rng, 60), 'features', 'delete', 12), True),
    'train': (_train, True),
    'trainApply': (_trainApply, True),
    'incremental': (_incremental, True),
    'retrain': (_retrain, True),
    'forest': (_forest, True),
    'kfold': (_validator(nimble.core.tune.KFold, folds=4), True),
    'holdout': (_validator(nimble.core.tune.HoldoutProportion, proportion=.25), True),
    'holdoutData': (_holdout, True),
    'groups': (_groups, True),
    'onTraining': (_onTraining, True),
    'tuned': (_folds, False),
}
COMMON = ['seed', 'np', 'py', 'shuffle', 'data', 'data5', 'dataint', 'dataint5', 'permuteP', 'permuteF', 'split', 'split4',
          'extractP', 'copyF', 'retainP', 'deleteF', 'train', 'trainApply', 'incremental', 'retrain', 'data', 'split']
RARE = ['forest', 'kfold', 'holdout', 'holdoutData', 'groups', 'onTraining', 'tuned']
SEEDED = {'kfold': DRAWS['kfold'][0], 'holdout': DRAWS['holdout'][0], 'holdoutData': _holdout, 'groups': _groups, 'tuned': _folds,
          'onTraining': _onTraining, 'data': _data(4, 3, 0, 'float'), 'data5': _data(5, 4, .5, 'float'), 'dataint': _data(6, 5, 0, 'int'),
          'train': _train, 'trainApply': _trainApply, 'incremental': _incremental, 'retrain': _retrain, 'forest': _forest}


def shuffled(r):
    x = list(range(25))
    r.shuffle(x)
    return x


def permuted(obj, axis):
    getattr(obj, axis).permute(useLog=False)
    return [float(v) for v in obj]


def sampled(obj, axis, how, n):
    f = getattr(getattr(obj, axis), how)
    r = f(number=n, randomize=True, useLog=False)
    return [[float(v) for v in obj], [float(v) for v in r] if r is not None else []]


def quiet(rng):
    """operations which are not random"""
    x, y = xy()
    k = rng.randrange(9)
    if k == 0:
        x.copy(to=rng.choice(TYPES))
    elif k == 1:
        str(x), x.show, repr(y)
    elif k == 2:
        nimble.train('nimble.RidgeRegression', x, y, randomSeed=rng.randrange(99), useLog=False).apply(x, useLog=False)
    elif k == 3:
        x.copy().points.sort(0, useLog=False)
    elif k == 4:
        x.points.copy(lambda p: p[0] > 3, useLog=False)
    elif k == 5:
        nimble.calculate.rootMeanSquareError(y, y)
    elif k == 6:
        x.trainAndTestSets(.5, randomOrder=False, useLog=False)
    elif k == 7:
        x.points.copy(number=4, useLog=False)
    else:
        nimble.data([[1, 2], [3, 4]], returnType=rng.choice(TYPES), useLog=False) + 1


def noise(rng):
    """the program uses the global generators of python and numpy"""
    k = rng.randrange(4)
    if k == 0:
        np.random.seed(rng.randrange(99))
    elif k == 1:
        random.seed(rng.randrange(99))
    elif k == 2:
        np.random.rand(3)
    else:
        random.random()


BAD = ['abc', -1, 2 ** 33, 1.5, [1, 2], -2 ** 40]


class Run:
    def __init__(self, rec, rng):
        self.rec, self.rng, self.blocks = rec, rng, []
        self.event('start')

    def event(self, op, what='', seed='', res='', exc='', apart=False):
        self.rec.out.write(json.dumps({"op": op, "what": what, "seed": seed, "res": res, "exc": exc, "apart": apart,
                                       "it": self.rec.tag}) + '\n')
        self.rec.n += 1
        self.rec.count(op + (':' + what if what else '') + ('!' if exc else ''))

    def close(self):
        while self.blocks:
            self.blocks.pop().__exit__(None, None, None)

    def step(self, op, seed='', what=''):
        rng = self.rng
        exc, res, apart = '', '', False
        try:
            if op == 'setSeed':
                nimble.random.setSeed(None if seed == 'none' else rng.choice(BAD) if seed == 'bad' else int(seed), useLog=False)
            elif op == 'enter':
                b = nimble.random.alternateControl(None if seed == 'none' else rng.choice(BAD) if seed == 'bad' else int(seed),
                                                   useLog=False)
                b.__enter__()
                self.blocks.append(b)
            elif op == 'exit':
                self.blocks.pop().__exit__(None, None, None)
            elif op == 'abort':
                e = rng.choice([Boom('x'), KeyboardInterrupt('x')])
                try:
                    swallowed = self.blocks.pop().__exit__(type(e), e, None)
                except (Boom, KeyboardInterrupt):
                    swallowed = False
                if swallowed:
                    raise Other('swallowed')
            elif op == 'draw':
                f, apart = DRAWS[what]
                r = f(rng)
                res = digest(r)
                self.rec.last = r
            elif op == 'seeded':
                res, apart = digest(SEEDED[what](rng, seed=int(seed))), DRAWS[what][1]
            elif op == 'quiet':
                quiet(rng)
            elif op == 'noise':
                noise(rng)
        except Exception as e:
            exc = type(e).__name__
            self.event(op, what, seed, res, exc, apart)
            return
        self.event(op, what, seed, res, '', apart)


def scenario(rec, rng, i, tier):
    pl = plans()
    try:
        r = Run(rec, rng)
        if i < len(pl):
            # a block opened in the plan and a known start, so that states can be compared between histories
            r.step('setSeed', '7')
            for op, arg in pl[i]:
                if op == 'draw':
                    r.step('draw', what={'py': 'seed', 'np': 'np', 'op': 'data'}[arg])
                elif op == 'seeded':
                    r.step('seeded', arg, 'data')
                else:
                    r.step(op, arg)
            r.step('draw', what='py')
            r.step('draw', what='np')
            while r.blocks:
                r.step(rng.choice(['exit', 'abort']))
                r.step('draw', what='py')
                r.step('draw', what='np')
            return
        seeds = rng.sample(['0', '1', '2', '42', '4294967295', '1000'], 3)
        few = rng.sample(COMMON, 3) + ([rng.choice(RARE)] if rng.random() < .2 else [])
        r.step('setSeed', rng.choice(seeds))
        for _ in range(rng.randint(5, 12)):
            k = rng.random()
            if k < .12:
                r.step('setSeed', rng.choice(seeds + ['bad', 'none']))
            elif k < .24:
                r.step('enter', rng.choice(seeds + ['bad', 'none']))
            elif k < .34 and r.blocks:
                r.step(rng.choice(['exit', 'abort']))
            elif k < .7:
                r.step('draw', what=rng.choice(few))
            elif k < .84:
                r.step('seeded', rng.choice(seeds), rng.choice([w for w in SEEDED if w not in RARE or w in few]))
            elif k < .94:
                r.step('quiet')
            else:
                r.step('noise')
        r.step('draw', what='py')
        r.step('draw', what='np')
        while r.blocks:
            r.step(rng.choice(['exit', 'abort']))
            r.step('draw', what='py')
            r.step('draw', what='np')
    finally:
        r.close()
