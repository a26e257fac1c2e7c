"""Probe learners: their arithmetic is exactly that of spec/Learn.tla, so that
whatever nimble does to data, labels, arguments, names or order shows in what
they compute.  They copy everything they are given while training."""
import random
import numpy as np
import nimble

OUT = {'how': 0}


def rows(obj):
    return [list(p) for p in obj.copy(to='pythonlist')]


def key(row):
    return sum((j + 1) * v for j, v in enumerate(row))


def out(d):
    """results in one of the forms a learner may return them"""
    h = OUT['how'] % 4
    if h == 0 or not d:
        return nimble.data(d, useLog=False)
    if h == 1:
        return d
    if h == 2 and not any(isinstance(v, str) for r in d for v in r):
        return np.array(d, dtype=float)
    return nimble.data(d, useLog=False, returnType='List', pointNames=['own%d' % i for i in range(len(d))],
                       featureNames=['res%d' % i for i in range(len(d[0]))])


class _Reg(nimble.CustomLearner):
    learnerType = 'regression'

    def _fit(self, trainX, trainY, a, b):
        self.x, self.y = rows(trainX), rows(trainY)
        self.par = (a, b)

    def _value(self, c, row, k):
        a, b = self.par
        return a * sum(y[k] * key(x) for x, y in zip(self.x, self.y)) + b * len(self.x) + c * key(row)

    def _apply(self, testX, c):
        return out([[self._value(c, r, k) for k in range(len(self.y[0]))] for r in rows(testX)])


class ProbeReg(_Reg):
    def train(self, trainX, trainY, a=1, b=0):
        self._fit(trainX, trainY, a, b)

    def incrementalTrain(self, trainX, trainY, a=1, b=0):
        self.x = self.x + rows(trainX)
        self.y = self.y + rows(trainY)
        self.par = (a, b)

    def apply(self, testX, c=1):
        return self._apply(testX, c)


class ProbeNeed(_Reg):
    def train(self, trainX, trainY, a, b=0):
        self._fit(trainX, trainY, a, b)

    def apply(self, testX):
        return self._apply(testX, 1)


class ProbeCls(nimble.CustomLearner):
    learnerType = 'classification'

    def train(self, trainX, trainY, a=1):
        self.x, self.y = rows(trainX), [r[0] for r in rows(trainY)]
        self.a = a

    def incrementalTrain(self, trainX, trainY, a=1):
        self.x = self.x + rows(trainX)
        self.y = self.y + [r[0] for r in rows(trainY)]
        self.a = a

    def _scores(self, row, c):
        z = key(row) + c
        return [-self.a * min(abs(z - key(x)) for x, y in zip(self.x, self.y) if y == lab) for lab in sorted(set(self.y))]

    def apply(self, testX, c=0):
        labs = sorted(set(self.y))
        res = []
        for r in rows(testX):
            s = self._scores(r, c)
            res.append([labs[s.index(max(s))]])
        return out(res)

    def getScores(self, testX, c=0):
        return out([self._scores(r, c) for r in rows(testX)])


class ProbeTrans(nimble.CustomLearner):
    learnerType = 'transformation'

    def train(self, trainX, trainY, a=1):
        r = rows(trainX)
        self.cols = [sum(v[j] for v in r) for j in range(len(r[0]))]
        self.a = a

    def apply(self, testX, b=0):
        return out([[self.a * v + self.cols[j] + b for j, v in enumerate(r)] for r in rows(testX)])


KINDS = {'Reg': ProbeReg, 'Need': ProbeNeed, 'Cls': ProbeCls, 'Trans': ProbeTrans}
TRAIN = {'Reg': ['a', 'b'], 'Need': ['a', 'b'], 'Cls': ['a'], 'Trans': ['a']}
APPLY = {'Reg': ['c'], 'Need': [], 'Cls': ['c'], 'Trans': ['b']}


def cells(obj):
    return [r[0] for r in rows(obj)]


@nimble.calculate.performanceFunction('min')
def total(knownValues, predictedValues):
    return sum(cells(predictedValues))


@nimble.calculate.performanceFunction('max', predict='allScores', requires1D=False, sameFtCount=False)
def scored(knownValues, predictedValues):
    names = [label(n) for n in predictedValues.features.getNames()]
    return sum(r[names.index(k)] for r, k in zip(rows(predictedValues), cells(knownValues)))


def label(n):
    try:
        return float(n)
    except (TypeError, ValueError):
        return n


PERF = {'mae': nimble.calculate.meanAbsoluteError, 'rmse': nimble.calculate.rootMeanSquareError,
        'wrong': nimble.calculate.fractionIncorrect, 'right': nimble.calculate.fractionCorrect,
        'total': total, 'scored': scored}
