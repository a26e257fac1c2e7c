"""M06: learning with scikit-learn.  Histories of training, applying, scoring,
testing, retraining, saving and loading learners of the package, with every
call the package receives recorded."""
import os
import shutil
import tempfile
import nimble
from nv import backend, core, enc, gen, learners

nan = float('nan')
I = nimble.Init
LABS = [['a', 'b'], ['a', 'b', 'cc'], [0, 1], [0, 1, 2], [3, 1, 2], [1, 2], [0, 1, 2, 3], [-1, 1], ['b', 'B', 'x', 'a'], [10, 9], [10, 9, 2]]
# name -> {argument: values}; the key '' names the classes that may be given as parameter
SW = {'sample_weight': 'weights'}
REG = {
    'Ridge': dict(alpha=[.5, 1, 2], fit_intercept=[True, False], **SW), 'LinearRegression': dict(fit_intercept=[True, False], positive=[True], **SW),
    'Lasso': dict(alpha=[.1, 1]), 'DecisionTreeRegressor': dict(max_depth=[1, 2], min_samples_leaf=[1, 2], **SW),
    'KNeighborsRegressor': dict(n_neighbors=[1, 2, 3], weights=['uniform', 'distance']), 'DummyRegressor': dict(strategy=['mean', 'median']),
    'RandomForestRegressor': dict(n_estimators=[2]), 'SVR': dict(C=[1, 2], kernel=['linear', 'rbf']), 'PLSRegression': dict(n_components=[1]),
    'BaggingRegressor': {'estimator': [I('Ridge', alpha=2), I('DecisionTreeRegressor', max_depth=1), I('Ridge')], 'n_estimators': [2],
                         '': ['Ridge', 'DecisionTreeRegressor']},
    'TransformedTargetRegressor': {'regressor': [I('Ridge', fit_intercept=False)], '': ['Ridge']},
    'ElasticNet': dict(alpha=[.5], l1_ratio=[.5, 1]), 'HuberRegressor': {}, 'KernelRidge': dict(alpha=[1, 2]), 'BayesianRidge': {},
    'RANSACRegressor': {}, 'GradientBoostingRegressor': dict(n_estimators=[2]), 'OrthogonalMatchingPursuit': {},
}
CLS = {
    'LogisticRegression': dict(C=[.5, 1, 10], **SW), 'GaussianNB': dict(**SW), 'DecisionTreeClassifier': dict(max_depth=[1, 2], criterion=['gini', 'entropy'], **SW),
    'KNeighborsClassifier': dict(n_neighbors=[1, 2, 3]), 'SVC': dict(C=[1, 10], kernel=['linear'], decision_function_shape=['ovo', 'ovr']),
    'RidgeClassifier': dict(alpha=[1, 2]), 'DummyClassifier': dict(strategy=['most_frequent', 'prior', 'uniform']),
    'LinearDiscriminantAnalysis': {}, 'NearestCentroid': {}, 'RandomForestClassifier': dict(n_estimators=[3]),
    'AdaBoostClassifier': {'estimator': [I('DecisionTreeClassifier', max_depth=1), I('DecisionTreeClassifier')], 'n_estimators': [2],
                           'algorithm': ['SAMME'], '': ['DecisionTreeClassifier']},
    'SGDClassifier': dict(loss=['hinge', 'log_loss']), 'Perceptron': {}, 'LinearSVC': dict(C=[1, 2]), 'BernoulliNB': dict(alpha=[1, 2]),
    'BaggingClassifier': {'estimator': [I('GaussianNB'), I('BaggingClassifier', estimator=I('GaussianNB', var_smoothing=.1), n_estimators=2)],
                          'n_estimators': [2], '': ['GaussianNB', 'BaggingClassifier']},
    'QuadraticDiscriminantAnalysis': {}, 'ExtraTreeClassifier': dict(max_depth=[1, 3]),
}
CLU = {
    'KMeans': dict(n_clusters=[2, 3], n_init=[1], **SW), 'DBSCAN': dict(eps=[.5, 1, 2], min_samples=[1, 2]), 'AgglomerativeClustering': dict(n_clusters=[2]),
    'MeanShift': dict(bandwidth=[1, 2]), 'GaussianMixture': dict(n_components=[1, 2]), 'Birch': dict(n_clusters=[2]),
    'BisectingKMeans': dict(n_clusters=[2]), 'SpectralClustering': dict(n_clusters=[2]),
}
TRA = {
    'StandardScaler': dict(with_mean=[True, False], with_std=[True, False], **SW), 'MinMaxScaler': dict(feature_range=[(0, 2)]), 'PCA': dict(n_components=[1]),
    'PolynomialFeatures': dict(degree=[1, 2], include_bias=[True, False]), 'Normalizer': dict(norm=['l1', 'max']),
    'Binarizer': dict(threshold=[0, 1]), 'SelectKBest': dict(k=[1, 'all']), 'KBinsDiscretizer': dict(n_bins=[2], encode=['ordinal']),
    'OneHotEncoder': dict(handle_unknown=['ignore']), 'OrdinalEncoder': {}, 'VarianceThreshold': {}, 'SimpleImputer': dict(strategy=['mean', 'median'], add_indicator=[True]),
    'KNNImputer': dict(n_neighbors=[1, 2]), 'MissingIndicator': {}, 'MaxAbsScaler': {}, 'RobustScaler': {}, 'SpectralEmbedding': dict(n_components=[1]),
    'MDS': dict(n_components=[1], n_init=[1], max_iter=[2]), 'QuantileTransformer': dict(n_quantiles=[2]), 'TruncatedSVD': dict(n_components=[1]),
    'PLSSVD': dict(n_components=[1]), 'Isomap': dict(n_components=[1], n_neighbors=[2]), 'FunctionTransformer': {}, 'NMF': dict(n_components=[1]),
}
ODD = {'IsolationForest': dict(n_estimators=[2]), 'OneClassSVM': dict(nu=[.5]), 'EllipticEnvelope': {}}
ALL = {**REG, **CLS, **CLU, **TRA, **ODD}
FAMILIES = [REG, CLS, CLS, CLU, TRA, ODD]
MISSING = {'SimpleImputer', 'KNNImputer', 'MissingIndicator'}
NEEDY = {'SelectKBest', 'PLSSVD'}           # transformations with labels
PREFIX = ['sklearn.', 'sklearn.', 'skl.', 'scikitlearn.', 'SKL.', 'scikit-learn.']
SLOTS = 2


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.tl, self.L, self.m, self.labs, self.ny = {}, {}, {}, {}, {}
        self.tmp = None

    # --- data -----------------------------------------------------------------
    def table(self, n, m, miss=False):
        r = self.rng
        vals = r.choice([[0, 1, 2, 3, 4, 5], [0, 1, 2, .5, 1.5, 3], [0, 1], [1, 2, 3, 8]])
        d = [[r.choice(vals) for _ in range(m)] for _ in range(n)]
        if miss:
            for row in d:
                for j in range(m):
                    if r.random() < .2:
                        row[j] = nan
        return gen.Tab(d, m, gen.gen_names(r, gen.PN, n), gen.gen_names(r, gen.FN, m))

    def obj(self, tab):
        r = self.rng
        ty = r.choice(gen.TYPES)
        if ty == 'Sparse' and not gen.sparseable(tab):
            ty = 'Matrix'
        return gen.as_view(r, tab, ty) if r.random() < .12 else gen.build(r, tab, ty)[0]

    def labels(self, name, n, labs, ny):
        r = self.rng
        if name in CLS:
            out = [[v] for v in labs] + [[r.choice(labs)] for _ in range(n)]
            out = out[:n]
            r.shuffle(out)
            return out
        return [[r.choice([0, 1, 2, 3, 4.5]) for _ in range(ny)] for _ in range(n)]

    def data(self, name, n, m, labs, ny, wrong=False, labelled=None):
        """training data, labels for nimble, labels for the model"""
        r = self.rng
        x = self.table(n, m, name in MISSING)
        if labelled is None:
            labelled = name in REG or name in CLS or name in NEEDY
        if not labelled:
            xo = self.obj(x)
            return xo, None, ["none"]
        if ny == 1 and r.random() < .45:
            y = self.labels(name, n, labs, 1)
            at = r.randint(0, m)
            d = [row[:at] + yy + row[at:] for row, yy in zip(x.d, y)]
            fn = x.fn[:at] + [r.choice([None, 'lab', 'y'])] + x.fn[at:]
            xo = self.obj(gen.Tab(d, m + 1, x.pn, fn))
            idn = at if fn[at] is None or r.random() < .5 else fn[at]
            if wrong:
                idn = r.choice(['nope', m + 1, m + 5])
            elif isinstance(idn, int) and r.random() < .15:
                idn -= m + 1
            return xo, idn, ["id", ["s", idn] if isinstance(idn, str) else ["i", idn]]
        k = n + 1 if wrong else n
        y = self.labels(name, k, labs, ny)
        yo = self.obj(gen.Tab(y, ny, gen.gen_names(r, gen.PN, k), gen.gen_names(r, ['lab', 'y', 'out', 'f0'], ny)))
        return self.obj(x), yo, ["obj", core.observe(yo)]

    def args(self, cand, n, bad=.06):
        r = self.rng
        out = {}
        for k, vs in cand.items():
            if k and r.random() < .5:
                out[k] = [r.choice([1, 2]) for _ in range(n)] if vs == 'weights' else r.choice(vs)
        if r.random() < bad:
            k, v = r.choice([('zz', 1), ('random_state', 3), ('X', 1), ('trainX', 2), ('n_neighbours', 1)])
            out[k] = v
        if r.random() < bad / 2 and 'estimator' in out:
            out['estimator'] = r.choice([I('Nope'), I('Ridge', zz=1), I('DecisionTreeClassifier', depth=1)])
        return out

    def split(self, args):
        """as dict, as keywords, or both"""
        r = self.rng
        if r.random() < .4:
            return args, {}
        if r.random() < .5:
            return None, args
        a, kw = {}, {}
        for k, v in args.items():
            (a if r.random() < .5 else kw)[k] = v
        return a, kw

    # --- one call ---------------------------------------------------------------
    def call(self, op, a, ins, fn, result=None):
        ins = [o for o in ins if isinstance(o, nimble.core.data.Base)]
        pre = [core.observe(o) for o in ins]
        del backend.CALLS[:]
        exc, note, res = "", "", None
        try:
            res = fn()
        except Exception as e:
            exc, note = type(e).__name__, str(e)[:160]
        calls = list(backend.CALLS)
        try:
            post = [core.observe(o) for o in ins]
            out = (result or self.result)(res) if not exc else ["none"]
        except core.Unobservable as e:
            return self.emit({"op": "bad", "exc": 'post:' + op + ':' + str(e) + exc, "a": a})
        self.emit({"op": op, "a": a, "ins": [[p, q] for p, q in zip(pre, post)], "res": out, "exc": exc, "note": note, "calls": calls,
                   "obs": [[s, backend.pairs(t.arguments)] for s, t in self.tl.items()]})
        return None if exc else res

    def result(self, res):
        if isinstance(res, nimble.core.data.Base):
            t = core.observe(res)
            t["lab"] = [enc.cell(learners.label(n)) for n in t["fn"]]
            return ["t", t]
        if isinstance(res, (int, float)) or hasattr(res, 'dtype'):
            return ["v", enc.cell(res)]
        return ["none"]

    def emit(self, ev):
        full = {"a": {}, "ins": [], "res": ["none"], "exc": "", "note": "", "calls": [], "obs": []}
        full.update(ev)
        full["it"] = self.rec.tag
        full["rk"] = enc.strings(full["a"], [x for l in LABS for x in l if isinstance(x, str)])
        self.rec.out.write(core.json.dumps(full) + '\n')
        self.rec.n += 1
        self.rec.count(full["op"] + ('!' if full["exc"] else ''))

    # --- the operations ------------------------------------------------------------
    def pick(self):
        r = self.rng
        if r.random() < .06:
            name = r.choice(sorted(set(backend.CLASSES) & set(nimble.learnerNames('sklearn')) - SLOW))
            return name, ALL.get(name, {})
        fam = r.choice(FAMILIES)
        name = r.choice(sorted(fam))
        return name, fam[name]

    def newdata(self, name, wrong):
        r = self.rng
        n, m = r.randint(5, 9), r.randint(1, 4)
        labs = r.choice(LABS)
        ny = 2 if name in ('Ridge', 'LinearRegression', 'KNeighborsRegressor', 'DecisionTreeRegressor', 'PLSSVD', 'PLSRegression') and r.random() < .3 else 1
        labelled = True if name not in REG and name not in CLS and name not in TRA and name not in CLU and name not in ODD else None
        if name in CLU and r.random() < .15:
            labelled = True
        x, y, yj = self.data(name, n, m, labs, ny, wrong, labelled)
        return n, m, labs, ny, x, y, yj

    def testdata(self, slot, wrong):
        r = self.rng
        m = self.m[slot]
        if wrong:
            m = max(1, m + r.choice([-1, 1]))
        return self.obj(self.table(r.randint(1, 7), m, self.L[slot]["name"] in MISSING))

    def step(self):
        r = self.rng
        live = sorted(self.tl)
        op = r.choice(['train'] * 2 + ['apply'] * 4 * bool(live) + ['scores', 'test', 'retrain', 'attrs', 'saveload'] * bool(live)
                      + ['trainApply', 'info'])
        wrong = r.random() < .06
        seed = r.randint(0, 99) if r.random() < .5 else None
        sj = ["v", repr(seed)] if seed is not None else ["none"]
        if op in ('train', 'trainApply'):
            name, cand = self.pick()
            L = backend.learner(name, cand.get('', []))
            n, m, labs, ny, x, y, yj = self.newdata(name, wrong)
            args = self.args(cand, n)
            a, kw = self.split(args)
            full = r.choice(PREFIX) + name
            J = {"L": L, "x": core.observe(x), "y": yj, "args": backend.pairs(args), "seed": sj}
            if op == 'trainApply':
                z = self.obj(self.table(r.randint(1, 6), m + (1 if wrong and yj[0] == 'none' else 0), name in MISSING))
                mode = r.choice([None, None, 'bestScore', 'allScores']) if L["type"] == 'classification' else None
                return self.call(op, dict(J, z=core.observe(z), mode=mode or 'none'), [x, y, z],
                                 lambda: nimble.trainAndApply(full, x, y, z, arguments=a, scoreMode=mode, randomSeed=seed, useLog=False, **kw))
            slot = r.randint(1, SLOTS)
            self.tl.pop(slot, None)

            def go():
                tl = nimble.train(full, x, y, a, randomSeed=seed, useLog=False, **kw)
                self.tl[slot], self.L[slot], self.m[slot], self.labs[slot], self.ny[slot] = tl, L, m, labs, ny
            return self.call(op, dict(J, slot=slot), [x, y], go)
        if op == 'info':
            name, cand = self.pick()
            L = backend.learner(name, cand.get('', []))
            full = r.choice(PREFIX) + name
            return self.call(op, {"L": L}, [], lambda: [nimble.learnerParameters(full), nimble.learnerParameterDefaults(full), nimble.learnerType(full)],
                             lambda q: ["info", list(q[0]), backend.pairs(q[1]), q[2]])
        slot = r.choice(live)
        tl, L = self.tl[slot], self.L[slot]
        cand = ALL.get(L["name"], {})
        if op == 'retrain':
            n, m = r.randint(5, 9), r.randint(1, 4)
            labelled = None if L["name"] in cand else True
            x, y, yj = self.data(L["name"], n, m, self.labs[slot] if r.random() < .6 else r.choice(LABS), self.ny[slot], wrong,
                                 None if cand else True)
            args = self.args(cand, n)
            if 'sample_weight' in tl.arguments and r.random() < .9:
                args['sample_weight'] = [r.choice([1, 2]) for _ in range(n)]
            a, kw = self.split(args)

            def again():
                tl.retrain(x, y, a, randomSeed=seed, useLog=False, **kw)
                self.m[slot] = m
            return self.call(op, {"slot": slot, "x": core.observe(x), "y": yj, "args": backend.pairs(args), "seed": sj}, [x, y], again)
        if op == 'attrs':
            return self.call(op, {"slot": slot}, [], tl.getAttributes, lambda q: ["attrs", backend.pairs(q)])
        if op == 'saveload':
            to = r.randint(1, SLOTS)
            self.tmp = self.tmp or tempfile.mkdtemp()
            p = os.path.join(self.tmp, 'x.pickle')

            def go2():
                tl.save(p)
                q = nimble.loadTrainedLearner(p)
                self.tl[to], self.L[to], self.m[to], self.labs[to], self.ny[to] = q, L, self.m[slot], self.labs[slot], self.ny[slot]
            return self.call(op, {"slot": slot, "to": to}, [], go2)
        new = {}
        if r.random() < .15:
            new = {r.choice((L["app"] or ['zz']) + ['zz']): True}
        if op == 'test':
            n, m = r.randint(2, 6), self.m[slot] + (r.choice([0, 1]) if wrong else 0)
            x, y, yj = self.data(L["name"], n, m, self.labs[slot], self.ny[slot], wrong, True)
            a, kw = self.split(new)
            return self.call(op, {"slot": slot, "x": core.observe(x), "y": yj, "args": backend.pairs(new)}, [x, y],
                             lambda: tl.test(nimble.calculate.fractionIncorrect, x, y, a, useLog=False, **kw))
        z = self.testdata(slot, wrong)
        a, kw = self.split(new)
        if op == 'scores':
            return self.call(op, {"slot": slot, "z": core.observe(z), "args": backend.pairs(new), "mode": "allScores"}, [z],
                             lambda: tl.getScores(z, a, **kw))
        mode = r.choice([None, None, 'bestScore', 'allScores']) if L["type"] == 'classification' or r.random() < .05 else None
        return self.call(op, {"slot": slot, "z": core.observe(z), "args": backend.pairs(new), "mode": mode or 'none'}, [z],
                         lambda: tl.apply(z, a, mode, useLog=False, **kw))


SLOW = {'HDBSCAN', 'TSNE', 'DictionaryLearning', 'MiniBatchDictionaryLearning', 'SparsePCA', 'MiniBatchSparsePCA', 'CountVectorizer',
        'TfidfVectorizer', 'PatchExtractor', 'RandomForestClassifier', 'ExtraTreesClassifier', 'ExtraTreesRegressor', 'RandomTreesEmbedding',
        'HistGradientBoostingClassifier', 'HistGradientBoostingRegressor', 'MLPClassifier', 'MLPRegressor', 'TheilSenRegressor',
        'LatentDirichletAllocation', 'GaussianProcessClassifier', 'RandomForestRegressor', 'IsolationForest', 'BayesianGaussianMixture',
        'GradientBoostingClassifier', 'LogisticRegressionCV', 'CalibratedClassifierCV', 'QuantileRegressor', 'MiniBatchNMF'}


def scenario(rec, rng, i, tier):
    w = World(rng, rec)
    w.emit({"op": "start"})
    try:
        for _ in range(rng.randint(3, 7)):
            w.step()
    finally:
        if w.tmp:
            shutil.rmtree(w.tmp)
