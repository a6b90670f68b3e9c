"""scikit-learn estimators with generated hyper-parameters and training data (shared by C07, C17, C04, C20)."""
from __future__ import annotations
import copy, functools, inspect, random, warnings
import numpy as np
import scipy.sparse as sp

SKIP = set()        # unsupported by skops (filled from the library's own list)


def classes():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from sklearn.utils import all_estimators
        from skops.io._sklearn import UNSUPPORTED_TYPES
        out = {n: c for n, c in all_estimators() if c not in UNSUPPORTED_TYPES}
    try:
        import quantile_forest as q
        for n in q.__all__:
            c = getattr(q, n)
            if inspect.isclass(c) and not inspect.isabstract(c) and hasattr(c, "fit") and not n.startswith("Base"):
                out["qf:" + n] = c
    except ImportError:
        pass
    return out


def simple(rng, kind=None):
    """a fast inner estimator"""
    from sklearn import linear_model as lm, tree, neighbors as nb, naive_bayes as bayes, dummy, ensemble as en, svm
    k = kind or rng.choice(["clf", "reg"])
    if k == "clf":
        return rng.choice([lambda: lm.LogisticRegression(max_iter=20), lambda: tree.DecisionTreeClassifier(max_depth=2, random_state=0), lambda: nb.KNeighborsClassifier(2),
                           lambda: bayes.GaussianNB(), lambda: lm.SGDClassifier(max_iter=5, random_state=1, loss="log_loss"), lambda: en.ExtraTreesClassifier(2, max_depth=2, random_state=0)])()
    return rng.choice([lambda: lm.LinearRegression(), lambda: tree.DecisionTreeRegressor(max_depth=2, random_state=0), lambda: nb.KNeighborsRegressor(2), lambda: lm.Ridge(),
                       lambda: lm.Lasso(0.01), lambda: en.RandomForestRegressor(2, max_depth=2, random_state=np.random.RandomState(1))])()


def transformer(rng, depth=1):
    from sklearn import preprocessing as pp, decomposition as dc, impute, feature_selection as fs, kernel_approximation as ka
    from sklearn.pipeline import Pipeline, FeatureUnion, make_pipeline
    from sklearn.compose import ColumnTransformer
    import scipy.special as ss
    c = [lambda: pp.StandardScaler(), lambda: pp.MinMaxScaler(), lambda: pp.PolynomialFeatures(2), lambda: pp.KBinsDiscretizer(2, encode=rng.choice(["ordinal", "onehot", "onehot-dense"])),
         lambda: pp.FunctionTransformer(rng.choice([np.sqrt, np.abs, ss.expit, np.tanh, None, functools.partial(np.add, 10), functools.partial(np.clip, a_min=0, a_max=1)])),
         lambda: dc.PCA(1), lambda: impute.SimpleImputer(), lambda: pp.QuantileTransformer(n_quantiles=4), lambda: fs.SelectKBest(k=1), lambda: pp.SplineTransformer(n_knots=3),
         lambda: pp.OneHotEncoder(handle_unknown="ignore"), lambda: "passthrough", lambda: ka.Nystroem(n_components=2, random_state=0), lambda: pp.OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=-1)]
    if depth > 0:
        c += [lambda: FeatureUnion([(f"t{i}", transformer(rng, depth - 1)) for i in range(rng.randint(1, 2))]),
              lambda: Pipeline([(f"s{i}", transformer(rng, depth - 1)) for i in range(rng.randint(1, 2))]),
              lambda: ColumnTransformer([(f"c{i}", transformer(rng, depth - 1), rng.choice([[0], [0, 1], slice(0, 2), slice(-3, -1, 2), [True, False, True, False], np.array([1, 2]), -1 if False else [-1]]))
                                         for i in range(rng.randint(1, 3))], remainder=rng.choice(["drop", "passthrough"]))] * 2
    return rng.choice(c)()


def composition(rng, depth=2):
    from sklearn import ensemble as en, model_selection as ms, multiclass as mc, multioutput as mo, calibration as cal, compose as cp
    from sklearn.pipeline import Pipeline
    s = lambda k: simple(rng, k)
    k = rng.choice(["clf", "reg"])
    c = [lambda: Pipeline([(f"t{i}", transformer(rng, depth)) for i in range(rng.randint(1, 2))] + [("m", s(k))]),
         lambda: Pipeline([("t", transformer(rng, depth))]), lambda: transformer(rng, depth),
         lambda: (en.StackingClassifier if k == "clf" else en.StackingRegressor)([("a", s(k)), ("b", s(k))], cv=2),
         lambda: (en.VotingClassifier if k == "clf" else en.VotingRegressor)([("a", s(k)), ("b", s(k)), ("c", "drop")]),
         lambda: (en.BaggingClassifier if k == "clf" else en.BaggingRegressor)(s(k), n_estimators=2, random_state=0),
         lambda: (en.AdaBoostClassifier if k == "clf" else en.AdaBoostRegressor)(n_estimators=2, random_state=0),
         lambda: ms.GridSearchCV(Pipeline([("t", transformer(rng, 0)), ("m", s(k))]), {"m": [s(k), s(k)]}, cv=2),
         lambda: ms.GridSearchCV(s("reg" if k == "reg" else k), [{}], cv=rng.choice([2, ms.KFold(2), ms.ShuffleSplit(2, random_state=0)]), scoring=rng.choice([None, "accuracy" if k == "clf" else "r2"])),
         lambda: ms.RandomizedSearchCV(__import__("sklearn.linear_model", fromlist=["x"]).Ridge(), {"alpha": [1, 2, 3]}, n_iter=2, cv=2, random_state=0),
         lambda: mc.OneVsRestClassifier(s("clf")), lambda: mc.OneVsOneClassifier(s("clf")), lambda: mc.OutputCodeClassifier(s("clf"), random_state=0),
         lambda: mo.MultiOutputRegressor(s("reg")), lambda: mo.RegressorChain(s("reg")), lambda: mo.MultiOutputClassifier(s("clf")), lambda: mo.ClassifierChain(s("clf")),
         lambda: cal.CalibratedClassifierCV(s("clf"), cv=2, method=rng.choice(["sigmoid", "isotonic"])),
         lambda: cp.TransformedTargetRegressor(s("reg"), func=np.log1p, inverse_func=np.expm1, check_inverse=False),
         lambda: cp.TransformedTargetRegressor(s("reg"), transformer=__import__("sklearn.preprocessing", fromlist=["x"]).StandardScaler())]
    return rng.choice(c)()


def required(name, rng):
    s = lambda k=None: simple(rng, k)
    if name in ("ColumnTransformer",):
        return {"transformers": [("a", transformer(rng, 0), [0, 1]), ("b", transformer(rng, 0), slice(1, 3))]}
    if name == "FeatureUnion":
        return {"transformer_list": [("a", transformer(rng, 0)), ("b", transformer(rng, 0))]}
    if name == "Pipeline":
        return {"steps": [("a", transformer(rng, 0)), ("b", s())]}
    if name == "GridSearchCV":
        return {"estimator": s("clf"), "param_grid": {}, "cv": 2}
    if name == "RandomizedSearchCV":
        return {"estimator": __import__("sklearn.linear_model", fromlist=["x"]).LogisticRegression(max_iter=10), "param_distributions": {"C": [1.0, 2.0, 3.0]}, "n_iter": 2, "cv": 2, "random_state": 0}
    if name in ("HalvingGridSearchCV",):
        return {"estimator": __import__("sklearn.linear_model", fromlist=["x"]).LogisticRegression(max_iter=10), "param_grid": {"C": [1.0, 2.0]}, "cv": 2, "random_state": 0}
    if name in ("HalvingRandomSearchCV",):
        return {"estimator": __import__("sklearn.linear_model", fromlist=["x"]).LogisticRegression(max_iter=10), "param_distributions": {"C": [1.0, 2.0]}, "cv": 2, "random_state": 0}
    if name in ("ClassifierChain", "SelfTrainingClassifier"):
        return {"base_estimator": __import__("sklearn.naive_bayes", fromlist=["x"]).GaussianNB()}
    if name == "RegressorChain":
        return {"base_estimator": s("reg")}
    if name in ("StackingClassifier", "VotingClassifier"):
        return {"estimators": [("a", s("clf")), ("b", s("clf"))]}
    if name in ("StackingRegressor", "VotingRegressor"):
        return {"estimators": [("a", s("reg")), ("b", s("reg"))]}
    if name == "MultiOutputRegressor":
        return {"estimator": s("reg")}
    if name in ("RFE", "RFECV", "SelectFromModel", "SequentialFeatureSelector"):
        from sklearn.linear_model import LogisticRegression
        return {"estimator": LogisticRegression(max_iter=10)}
    if name in ("FixedThresholdClassifier", "TunedThresholdClassifierCV", "OneVsOneClassifier", "OneVsRestClassifier", "OutputCodeClassifier", "MultiOutputClassifier"):
        return {"estimator": s("clf")}
    if name == "SparseCoder":
        return {"dictionary": np.random.RandomState(0).randint(-2, 3, size=(5, 4)).astype(float)}
    return {}


CAPS = {"n_estimators": [1, 2, 3], "max_iter": [3, 7, 250], "n_iter": [2], "max_leaf_nodes": [2, 3, None], "n_components": [1, 2], "n_clusters": [2], "n_init": [1, 2], "n_neighbors": [1, 2, 3],
        "max_n_alphas": [3], "n_alphas": [3, 5], "cv": [2], "n_bins": [2, 3], "max_depth": [1, 2, None], "n_restarts_optimizer": [0, 1], "degree": [1, 2], "max_features": [1, 2, None, 0.5],
        "patch_size": [(2, 2)], "skewedness": [20.0], "n_folds": [2], "batch_size": [5, 10], "hidden_layer_sizes": [(3,), (2, 2)], "n_quantiles": [3, 5], "n_knots": [3], "gen_min_span_tree": [False],
        "max_samples": [0.5, None], "n_best": [1], "n_tests": [1], "min_samples": [2, 3], "min_cluster_size": [2], "n_features": [4, 8], "alphas": [[1.0, 2.0]], "n_permutations": [2], "n_subsamples": [5]}
DROP = {"n_jobs", "verbose", "memory", "verbose_feature_names_out", "copy", "copy_X", "copy_x", "validate", "max_subpopulation", "cache_size", "pre_dispatch", "error_score", "enable_metadata_routing", "store_cv_values", "store_cv_results", "eigen_solver"}


def values(rng, cons, name):
    """candidate values of a parameter, from its constraints"""
    from sklearn.utils import _param_validation as pv
    from numbers import Integral, Real
    out = []
    for c in cons if isinstance(cons, list) else []:
        if isinstance(c, pv.Interval):
            lo, hi = c.left, c.right
            try:
                ok = lambda v: v in c
                integral = c.type in (Integral, int) or c.type is getattr(pv, "RealNotInt", 0) and False
                cand = [0, 1, 2, 3, 5] if integral else [0.0, 0.01, 0.25, 0.5, 0.9, 1.0, 2.0, 1e-3]
                out += [v for v in cand if ok(v if not integral else int(v))]
            except Exception:
                pass
        elif isinstance(c, pv.StrOptions):
            out += sorted(set(c.options) - set(c.deprecated))
        elif isinstance(c, pv.Options):
            out += [o for o in sorted(c.options, key=str) if not isinstance(o, float) or o == o]
        elif c == "boolean":
            out += [True, False]
        elif c is None:
            out.append(None)
        elif c == "random_state":
            out += [0, np.random.RandomState(5)]
    return out


CALLABLES = {("FunctionTransformer", "func"): [np.sqrt, np.add.reduce if False else np.abs, functools.partial(np.clip, a_min=0, a_max=2)], ("FastICA", "fun"): ["logcosh", "exp", "cube"],
             ("SelectKBest", "score_func"): "fs", ("SelectPercentile", "score_func"): "fs", ("SelectFpr", "score_func"): "fs", ("SelectFdr", "score_func"): "fs", ("SelectFwe", "score_func"): "fs",
             ("GenericUnivariateSelect", "score_func"): "fs", ("GaussianProcessRegressor", "kernel"): "gp", ("GaussianProcessClassifier", "kernel"): "gp", ("KernelDensity", "metric"): ["euclidean", "manhattan", "chebyshev"],
             ("NearestNeighbors", "metric"): ["minkowski", "euclidean", "manhattan", "chebyshev", "hamming"], ("KNeighborsClassifier", "metric"): ["minkowski", "manhattan", "chebyshev", "canberra"],
             ("KNeighborsRegressor", "metric"): ["minkowski", "manhattan", "chebyshev"], ("KNeighborsClassifier", "weights"): ["uniform", "distance"]}


def satisfies(cons, v):
    from sklearn.utils import _param_validation as pv
    if cons == "no_validation":
        return True
    try:
        return any(pv.make_constraint(c).is_satisfied_by(v) for c in cons)
    except Exception:
        return False


def hyper(rng, name, cls, extra=None):
    """an unfitted instance with generated valid hyper-parameters (None when construction is impossible)"""
    base = required(name, rng)
    sig = inspect.signature(cls.__init__).parameters
    cons = getattr(cls, "_parameter_constraints", {})
    kw = dict(base)
    for p in sig:
        if p in CAPS and p not in kw and p in cons and rng.random() < 0.9:
            ok = [v for v in CAPS[p] if satisfies(cons[p], v)]
            if ok:
                kw[p] = rng.choice(ok)
        if p == "random_state":
            kw[p] = rng.choice([0, 3, np.random.RandomState(4)])
    n = rng.choice([0, 1, 1, 2, 3, 5]) if extra is None else extra
    free = [p for p in sig if p in cons and p not in DROP and p not in base and p not in ("random_state",) and p not in CAPS]
    rng.shuffle(free)
    for p in free[:n]:
        v = values(rng, cons[p], p)
        cl = CALLABLES.get((name, p))
        if cl == "fs":
            from sklearn import feature_selection as fs
            v = [fs.f_classif, fs.f_regression, fs.mutual_info_classif, fs.chi2]
        elif cl == "gp":
            from sklearn.gaussian_process import kernels as K
            v = [None, K.RBF(2.0), K.ConstantKernel(2.0) * K.RBF() + K.WhiteKernel(0.1), K.Matern(nu=1.5), K.RationalQuadratic(), K.DotProduct() ** 2, K.ExpSineSquared()]
        elif cl:
            v = cl
        if v:
            kw[p] = rng.choice(v)
    try:
        return cls(**kw)
    except Exception:
        return None


def data(rng, i=None):
    """generated training sets: list of (label, X, y, X of the evaluation)"""
    R = np.random.RandomState(rng.randint(0, 10**6))
    n, p = 30, 4
    X = R.randn(n, p)
    X[:, 1] = R.randint(0, 4, n)
    T = R.randn(9, p)
    T[:, 1] = R.randint(0, 4, 9)
    yb, ym, yr = np.arange(n) % 2, np.arange(n) % 3, X @ R.randn(p) + 0.1 * R.randn(n)
    ys = np.array(["no", "yes", "maybe"])[ym]
    f = rng.choice(["float", "float", "f32", "pos", "sparse", "int", "F", "csc"])
    tx = {"float": lambda a: a, "f32": lambda a: a.astype("f4"), "pos": np.abs, "sparse": sp.csr_matrix, "csc": sp.csc_matrix, "int": lambda a: np.abs(a * 3).astype(int), "F": np.asfortranarray}[f]
    y = rng.choice([("bin", yb), ("multi", ym), ("str", ys), ("reg", yr), ("obj", ys.astype(object)), ("bool", yb == 1), ("pos", np.abs(yr) + 1)])
    return f, y[0], tx(X), y[1], tx(T)


def special(cls, name, rng):
    """training sets of estimators with inputs of another kind"""
    docs = ["this is the first document", "this document is the second", "and the third one \u00e9", "is this the first document"]
    if name in ("CountVectorizer", "TfidfVectorizer", "HashingVectorizer"):
        return docs, None, docs[:2]
    if name == "DictVectorizer":
        d = [{"a": 1, "b": 2.5}, {"a": 3, "c": "x"}]
        return d, None, d
    if name == "FeatureHasher":
        d = [{"a": 1, "b": 2.5}, {"a": 3, "c": 2}]
        return d, None, d
    if name in ("LabelEncoder", "LabelBinarizer"):
        y = rng.choice([np.array([3, 1, 2, 1]), np.array(["b", "a", "b"]), ["x", "y"], [True, False]])
        return y, None, y
    if name == "MultiLabelBinarizer":
        y = rng.choice([[(1, 2), (3,)], [["a"], ["b", "c"]]])
        return y, None, y
    if name == "PatchExtractor":
        im = np.arange(2 * 6 * 6, dtype=float).reshape(2, 6, 6)
        return im, None, im
    if name == "IsotonicRegression":
        return np.arange(10.0), np.arange(10.0) ** 2 + np.arange(10) % 3, np.array([0.5, 3.3, 20.0])
    if name == "KernelCenterer":
        return np.eye(5) + 1, None, np.eye(5)
    if name in ("MultiTaskElasticNet", "MultiTaskElasticNetCV", "MultiTaskLasso", "MultiTaskLassoCV", "MultiOutputRegressor", "RegressorChain", "CCA", "PLSCanonical", "PLSRegression", "PLSSVD"):
        R = np.random.RandomState(rng.randint(0, 999))
        X = R.randn(20, 4)
        return X, R.randn(20, 2), X[:5]
    if name in ("MultiOutputClassifier", "ClassifierChain"):
        R = np.random.RandomState(rng.randint(0, 999))
        X = R.randn(20, 4)
        return X, np.c_[np.arange(20) % 2, np.arange(20) // 3 % 2], X[:5]
    return None


def multi(rng):
    R = np.random.RandomState(rng.randint(0, 999))
    X = R.randn(24, 4)
    return ("float", rng.choice(["mr", "ml"]), X, None, X[:7] + 0.1)


def fitted(rng, e, name=""):
    """(label, fitted estimator, evaluation X) or None when no generated training set fits it"""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        s = special(type(e), name or type(e).__name__, rng)
        if s:
            X, y, T = s
            try:
                e.fit(X, y) if y is not None else e.fit(X)
                return "special", e, T
            except Exception:
                return None
        for k in range(5):
            f, l, X, y, T = data(rng)
            if rng.random() < 0.12:
                f, l, X, _, T = multi(rng)
                y = np.c_[X[:, 0] * 2, X[:, 1]] if l == "mr" else np.c_[X[:, 0] > 0, X[:, 1] > 0].astype(int)
            if "affinity" in getattr(e, "__dict__", {}) and e.affinity == "precomputed" or getattr(e, "metric", "") == "precomputed" or getattr(e, "kernel", "") == "precomputed":
                X = np.abs(X.toarray() if sp.issparse(X) else X)
                X = X @ X.T
                T = X
            try:
                g = copy.deepcopy(e)
                g.fit(X, y)
                return f"{f}/{l}", g, T
            except Exception:
                continue
    return None
