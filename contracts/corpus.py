"""Objects whose archives are kept in data/corpus.json (written once by bin/freeze.py), and how they are made again."""
import collections, functools, operator
import numpy as np
import scipy.sparse as sp
import warnings


def _xy():
    X = np.arange(24.0).reshape(12, 2) % 7
    return X, np.array([0, 1, 1] * 4)


def _fit(e):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e.fit(*_xy())


def _cls():
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestRegressor
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler
    from sklearn.neighbors import KNeighborsClassifier
    d = {
        "logreg": lambda: LogisticRegression(C=2.0),
        "logreg_fit": lambda: _fit(LogisticRegression()),
        "sgd_fit": lambda: _fit(SGDClassifier(random_state=0)),
        "tree_fit": lambda: _fit(DecisionTreeClassifier(random_state=0)),
        "gbc_fit": lambda: _fit(GradientBoostingClassifier(n_estimators=2, random_state=0)),
        "knn_fit": lambda: _fit(KNeighborsClassifier(2)),
        "pipe": lambda: _fit(Pipeline([("b", FunctionTransformer(np.log1p)), ("a", StandardScaler()), ("c", LogisticRegression())])),
        "method": lambda: _fit(LogisticRegression()).predict,
    }
    try:
        from quantile_forest import RandomForestQuantileRegressor
        d["qf_fit"] = lambda: _fit(RandomForestQuantileRegressor(n_estimators=2, random_state=0))
    except ImportError:
        pass
    return d


_shared = lambda: (lambda a: [a, a, {"x": a}])([1, 2])
_sharr = lambda: (lambda a: [a, a])(np.arange(3.0))
OBJ = {
    "none": lambda: None, "true": lambda: True, "int": lambda: 12, "float": lambda: 1.5, "str": lambda: "text \u00e9",
    "dict": lambda: {"a": 1, 2: "b", 1.5: [None]}, "dict_np": lambda: {np.int64(3): 1, np.float32(0.5): 2},
    "odict": lambda: collections.OrderedDict([("z", 1), ("a", 2)]), "ddict": lambda: collections.defaultdict(list, {"a": [1]}),
    "list": lambda: [1, [2, [3]], "x"], "set": lambda: {1, 2, 3}, "tuple": lambda: (1, ("a",), 2.5),
    "ufunc": lambda: np.add, "type": lambda: np.float64, "type2": lambda: int,
    "partial": lambda: functools.partial(np.add, 1), "partial2": lambda: functools.partial(np.clip, a_min=0, a_max=1),
    "slice": lambda: slice(1, 5, 2), "bytes": lambda: b"ab\x00c", "bytearray": lambda: bytearray(b"xyz"),
    "attrgetter": lambda: operator.attrgetter("a.b", "c"), "itemgetter": lambda: operator.itemgetter(1, "k"),
    "arr": lambda: np.arange(6).reshape(2, 3), "arrF": lambda: np.asfortranarray(np.arange(6.0).reshape(2, 3)),
    "arrobj": lambda: np.array(["a", 1, None, 2.5], dtype=object), "scalar": lambda: np.float32(2.5),
    "marr": lambda: np.ma.MaskedArray([1, 2, 3], mask=[0, 1, 0]), "rstate": lambda: np.random.RandomState(3),
    "gen": lambda: np.random.default_rng(5), "genMT": lambda: np.random.Generator(np.random.MT19937(1)),
    "dtype": lambda: np.dtype("<f4"), "dtype2": lambda: np.dtype([("a", "i4"), ("b", "U3")]),
    "csr": lambda: sp.csr_matrix(np.eye(3)), "coo": lambda: sp.coo_array(np.eye(2)),
    "dicts": lambda: {"a": {1: {2.5: {None: 1}}}, "b": {True: 2}} if False else {"a": {1: {2.5: {"z": 1}}}}, "emptys": lambda: [[], {}, (), set(), "", b"", bytearray(), collections.OrderedDict()],
    "bigint": lambda: 2 ** 70, "floats": lambda: [0.1, -0.0, float("inf"), 1e-300], "slices": lambda: [slice(None), slice(-1, None, 3)], "bool_arr": lambda: np.array([[True, False]]),
    "str_arr": lambda: np.array(["a", "bcd"]), "dt_arr": lambda: np.array(["2020-01-01"], dtype="M8[D]"), "struct": lambda: np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]), "big_endian": lambda: np.arange(3, dtype=">i4"),
    "objnest": lambda: np.array([["a", None], [1, 2.5]], dtype=object), "ma2": lambda: np.ma.MaskedArray([[1.0, 2.0]], mask=[[True, False]]), "partial3": lambda: functools.partial(np.sum, axis=0), "func": lambda: np.sum,
    "genS": lambda: np.random.Generator(np.random.SFC64(4)), "genP": lambda: np.random.Generator(np.random.Philox(4)), "csc": lambda: sp.csc_matrix(np.eye(3)), "bsr": lambda: sp.bsr_matrix(np.eye(4)), "dia": lambda: sp.dia_matrix(np.eye(3)), "csr_arr": lambda: sp.csr_array(np.eye(3)),
    "sp_ufunc": lambda: __import__("scipy.special", fromlist=["x"]).expit, "npint": lambda: np.int8(3), "npbool": lambda: np.bool_(True), "types": lambda: [int, float, str, np.int32, list],
    "shared": _shared, "sharedarr": _sharr, "nested": lambda: {"a": [(1, {2}), {"b": np.ones(2)}], 3: (None, b"q")},
}
KEYS = list(OBJ) + sorted(_cls())


def make(key):
    return OBJ[key]() if key in OBJ else _cls()[key]()
