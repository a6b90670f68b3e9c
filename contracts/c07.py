"""C07 A reloaded scikit-learn estimator is the same model."""
from __future__ import annotations
import copy, os, pickle, random, sys, traceback, warnings
import numpy as np
import scipy.sparse as sp
from contracts import archives as A, objects as O, zoo
from contracts import rtproof as RT
from contracts.select import Only

LEVEL = "other"
NOTE = ("the steps of the round trip that estimators consist of are under contract (objects, attributes, trees, losses, quantile forests, arrays, sparse matrices, containers); that sklearn's own methods give bit-identical outputs for equal attributes, and that the attributes of each class are of these kinds, is bounded (all estimators, generated parameters, data and compositions)")
BUDGET = {"quick": 100, "thorough": 840}
TRUSTED = ['np.save and np.load (allow_pickle=False) of an array without objects and without fields give back type-less array of the same dtype, shape, order and contents', 'scipy.sparse.save_npz / load_npz restore format, dtype, shape and contents', 'json.loads(json.dumps(x)) gives back strings, ints, bools, None and finite floats', 'the constructors and __reduce__ / __setstate__ protocols of builtin, numpy and sklearn types behave as documented', 'setting the state of a bit generator continues its stream']
ASSUMPTIONS = ['the induction over the nesting of a value (the child of the state of v builds v) is an argument on paper: each unit discharges one step for all values of one kind', 'cycles are refused by the recursion limit or loaded by the cached node (bounded)', 'machine integers and floats are unbounded values', 'an estimator with equal attributes of the same layout gives the same outputs (replayed in the bounded layer)']
EXPLANATION = ('proved: get_attrs/set_attrs, objects, Tree, the loss functions, QuantileForest, numpy and scipy values restore what was saved, on every path; bounded: every estimator class and generated compositions fitted on generated data, bitwise comparison of attributes and outputs, trusted without list.')


def prove(P):
    Q = Only(P, drop=r"is flat|refers to|written only|is a string|is refused")
    RT.reduced_(Q)
    RT.numpy_(Q)
    RT.builtins_(Q)
    RT.containers(Q)


def guards(G):
    RT.guards(G)

METHODS = ("predict", "predict_proba", "decision_function", "transform", "score_samples", "predict_log_proba", "predict_quantiles", "apply", "inverse_transform", "kneighbors")


def outputs(e, T):
    """name -> output of every inference method, called one after the other"""
    out = {}
    for m in METHODS:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                f = getattr(e, m)
            except Exception:
                continue
            st = np.random.get_state()
            np.random.seed(7)
            try:
                x = copy.deepcopy(T)
                if m == "inverse_transform":
                    x = e.transform(x)
                out[m] = ("ok", f(x))
            except Exception as ex:
                out[m] = ("exc", type(ex).__name__)
            finally:
                np.random.set_state(st)
    return out


def close(a, b):
    """equal up to rounding (results of models whose arrays lie differently in memory)"""
    try:
        if a[0] != "ok" or b[0] != "ok":
            return a == b
        x, y = (v[1].toarray() if sp.issparse(v[1]) else np.asarray(v[1]) for v in (a, b))
        return x.shape == y.shape and (np.allclose(x, y, equal_nan=True, atol=1e-6) if x.dtype.kind in "fc" else bool(np.all(x == y)))
    except Exception:
        return O.diff_obj(a, b, layout=False) is None


def params_of(e):
    return e.get_params(deep=False)


def trusted_parts(cache={}):
    """the types that need no vouching, enumerated from the libraries: estimators, scalar types, ufuncs, plain builtins"""
    if not cache:
        import scipy.special as ss
        from sklearn.utils import all_estimators
        q = lambda t: f"{t.__module__}.{t.__qualname__}"
        cache["names"] = {q(c) for _, c in all_estimators() if c.__module__.startswith("sklearn.")} | {q(t) for t in set(np.sctypeDict.values())} | \
            {f"builtins.{t}" for t in ("int", "float", "str", "bool", "list", "set", "tuple", "dict", "map", "slice", "bytes", "bytearray")} | \
            {f"{m}.{n}" for m, M in (("numpy", np), ("scipy.special", ss), ("scipy.special._ufuncs", ss), ("numpy.core._multiarray_umath", np)) for n, f in vars(M).items() if isinstance(f, np.ufunc)} | \
            {"numpy.ndarray", "numpy.ma.MaskedArray", "numpy.random.mtrand.RandomState", "numpy.random._generator.Generator", "collections.OrderedDict"}
    return cache["names"]


def audited(U):
    """reported types that are trusted by default"""
    return [u for u in U if u in trusted_parts()]


def one(item):
    kind, name, seed, fit = item
    import skops.io as sio
    rng = random.Random(seed)
    warnings.simplefilter("ignore")
    e = zoo.composition(rng) if kind == "comp" else zoo.hyper(rng, name, zoo.classes()[name], 0 if seed.endswith("-0") else None)
    if e is None or isinstance(e, str):
        return ("skip", "no instance")
    T = None
    lab = "unfitted"
    if fit:
        r = zoo.fitted(rng, e, name)
        if r is None:
            return ("skip", "no fit")
        lab, e, T = r
    probs = []
    what = f"{kind} {type(e).__name__} ({lab}, seed {seed!r}) {str(e)[:120]!r}"
    try:
        before = copy.deepcopy(e)
        if O.diff_obj(e, before) is not None:
            before = None
    except Exception:
        before = None
    try:
        data = sio.dumps(e)
    except Exception as ex:
        # objects of foreign kinds inside (callables, say) may be refused, the estimators themselves may not
        return ("refused", what + f": {type(ex).__name__}: {str(ex)[:200]}", [])
    if before is not None:
        d = O.diff_obj(before, e, layout=False)
        if d:
            probs.append(("modified", f"{what}: dumping changed the estimator: {d}"))
    U = sio.get_untrusted_types(data=data)
    bad = audited(U)
    if bad:
        probs.append(("trusted", f"{what}: default-trusted types are reported: {bad}"))
    try:
        got = sio.loads(data, trusted=U)
    except Exception as ex:
        return ("done", what, probs + [("load", f"{what}: loading raises {type(ex).__name__}: {str(ex)[:300]}")], U)
    d = O.diff_obj(e, got)
    if d:
        probs.append(("state", f"{what}: {d}"))
    d = O.diff_obj(params_of(e), params_of(got))
    if d:
        probs.append(("params", f"{what}: parameter {d}"))
    n = 0
    if fit:
        twin = copy.deepcopy(e)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pick = pickle.loads(pickle.dumps(e))
        except Exception:
            pick = twin
        o1, og, o2, o3 = outputs(e, T), outputs(got, T), outputs(twin, T), outputs(pick, T)
        for m in o1:
            if m not in o2 or not close(o1[m], o2[m]):
                continue        # not a function of the model and the input
            n += 1
            # the last bits of a result can depend on where and how arrays lie in memory, which is no part of the model:
            # the outputs of exact copies of it are as good as its own
            d = O.diff_obj(o1[m], og.get(m), layout=False)
            if d and m in og and close(o1[m], og[m]) and any(O.diff_obj(o.get(m), og[m], layout=False) is None for o in (o2, o3)):
                d = None
            if d:
                probs.append(("output", f"{what}: {m}: {d}"))
    return ("done", what, probs, U, n)


def items(B):
    names = list(zoo.classes())
    out = []
    reps = B.n(6, 60)
    for r in range(reps):
        for n in names:
            out.append(("class", n, f"{n}-{B.seed}-{r}", True))
    out += [("class", n, f"{n}-u-{r}", False) for n in names for r in range(B.n(1, 6))]
    out += [("comp", "", f"comp-{r}", True) for r in range(B.n(250, 6000))]
    out += [("comp", "", f"compu-{r}", False) for r in range(B.n(40, 500))]
    return out


def setup():
    try:
        from threadpoolctl import threadpool_limits
        threadpool_limits(1)
    except Exception:
        pass


def bounded(B):
    B.rule("every estimator class with generated hyper-parameters (from its own parameter constraints) and generated compositions, unfitted and fitted on generated data (dense, sparse, "
           "float32, integer, Fortran order; binary, multi-class, string, boolean, continuous, multi-output targets): state, parameters and outputs of all inference methods of the loaded one "
           "are compared with the original's, bit by bit")
    warnings.simplefilter("ignore")
    zoo.classes()
    trusted_parts()
    import sklearn, scipy, pandas
    skipped, fitted = {}, set()
    for it, r in A.isolated(one, items(B), timeout=60, chunk=24, procs=8, setup=setup):
        if r[0] == "crash":
            if "no result" not in str(r[1]):
                B.fail("crash", f"{it}: {r[1]}", {"item": it})
            continue
        if r[0] == "exc":
            B.fail("error", f"{it}: {str(r[1])[-400:]}", {"item": it, "error": str(r[1])[-3000:]})
            continue
        r = r[1]
        if r[0] == "skip":
            skipped[r[1]] = skipped.get(r[1], 0) + 1
            continue
        B.case(it[0], f"{it[1]}{it[2]}", r[1])
        if r[0] == "refused":
            B.fail("refused", r[1], {"item": it})
            continue
        if it[3] and it[0] == "class":
            fitted.add(it[1])
        for key, what in r[2]:
            B.fail(key, what, {"item": it, "untrusted": r[3]})
        if B.time_left() < 5:
            break
    B.check(len(fitted) > 180 or B.time_left() < 5, "coverage", f"only {len(fitted)} estimator classes could be fitted", {"fitted": sorted(fitted)})
