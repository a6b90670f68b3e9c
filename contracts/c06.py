"""C06 The sharing structure of the object graph is preserved."""
from __future__ import annotations
import functools, gc, io, json, random, sys, warnings, zipfile
from collections import OrderedDict, defaultdict
import numpy as np
import scipy.sparse as sp
from contracts import archives as A, objects as O
from contracts import idproof as ID, rtproof as RT
from contracts.select import Only

LEVEL = "proof"
NOTE = ('memoize, get_state, get_tree, LoadContext, and for every node class that it is recorded under its id before its children and built once; that an id names one object while the object is alive is trusted (CPython); the bijection of objects and nodes follows on paper; bounded: identity partitions of generated graphs')
BUDGET = {"quick": 60, "thorough": 800}
TRUSTED = ['CPython: two objects that are alive have different ids', 'functools.singledispatch calls the registered function']
ASSUMPTIONS = ['that values are equal is C04/C05; here only identities are']
EXPLANATION = ('proved: every value whose state is taken is kept alive under its id until the dump is done, the state carries that id, each node is recorded under it, seen ids give the recorded node, each node builds once, array files are named by the id of their array and written once; bounded: generated graphs with sharing and temporaries.')


def prove(P):
    ID.prove(P)
    RT.prove(Only(P, keep=r"written only|file of the state|refers to|float object"))


def guards(G):
    ID.guards(G)

# ------------------------------------------------------------------ graphs
class Temp:
    """its state is made of temporaries"""
    def __init__(self, xs):
        self.xs = xs

    def __getstate__(self):
        return {"xs": list(self.xs), "n": [np.arange(3.0) + i for i in range(3)], "views": [x[:1] for x in self.xs if isinstance(x, (list, np.ndarray))]}

    def __setstate__(self, s):
        self.xs = s["xs"]


class Temp2:
    """all of its state is temporary"""
    def __init__(self, i):
        self.i = i

    def __getstate__(self):
        return {"v": [float(self.i), [self.i]], "n": str(self.i)}

    def __setstate__(self, s):
        self.i = s["v"][1][0]
        if s["v"] != [float(self.i), [self.i]] or s["n"] != str(self.i):
            raise ValueError(f"state of another object: {s}")


class Holder:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def leaf(rng):
    i = rng.randint(0, 10**6)
    return rng.choice([lambda: [i], lambda: {"v": i}, lambda: {i}, lambda: bytearray(str(i), "ascii"), lambda: np.arange(3) + i, lambda: np.full((2, 2), float(i)), lambda: sp.csr_matrix(np.eye(2) * i),
                       lambda: sp.coo_array(np.eye(2) * i), lambda: np.random.RandomState(i), lambda: np.random.default_rng(i), lambda: OrderedDict(a=i), lambda: defaultdict(list, {i: [i]}),
                       lambda: Holder(i=i), lambda: np.array([[i], "a"], dtype=object), lambda: np.ma.MaskedArray([i, 1], mask=[0, 1]), lambda: [], lambda: {}, lambda: np.arange(0), lambda: estimator(rng, i),
                       lambda: sp.csr_array(np.eye(2) * i), lambda: O.MyList([i]), lambda: bytearray()])()


def estimator(rng, i):
    from sklearn.linear_model import Ridge
    from sklearn.preprocessing import StandardScaler
    e = rng.choice([lambda: Ridge(i), lambda: StandardScaler()])()
    e.note_ = [i]
    return e


def graph(rng, size):
    """a DAG: later nodes refer to earlier ones"""
    pool = [leaf(rng) for _ in range(max(2, size // 3))]
    for _ in range(size):
        k = rng.choice([1, 2, 2, 3, 5])
        xs = [rng.choice(pool) for _ in range(k)]
        pool.append(rng.choice([lambda: list(xs), lambda: {f"k{i}": x for i, x in enumerate(xs)}, lambda: {i: x for i, x in enumerate(xs)}, lambda: tuple(xs), lambda: OrderedDict(enumerate(xs)), lambda: defaultdict(list, enumerate(xs)),
                                lambda: O.obj_array((k,), iter(xs).__next__), lambda: O.obj_array((1, k), iter(xs).__next__), lambda: Holder(a=xs[0], rest=xs), lambda: functools.partial(dict, *xs[:1], a=xs[-1]),
                                lambda: [leaf(rng)] + xs, lambda: O.MyDict(zip("abcdef", xs)), lambda: holder(xs), lambda: np.ma.MaskedArray(O.obj_array((k,), iter(xs).__next__), mask=[i % 2 == 0 for i in range(k)]) if False else list(xs),
                                lambda: O.Point(xs[0], xs[-1]), lambda: O.slots(O.Slots(), a=xs[0], b=xs)])())
    top = pool[-max(3, size // 4):]
    rng.shuffle(top)
    return top


def holder(xs):
    from sklearn.base import BaseEstimator
    from sklearn.preprocessing import FunctionTransformer
    e = FunctionTransformer()
    e.parts_ = xs
    e.kw_args = {"a": xs[0]} if xs else None
    return e


def churn(rng, n):
    """equal but distinct temporaries around shared ones"""
    shared = [leaf(rng) for _ in range(3)]
    out = []
    for i in range(n):
        out.append(rng.choice([lambda: O.obj_array((2, 2), lambda: [i % 3]), lambda: [[i % 2] for _ in range(3)], lambda: np.arange(3), lambda: {"a": [1], "b": [1]}, lambda: (shared[i % 3], [1]), lambda: np.arange(12.0).reshape(3, 4).T,
                               lambda: np.array([[1, 2], "x", shared[0]], dtype=object), lambda: np.ma.MaskedArray(np.arange(3), mask=[0, 1, 0]), lambda: sp.csr_matrix(np.eye(2)), lambda: bytearray(b"x"),
                               lambda: Temp([shared[i % 3], [i]]), lambda: np.random.RandomState(1), lambda: slice(0, 3), lambda: np.float64(3), lambda: b"xyz", lambda: np.dtype("f8"), lambda: Holder(x=[1])])())
    return out + [shared]


def arrays_of(x, seen, out):
    """distinct non-object arrays and sparse matrices reachable in x (id -> object), in the parts that are stored as they are"""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if (type(x) is np.ndarray and x.dtype != object) or isinstance(x, sp.spmatrix):
        out[id(x)] = x
        return
    for y in O.parts(x):
        arrays_of(y, seen, out)


def one(item):
    import skops.io as sio
    kind, seed, size = item
    rng = random.Random(f"{kind}{seed}{size}")
    probs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "graph":
            obj = graph(rng, size)
        elif kind == "churn":
            obj = churn(rng, size)
        elif kind == "flood":
            obj = [Temp2(i) for i in range(size)]
        elif kind == "any":
            shared = [O.any_value(rng, 2) for _ in range(2)]
            obj = [shared[0], {"a": shared[1], "b": [shared[0]]}, (shared[1], shared[0]), O.obj_array((2,), lambda: shared[0])]
        else:
            # the same array (or other stored file) many times
            a = rng.choice([lambda: np.arange(5), lambda: np.zeros((3, 2), order="F"), lambda: sp.csc_matrix(np.eye(3)), lambda: np.array(["a", "b"]), lambda: np.arange(10)[::2], lambda: np.array(3.0), lambda: np.zeros(0)])()
            b = a.copy()
            obj = [a, (a, {"x": a, "y": b}), O.obj_array((2,), lambda: a), Holder(a=a, b=[b]), functools.partial(dict, a=a, b=b)] * rng.choice([1, 2]) + [estimator(rng, 1)]
            obj[-1].a_ = a
            obj[-1].view_ = a[:] if not sp.issparse(a) and a.ndim else None
        try:
            data = sio.dumps(obj)
        except Exception as ex:
            return ("refused", type(ex).__name__)
        try:
            U = sio.get_untrusted_types(data=data)
            got = sio.loads(data, trusted=U)
        except Exception as ex:
            return ("done", [("load", f"loading raises {type(ex).__name__}: {str(ex)[:200]}")] if kind != "any" else [])
        if kind != "any":
            # temporaries made by __getstate__ are not part of the loaded object
            d = O.diff_obj(obj, got, layout=False)
            if d:
                probs.append(("contents", f"contents of the wrong object: {d}"))
        d = O.sharing_diff(obj, got)
        if d:
            probs.append(("sharing", d))
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            names = z.namelist()
        if len(names) != len(set(names)):
            probs.append(("members", f"members stored twice: {sorted(n for n in set(names) if names.count(n) > 1)[:4]}"))
        if kind in ("graph", "files"):
            out = {}
            arrays_of(obj, {}, out)
            n = len([x for x in names if x.endswith((".npy", ".npz"))])
            # some objects store arrays of their own (dtypes, generators, masked arrays, object wrappers), so this is a lower bound ...
            if kind == "files":
                want = len(out)
                if n != want:
                    probs.append(("once", f"{want} distinct arrays and sparse matrices, {n} members: {names[:12]}"))
            elif n < len({i for i, x in out.items()}):
                probs.append(("once", f"{len(out)} distinct arrays and sparse matrices, only {n} members"))
    return ("done", probs)


def history(item):
    """many dumps in one process with objects that come and go"""
    import skops.io as sio
    seed, n = item
    rng = random.Random(f"h{seed}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in range(n):
            obj = churn(rng, rng.choice([5, 30])) if rng.random() < 0.5 else graph(rng, rng.choice([4, 15]))
            if rng.random() < 0.3:
                gc.collect()
            try:
                data = sio.dumps(obj)
                got = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
            except Exception:
                continue
            d = O.diff_obj(obj, got, layout=False) or O.sharing_diff(obj, got)
            if d:
                return f"dump {i} of the history: {d}"
    return None


def bounded(B):
    B.rule("generated graphs (sharing among lists, dicts, sets, bytearrays, arrays, sparse matrices, generators, estimators and instances, inside tuples and object arrays), lists of thousands of "
           "temporaries, and histories of dumps: the identity partition of corresponding mutable parts is the same after loading, contents are equal, array members are stored once")
    warnings.simplefilter("ignore")
    items = [("graph", f"{B.seed}-{i}", s) for i in range(B.n(120, 2500)) for s in (3, 8, 20, 45)]
    items += [("churn", f"{B.seed}-{i}", s) for i in range(B.n(20, 300)) for s in (10, 100, 400)] + [("churn", "big", B.n(3000, 20000)), ("flood", f"{B.seed}", B.n(25000, 200000))]
    items += [("files", f"{B.seed}-{i}", 0) for i in range(B.n(150, 1500))] + [("any", f"{B.seed}-{i}", 0) for i in range(B.n(800, 12000))]
    refused = 0
    for it, r in A.isolated(one, items, timeout=60, chunk=40, procs=8):
        if r[0] in ("crash", "exc"):
            B.fail(r[0], f"{it}: {str(r[1])[-500:]}", {"item": it, "error": str(r[1])[-3000:]})
            continue
        if r[1][0] == "refused":
            refused += 1
            B.check(it[0] in ("any",), "refused", f"{it}: dumps raises {r[1][1]}", {"item": it})
            continue
        B.case(it[0], str(it), str(it))
        for k, what in r[1][1]:
            B.fail(k, f"{it}: {what}", {"item": it})
        if B.time_left() < 8:
            break
    for it, r in A.isolated(history, [(f"{B.seed}-{i}", B.n(30, 150)) for i in range(B.n(16, 60))], timeout=100, chunk=2, procs=8):
        if r[0] != "ok":
            if r[0] == "exc" or "no result" not in str(r[1]):
                B.fail(r[0], f"history {it}: {str(r[1])[-500:]}", {"item": it})
            continue
        B.case("history", str(it), str(it))
        B.check(r[1] is None, "history", lambda: f"history {it}: {r[1]}", {"item": it})
        if B.time_left() < 3:
            break
