"""C04 Persistence is faithful or it refuses: never a quietly different object."""
from __future__ import annotations
import collections, decimal, fractions, functools, operator, os, random, sys, types, warnings
import numpy as np
import scipy.sparse as sp
from contracts import archives as A, corpus, objects as O, zoo
from contracts import idproof as ID, rtproof as RT
from contracts.select import Only

LEVEL = "proof"
NOTE = ('the step of the round trip for every registered kind under contract, for all values of that kind; what is refused by name is under contract; kinds without a function of their own (objects restored by __reduce__/__getstate__) are proved up to the behaviour of their own methods; nesting by induction on paper; a bounded layer compares generated objects')
BUDGET = {"quick": 60, "thorough": 800}
TRUSTED = ['np.save and np.load (allow_pickle=False) of an array without objects and without fields give back type-less array of the same dtype, shape, order and contents', 'scipy.sparse.save_npz / load_npz restore format, dtype, shape and contents', 'json.loads(json.dumps(x)) gives back strings, ints, bools, None and finite floats', 'the constructors and __reduce__ / __setstate__ protocols of builtin, numpy and sklearn types behave as documented', 'setting the state of a bit generator continues its stream']
ASSUMPTIONS = ['the induction over the nesting of a value (the child of the state of v builds v) is an argument on paper: each unit discharges one step for all values of one kind', 'cycles are refused by the recursion limit or loaded by the cached node (bounded)', 'machine integers and floats are unbounded values']
EXPLANATION = ('proved: for every kind of value with a function of its own, and for objects, on every path on which saving and loading return, the loaded value is the saved one, of the same type, with the same attributes; saving does not modify it; unsupported kinds raise; bounded: generated objects under the strict structural comparator.')


def prove(P):
    RT.prove(Only(P, drop=r"is not refused|can be loaded|is accepted|is flat|refers to|written only|is a string|is refused|not refused"))
    ID.names(P)


def guards(G):
    RT.guards(G)

def roundtrip(obj, twin=None):
    """list of (kind, what); kind None: refused"""
    import skops.io as sio
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        same = twin is not None and O.diff_obj(obj, twin[0]) is None
        try:
            data = sio.dumps(obj)
        except Exception as ex:
            out = [(None, f"dumps raises {type(ex).__name__}: {str(ex)[:100]}")]
            data = None
        else:
            out = []
        if same:
            d = O.diff_obj(twin[0], obj)
            if d:
                out.append(("modified", f"dumping modified the object: {d}"))
        if data is None:
            return out
        try:
            U = sio.get_untrusted_types(data=data)
            got = sio.loads(data, trusted=U)
        except Exception as ex:
            return out + [(None, f"loading raises {type(ex).__name__}: {str(ex)[:100]}")]
        # the same memory layout is C05's matter
        d = O.diff_obj(obj, got, layout=False)
        if d:
            out.append(("differs", f"quietly different: {d}"))
    return out


# ------------------------------------------------------------------ more makers
class NewDefault:
    """attributes that __new__ sets are kept unless the state overwrites them"""
    def __new__(cls):
        o = super().__new__(cls)
        o.log = []
        return o


class GetattrMagic:
    """answers every attribute"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return n


class HasReduceEx:
    def __init__(self, v):
        self.v = v

    def __reduce_ex__(self, p):
        return HasReduceEx, (self.v,)


class StateSetter:
    """six part reduce"""
    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return object.__reduce_ex__(self, 4)[:2] + ({"v": self.v}, None, None, lambda o, s: o.__dict__.update(w=s["v"]))


class Counting(dict):
    def __missing__(self, k):
        return 0


class SubCsr(sp.csr_matrix):
    pass


class Weird(list):
    def __iter__(self):
        return iter(())


class Sentinel(list):
    def __init__(self, *a):
        super().__init__(*a)
        self.append(0)


class Scaled(dict):
    def __setitem__(self, k, v):
        super().__setitem__(k, v * 2)


class UpperSet(set):
    def __init__(self, xs=()):
        super().__init__(str(x).upper() for x in xs)


class Shown(dict):
    def __getitem__(self, k):
        return "hidden"

    def items(self):
        return [("a", 1)]

    def keys(self):
        return ["a"]

    def values(self):
        return [1]


class OShown(collections.OrderedDict):
    def __getitem__(self, k):
        return "hidden"

    def __setitem__(self, k, v):
        super().__setitem__(k, [v])


class TupIter(tuple):
    def __iter__(self):
        return iter((1, 2, 3))


class DScaled(collections.defaultdict):
    def __setitem__(self, k, v):
        super().__setitem__(k, v * 2)

    def __getitem__(self, k):
        return 3


def base(cls, b, *a):
    o = cls()
    {list: lambda: list.extend(o, a[0]), dict: lambda: [dict.__setitem__(o, k, v) for k, v in a[0].items()], set: lambda: set.update(o, a[0]),
     collections.OrderedDict: lambda: [collections.OrderedDict.__setitem__(o, k, v) for k, v in a[0].items()]}[b]()
    return o


class Cyc:
    pass


def cyclic(kind):
    if kind == "list":
        a = []
        a.append(a)
        return a
    if kind == "dict":
        a = {}
        a["a"] = a
        return a
    if kind == "obj":
        a = Cyc()
        a.me = a
        return a
    if kind == "array":
        a = np.empty(1, dtype=object)
        a[0] = a
        return a
    a = Cyc()
    a.t = (a, [a])
    return a


def more(rng):
    c = [lambda: {float("nan"): 1, float("nan"): 2, np.float64("nan"): 3}, lambda: {float("nan"), float("nan"), 1.0}, lambda: NewDefault(), lambda: O.attr(NewDefault(), "log", [1]), lambda: O.attr(GetattrMagic(), "a", 1), lambda: HasReduceEx([1, 2]), lambda: StateSetter(2), lambda: Counting(a=1),
         lambda: SubCsr(np.eye(2)), lambda: O.attr(sp.csr_matrix(np.eye(2)), "note", 1), lambda: O.attr(sp.coo_matrix(np.eye(2)), "maxprint", 5), lambda: (lambda m: (m.has_canonical_format, m.sum(), m)[2])(sp.csr_matrix(np.eye(3))), lambda: Weird([1, 2]), lambda: Sentinel([1]), lambda: base(Scaled, dict, {"a": 1, 2: [1]}), lambda: base(UpperSet, set, ["a", 1]), lambda: base(Shown, dict, {"b": 1, "c": [2]}),
         lambda: base(OShown, collections.OrderedDict, {"z": 1, "a": 2}), lambda: TupIter((5, 6)), lambda: base(DScaled, dict, {"a": 1}), lambda: cyclic(rng.choice(["list", "dict", "obj", "array", "tuple"])),
         lambda: np.bytes_(b"ab\0"), lambda: np.bytes_(b""), lambda: np.str_("x\0"), lambda: {np.bytes_(b"x"): 1}, lambda: [np.str_("a"), "a"], lambda: np.array([np.str_("a"), "a", np.float32(2)], dtype=object),
         lambda: np.matrix([[1.5, 2]]), lambda: O.attr(np.matrix([[1]]), "note", 3), lambda: np.ma.MaskedArray(np.matrix([[1]])), lambda: types.SimpleNamespace(a=1, b=[2]),
         lambda: np.ma.array(["a", 1], mask=[0, 1], dtype=object), lambda: (lambda m: (m.fill_value, m)[1])(np.ma.array(["a", 1], mask=[0, 1], dtype=object)),
         lambda: np.ma.array([1, 2], mask=[0, 1], fill_value=9, shrink=False, keep_mask=True), lambda: np.ma.masked, lambda: [np.ma.masked, np.ma.nomask],
         lambda: np.ma.array([1, 2, 3])[1:], lambda: O.attr(np.ma.array([1]), "note", 1), lambda: np.array([np.ma.masked, 1], dtype=object),
         lambda: {1: 1, 1.0 + 2**-40: 2, "1": 3}, lambda: {np.float32(1.5): 1, 1.25: 2}, lambda: {np.float64("nan"): 1}, lambda: {float("nan"): 1, "nan": 2}, lambda: {-0.0: 1}, lambda: {10**400: 1},
         lambda: {np.int8(1): 1, "1": 2}, lambda: {"\ud800": 1}, lambda: "\ud800", lambda: "a\ud83d\ude00", lambda: {"\ud83d\ude00": 1}, lambda: {"\ud83d\ude00": 1, "\U0001f600": 2}, lambda: slice("\ud83d\ude00"), lambda: {"\ud83d\ude00"}, lambda: np.str_("\ud83d\ude00"), lambda: operator.attrgetter("\ud83d\ude00"), lambda: ["\udfff", 1], lambda: {"a\ud83d": 1}, lambda: collections.OrderedDict({2: 1, "2": 2}),
         lambda: collections.defaultdict(None, {"a": 1}), lambda: collections.defaultdict(functools.partial(int, 3)), lambda: O.attr(collections.defaultdict(list), "x", 1) if False else collections.ChainMap({1: 2}),
         lambda: O.MyDefault(list, {"a": [1]}), lambda: O.attr(O.MyDict(a=1), "x", 2), lambda: functools.partial(functools.partial(int, "3"), base=5), lambda: functools.partial(O.Meth(2).get),
         lambda: functools.partial(lambda x: x, 1), lambda: functools.partialmethod(int), lambda: functools.lru_cache(O.plainfn), lambda: staticmethod(O.plainfn), lambda: classmethod(O.plainfn),
         lambda: iter([1, 2]), lambda: (x for x in [1]), lambda: zip([1], [2]), lambda: map(int, ["1"]), lambda: {"a": 1}.keys(), lambda: memoryview(b"a"), lambda: open(os.devnull),
         lambda: slice(1.5, "a", None), lambda: slice([1], None, None), lambda: slice(True, None, None), lambda: slice(np.int64(1), 2), lambda: range(10**30), lambda: NotImplemented, lambda: ...,
         lambda: np.array(1, dtype=object), lambda: np.array([1, [2, 3]], dtype=object), lambda: O.obj_array((0, 2), lambda: 1), lambda: O.obj_array((), lambda: [1, 2]), lambda: O.obj_array((), lambda: None),
         lambda: O.obj_array((2, 1), lambda: [1]), lambda: O.obj_array((1, 1), lambda: O.obj_array((1,), lambda: 2)), lambda: O.obj_array((2,), lambda: O.obj_array((2,), lambda: [1])),
         lambda: np.zeros(3, dtype=[("a", "i4", (2,)), ("b", [("c", "f4")])]), lambda: np.zeros((2, 2), dtype="V0"), lambda: np.array(["a" * 5], dtype="U5")[:0], lambda: np.zeros(2, "S0"),
         lambda: np.dtype("i4,f8"), lambda: np.dtype((np.void, 3)), lambda: np.dtype(("f8", (2,))), lambda: np.dtype([("a", "i4")], align=True), lambda: np.dtype("M8[25s]"), lambda: np.dtype(np.float32).newbyteorder(),
         lambda: np.random.RandomState(np.random.SFC64(3)), lambda: np.random.default_rng(np.random.SeedSequence(3).spawn(2)[1]), lambda: np.random.SeedSequence(3).spawn(1)[0],
         lambda: sp.csr_array(np.eye(2)).astype(bool), lambda: sp.bsr_array(np.ones((4, 4)), blocksize=(2, 2)), lambda: sp.dia_array((np.array([[1.0, 2, 3]]), [1]), shape=(3, 3)), lambda: sp.random(5, 5, 0.3, random_state=1, format="coo"),
         lambda: decimal.Decimal("sNaN1"), lambda: fractions.Fraction(1, 3), lambda: Ellipsis, lambda: ValueError("a", 1), lambda: O.attr(KeyError("k"), "x", 1), lambda: object(), lambda: type("Dyn", (), {})(),
         lambda: collections.UserDict(a=1), lambda: collections.UserList([1]), lambda: collections.UserString("a"), lambda: __import__("array").array("i", [1, 2]), lambda: __import__("re").compile("a+"),
         lambda: __import__("pandas").DataFrame({"a": [1, 2]}), lambda: __import__("pandas").Series([1.0, 2]), lambda: __import__("pandas").Timestamp("2020-01-01"), lambda: __import__("pandas").Index([1, 2]),
         lambda: __import__("scipy.interpolate", fromlist=["x"]).BSpline([0, 0, 1, 1], [1.0, 2], 1), lambda: __import__("scipy.spatial", fromlist=["x"]).KDTree([[1.0, 2]]),
         lambda: __import__("weakref").ref(O.Plain), lambda: __import__("threading").Lock(), lambda: np.poly1d([1, 2.5]), lambda: np.poly1d([1, 2]), lambda: np.vectorize(int), lambda: np.nditer(np.arange(2)),
         lambda: len, lambda: str.upper, lambda: "a".upper, lambda: [].append, lambda: {}.get, lambda: int.from_bytes, lambda: dict.fromkeys, lambda: np.ndarray.sum, lambda: np.arange(3).sum, lambda: np.random.rand,
         lambda: np.random.RandomState(1).rand, lambda: property(len), lambda: O.Colour, lambda: collections.namedtuple("Local", "a b")(1, 2), lambda: type(None), lambda: list[int], lambda: int | str]
    return c


def generator(seed):
    """(label, object) reproducible from the seed"""
    kind, i, s = seed
    rng = random.Random(f"{kind}{i}{s}")
    if kind == "exotic":
        return O.exotic_makers()[i](rng)
    if kind == "more":
        v = more(rng)[i]()
        # also as a part of other objects
        return v if s % 2 == 0 else rng.choice([lambda: [v, 1], lambda: {"a": v}, lambda: (v,), lambda: O.Plain(a=v), lambda: O.obj_array((2,), lambda: v), lambda: collections.OrderedDict(k=v)])()
    if kind == "corpus":
        return corpus.make(i)
    return O.any_value(rng, 3) if kind == "any" else O.supported(rng, 4)


def one(seed):
    try:
        obj = generator(seed)
        twin = generator(seed)
    except RecursionError:
        return None
    try:
        r = repr(obj)[:150]
    except Exception:
        r = type(obj).__name__
    return r, roundtrip(obj, (twin,))


def seeds(B):
    out = [("corpus", k, 0) for k in corpus.KEYS]
    out += [("exotic", i, s) for i in range(len(O.exotic_makers())) for s in range(B.n(12, 100))]
    out += [("more", i, s) for i in range(len(more(random.Random(0)))) for s in range(B.n(8, 60))]
    out += [("any", i, B.seed) for i in range(B.n(14000, 200000))]
    out += [("supported", i, B.seed) for i in range(B.n(3000, 40000))]
    return out


def bounded(B):
    B.rule("objects of a grammar over builtin, numpy, scipy, standard library and user-defined kinds (every kind on its own, inside containers, and nested at random): dumps raises, or loads (trusting "
           "what is reported) raises, or the loaded object is equal in types, structure and values under a strict comparison; the object dumped is compared with a twin made from the same seed")
    warnings.simplefilter("ignore")
    refused = total = 0
    for it, r in A.isolated(one, seeds(B), timeout=30, chunk=300, procs=8):
        if r[0] == "crash":
            B.fail("crash", f"{it}: {r[1]}", {"seed": it})
            continue
        if r[0] == "exc":
            B.fail("error", f"{it}: {str(r[1])[-400:]}", {"seed": it, "error": str(r[1])[-3000:]})
            continue
        if r[1] is None:
            continue
        rep, probs = r[1]
        total += 1
        B.case(it[0], str(it), f"{it}: {rep}")
        for kind, what in probs:
            if kind is None:
                refused += 1
            else:
                B.fail(kind, f"{it}: {rep}: {what}", {"seed": it, "object": rep})
        if B.time_left() < 5:
            break
    B.rule(f"{refused} of {total} objects were refused")
