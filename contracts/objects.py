"""Strict structural comparison of Python objects and generators of objects (shared by the persistence checks)."""
from __future__ import annotations
import collections, datetime, decimal, enum, fractions, functools, io, operator, pathlib, random, struct, types, uuid, zipfile, json
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
import numpy as np
import scipy.sparse as sp

ATOMS = (str, int, bool, bytes, bytearray, type(None), range, type(Ellipsis), type(NotImplemented))
GLOBALS = (type, types.FunctionType, types.BuiltinFunctionType, np.ufunc, types.ModuleType, types.MethodDescriptorType, types.WrapperDescriptorType,
           types.ClassMethodDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, type(np.linalg.norm))


def is_immutable_atom(x):
    return isinstance(x, (str, int, float, complex, bytes, type(None), np.generic, np.dtype) + GLOBALS)


def plain(x):
    """the items of a container, whatever a subclass says"""
    if isinstance(x, OrderedDict):
        return OrderedDict.items(x)
    if isinstance(x, dict):
        return dict.items(x)
    for t in (list, tuple, set, frozenset, deque):
        if isinstance(x, t):
            return t.__iter__(x)
    return x


class Diff:
    def __init__(self, layout=True):
        self.seen = set()
        self.keep = []
        self.layout = layout

    def __call__(self, a, b, p="obj"):
        if type(a) is not type(b) and not (isinstance(a, np.dtype) and isinstance(b, np.dtype)):
            return f"{p}: type {type(a).__module__}.{type(a).__qualname__} became {type(b).__module__}.{type(b).__qualname__} ({a!r:.80} -> {b!r:.80})"
        if isinstance(a, GLOBALS):
            if a is b or (isinstance(a, types.BuiltinFunctionType) and a == b):
                return None
            return f"{p}: {a!r:.100} became {b!r:.100}"
        k = (id(a), id(b))
        if k in self.seen:
            return None
        self.seen.add(k)
        self.keep.append((a, b))
        return self.body(a, b, p)

    def body(self, a, b, p):
        t = type(a)
        if isinstance(a, np.generic):
            return self.scalar(a, b, p)
        if isinstance(a, float):
            ok = struct.pack("d", a) == struct.pack("d", b) or (a != a and b != b)
            return (None if ok else f"{p}: {a!r} became {b!r}") or self.extra(a, b, p)
        if isinstance(a, complex):
            return self(a.real, b.real, p + ".real") or self(a.imag, b.imag, p + ".imag")
        if isinstance(a, enum.Enum):
            return None if a is b else f"{p}: {a!r} became {b!r}"
        if isinstance(a, ATOMS):
            return (None if a == b else f"{p}: {a!r:.100} became {b!r:.100}") or self.extra(a, b, p)
        if isinstance(a, np.ma.MaskedArray):
            return self.masked(a, b, p)
        if isinstance(a, np.ndarray):
            return self.array(a, b, p)
        if isinstance(a, np.dtype):
            return None if not dtype_diff(a, b) else f"{p}: dtype {a!r} became {b!r}"
        if sp.issparse(a):
            return self.sparse(a, b, p)
        if isinstance(a, (list, tuple, deque)):
            if len(a) != len(b):
                return f"{p}: length {len(a)} became {len(b)} ({a!r:.80} -> {b!r:.80})"
            if isinstance(a, deque) and a.maxlen != b.maxlen:
                return f"{p}: maxlen {a.maxlen} became {b.maxlen}"
            for i, (x, y) in enumerate(zip(plain(a), plain(b))):
                d = self(x, y, f"{p}[{i}]")
                if d:
                    return d
            return self.extra(a, b, p)
        if isinstance(a, dict):
            if len(a) != len(b):
                return f"{p}: {len(a)} entries became {len(b)} ({a!r:.80} -> {b!r:.80})"
            for (k1, v1), (k2, v2) in zip(plain(a), plain(b)):
                d = self(k1, k2, f"{p}.key({k1!r:.40})") or self(v1, v2, f"{p}[{k1!r:.40}]")
                if d:
                    return d
            if isinstance(a, defaultdict):
                d = self(a.default_factory, b.default_factory, p + ".default_factory")
                if d:
                    return d
            return self.extra(a, b, p)
        if isinstance(a, (set, frozenset)):
            if len(a) != len(b):
                return f"{p}: {len(a)} elements became {len(b)}"
            rest = list(plain(b))
            for x in plain(a):
                for i, y in enumerate(rest):
                    if type(x) is type(y) and Diff(self.layout)(x, y) is None:
                        del rest[i]
                        break
                else:
                    return f"{p}: element {x!r:.80} lost"
            return self.extra(a, b, p)
        if isinstance(a, slice):
            return self((a.start, a.stop, a.step), (b.start, b.stop, b.step), p)
        if isinstance(a, functools.partial):
            return self(a.func, b.func, p + ".func") or self(a.args, b.args, p + ".args") or self(a.keywords, b.keywords, p + ".keywords") or self.extra(a, b, p)
        if isinstance(a, types.MethodType):
            return (None if a.__func__ is b.__func__ else f"{p}: method {a.__func__} became {b.__func__}") or self(a.__self__, b.__self__, p + ".__self__")
        if isinstance(a, pathlib.PurePath):
            return None if a == b and str(a) == str(b) else f"{p}: {a!r} became {b!r}"      # the slots are caches
        if isinstance(a, np.random.RandomState):
            return self(a.get_state(legacy=False), b.get_state(legacy=False), p + ".state")
        if isinstance(a, np.random.Generator):
            return self(a.bit_generator, b.bit_generator, p + ".bit_generator")
        if isinstance(a, np.random.BitGenerator):
            return self(a.state, b.state, p + ".state") or self(a.seed_seq, b.seed_seq, p + ".seed_seq")
        if isinstance(a, np.random.SeedSequence):
            sa, sb = a.state, b.state
            for d in (sa, sb):
                if "spawn_key" in d:
                    d["spawn_key"] = tuple(d["spawn_key"])
                if isinstance(d.get("entropy"), (list, tuple, np.ndarray)):
                    d["entropy"] = [int(x) for x in d["entropy"]]
            return self(sa, sb, p + ".state")
        return self.generic(a, b, p)

    def extra(self, a, b, p):
        """instance dictionary and slots of a (subclass of a) builtin"""
        d = getattr(a, "__dict__", None)
        if d is not None and type(d) is dict:
            e = getattr(b, "__dict__", None)
            r = self(d, e, p + ".__dict__") if not isinstance(a, type) else None
            if r:
                return r
        for c in type(a).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for s in (sl,) if isinstance(sl, str) else sl:
                if s in ("__dict__", "__weakref__"):
                    continue
                n = f"_{c.__name__.lstrip('_')}{s}" if s.startswith("__") and not s.endswith("__") else s
                x, y = getattr(a, n, Diff), getattr(b, n, Diff)
                if (x is Diff) != (y is Diff):
                    return f"{p}.{n}: presence differs"
                if x is not Diff:
                    r = self(x, y, f"{p}.{n}")
                    if r:
                        return r
        return None

    def scalar(self, a, b, p):
        if dtype_diff(a.dtype, b.dtype):
            return f"{p}: dtype {a.dtype!r} became {b.dtype!r}"
        x, y = np.asarray(a), np.asarray(b)
        return self.array(x, y, p)

    def array(self, a, b, p):
        if dtype_diff(a.dtype, b.dtype):
            return f"{p}: dtype {a.dtype!r} became {b.dtype!r}"
        if a.shape != b.shape:
            return f"{p}: shape {a.shape} became {b.shape}"
        if a.dtype == object:
            for i in np.ndindex(a.shape):
                d = self(a[i] if a.shape else a.item(), b[i] if b.shape else b.item(), f"{p}[{','.join(map(str, i))}]")
                if d:
                    return d
            return self.extra(a, b, p)
        if self.layout and ((a.flags.c_contiguous and not b.flags.c_contiguous) or (a.flags.f_contiguous and not b.flags.f_contiguous)):
            return f"{p}: memory layout changed ({'C' if a.flags.c_contiguous else 'F'} order lost)"
        a0, b0 = np.asarray(a), np.asarray(b)
        if a.dtype.names:
            for n in a.dtype.names:
                d = Diff(False).array(a0[n], b0[n], f"{p}.{n}")
                if d:
                    return d
        elif a0.tobytes() != b0.tobytes():
            # NaN payloads of long double padding are not values
            if a.dtype.kind in "fc" and a.dtype.itemsize in (16, 32) and np.array_equal(a0, b0, equal_nan=True) and np.array_equal(np.signbit(a0.real), np.signbit(b0.real)):
                return None
            return f"{p}: array contents changed ({a0.ravel()[:5]!r} -> {b0.ravel()[:5]!r})"
        return self.extra(a, b, p)

    def masked(self, a, b, p):
        if a is np.ma.masked:
            return None if b is a else f"{p}: masked became {b!r:.60}"
        if bool(a.hardmask) != bool(b.hardmask):
            return f"{p}: hard mask {a.hardmask} became {b.hardmask}"
        d = self.array(a.data, b.data, p + ".data")
        if d:
            return d
        if (a.mask is np.ma.nomask) != (b.mask is np.ma.nomask):
            return f"{p}: mask {a.mask!r:.40} became {b.mask!r:.40}"
        d = self.array(np.ma.getmaskarray(a), np.ma.getmaskarray(b), p + ".mask")
        if d:
            return d
        return self.scalar(np.asarray(a.fill_value)[()], np.asarray(b.fill_value)[()], p + ".fill_value") if a.dtype != object else self(a.fill_value, b.fill_value, p + ".fill_value")

    def sparse(self, a, b, p):
        if a.format != b.format or a.shape != b.shape or a.dtype != b.dtype:
            return f"{p}: {a.format}{a.shape}{a.dtype!r} became {b.format}{b.shape}{b.dtype!r}"
        names = {"csr": ("data", "indices", "indptr"), "csc": ("data", "indices", "indptr"), "bsr": ("data", "indices", "indptr"),
                 "coo": ("data", "coords"), "dia": ("data", "offsets")}.get(a.format)
        if names is None:
            return self(a.toarray(), b.toarray(), p)
        for n in names:
            x, y = getattr(a, n), getattr(b, n)
            for u, v in zip(x if n == "coords" else (x,), y if n == "coords" else (y,)):
                d = Diff(False).array(u, v, f"{p}.{n}") if n == "data" else (None if np.array_equal(u, v) else f"{p}.{n} changed")
                if d:
                    return d
        return None

    def generic(self, a, b, p):
        d = getattr(a, "__dict__", None)
        has = False
        if type(d) is dict:
            has = True
            e = b.__dict__
            if type(e) is dict and set(d) == set(e) and list(d) != list(e):
                e = {k: e[k] for k in d}        # attributes have no order
            r = self(d, e, p + ".__dict__")
            if r:
                return r
        if any(c.__dict__.get("__slots__") for c in type(a).__mro__):
            has = True
            r = self.extra(a, b, p)
            if r:
                return r
        m = type(a).__module__.split(".")[0]
        if m in ("sklearn", "_loss", "quantile_forest", "scipy", "pandas") or not has or hasattr(type(a), "__reduce_cython__"):
            try:
                x, y = a.__reduce_ex__(4), b.__reduce_ex__(4)
            except Exception:
                return None
            if isinstance(x, str):
                return None if x == y else f"{p}: {x} became {y}"
            # copyreg-style reductions repeat the state; iterators are exhausted into lists
            x, y = [[v if not hasattr(type(v), "__next__") else list(v) for v in t] for t in (x, y)]
            if x[0] is y[0] and len(x) > 1:
                return self(list(x[1:]), list(y[1:]), p + ".__reduce__")
            return self(x, y, p + ".__reduce__")
        return None


def diff_obj(a, b, layout=True):
    try:
        return Diff(layout)(a, b)
    except RecursionError:
        return None


# ------------------------------------------------------------------ identity partition
def parts(x):
    """ordered corresponding sub-objects of an object"""
    if isinstance(x, (str, bytes, bytearray, int, float, complex, type(None)) + GLOBALS) or isinstance(x, (np.generic, np.dtype)):
        return []
    if isinstance(x, dict):
        out = [v for kv in x.items() for v in kv]
        if isinstance(x, defaultdict):
            out.append(x.default_factory)
        return out
    if isinstance(x, (list, tuple, deque)):
        return list(x)
    if isinstance(x, np.ma.MaskedArray):
        return []
    if isinstance(x, np.ndarray):
        return [x[i] if x.shape else x.item() for i in np.ndindex(x.shape)] if x.dtype == object else []
    if sp.issparse(x) or isinstance(x, (np.random.RandomState, np.random.Generator, set, frozenset)):
        return []
    if isinstance(x, functools.partial):
        return [x.func, *x.args, *x.keywords.values()]
    if isinstance(x, types.MethodType):
        return [x.__self__]
    d = getattr(x, "__dict__", None)
    return list(d.values()) if type(d) is dict else []


def mutable(x):
    return isinstance(x, (list, dict, set, bytearray, deque, np.ndarray, np.random.RandomState, np.random.Generator)) or sp.issparse(x) or \
        (hasattr(x, "__dict__") and not isinstance(x, GLOBALS) and not isinstance(x, (functools.partial, types.MethodType, operator.attrgetter)))


def sharing_diff(a, b):
    """None when the identity partitions of the mutable sub-objects correspond"""
    fwd, bwd = {}, {}
    stack = [(a, b, "obj")]
    keep = []
    done = set()
    while stack:
        x, y, p = stack.pop()
        keep.append((x, y))
        if mutable(x):
            if id(x) in fwd and fwd[id(x)][0] != id(y):
                return f"{p}: shared with {fwd[id(x)][1]} in the original, distinct after loading"
            if id(y) in bwd and bwd[id(y)][0] != id(x):
                return f"{p}: distinct from {bwd[id(y)][1]} in the original, shared after loading"
            fwd.setdefault(id(x), (id(y), p))
            bwd.setdefault(id(y), (id(x), p))
        if (id(x), id(y)) in done:
            continue
        done.add((id(x), id(y)))
        px, py = parts(x), parts(y)
        if len(px) != len(py):
            return f"{p}: {len(px)} parts became {len(py)}"
        stack += [(u, v, f"{p}/{i}") for i, (u, v) in enumerate(zip(px, py))]
    return None


# ------------------------------------------------------------------ user classes
class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class NoState:
    pass


class Slots:
    __slots__ = ("a", "b")


class SlotsDict:
    __slots__ = ("a", "__dict__")


class SlotsState:
    __slots__ = ("a", "b")

    def __getstate__(self):
        return {"a": self.a, "b": self.b}

    def __setstate__(self, s):
        self.a, self.b = s["a"], s["b"]


class TupleState:
    def __init__(self, *xs):
        self.xs = xs

    def __getstate__(self):
        return self.xs

    def __setstate__(self, s):
        self.xs = s


class ListState:
    def __init__(self, *xs):
        self.xs = list(xs)

    def __getstate__(self):
        return self.xs

    def __setstate__(self, s):
        self.xs = s


class NoneState:
    def __init__(self):
        self.x = 1

    def __getstate__(self):
        return None

    def __setstate__(self, s):
        self.x = s


class FalsyState:
    """state is a falsy value that has to reach __setstate__"""
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return self.v

    def __setstate__(self, s):
        self.v = s


class ReduceType:
    def __init__(self, *args):
        self.args = args

    def __reduce__(self):
        return type(self), self.args


def rebuild(cls, *args):
    return cls(*args)


class ReduceOther:
    def __init__(self, *args):
        self.args = args

    def __reduce__(self):
        return rebuild, (type(self), *self.args)


class ReduceState:
    """constructor arguments and a state"""
    def __init__(self, n):
        self.n = n
        self.extra = None

    def __reduce__(self):
        return type(self), (self.n,), {"extra": self.extra}


class ReduceItems:
    """reduce with list items"""
    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def extend(self, xs):
        self.items.extend(xs)

    def __reduce__(self):
        return type(self), (), None, iter(self.items)


class GetNewArgs:
    def __new__(cls, n):
        self = super().__new__(cls)
        self.n = n
        return self

    def __getnewargs__(self):
        return (self.n,)


class MyList(list): pass
class MyTuple(tuple): pass
class MyDict(dict): pass
class MySet(set): pass
class MyFrozen(frozenset): pass
class MyInt(int): pass
class MyFloat(float): pass
class MyStr(str): pass
class MyBytes(bytes): pass
class MyByteArray(bytearray): pass
class MyODict(OrderedDict): pass
class MyDeque(deque): pass
class MyPartial(functools.partial): pass
class MyDefault(defaultdict): pass
class MyArray(np.ndarray): pass


class AttrArray(np.ndarray):
    def __new__(cls, a, unit="m"):
        o = np.asarray(a).view(cls)
        o.unit = unit
        return o

    def __array_finalize__(self, o):
        self.unit = getattr(o, "unit", None)


Point = namedtuple("Point", "x y")


class Point3(Point):
    pass


class PointSlots(Point):
    __slots__ = ()


class Colour(enum.Enum):
    RED = 1
    BLUE = "b"


class Num(enum.IntEnum):
    ONE = 1


class Flag(enum.Flag):
    A = 1
    B = 2


class Meth:
    def __init__(self, v=0):
        self.v = v

    def get(self):
        return self.v

    alias = get

    @classmethod
    def make(cls):
        return cls()


class SubMeth(Meth):
    def get(self):
        return -1

    def base(self):
        return super().get


def plainfn(x):
    return x


@functools.wraps(plainfn)
def wrapper(x):
    return plainfn(x)


def _deco(f):
    @functools.wraps(f)
    def inner(*a):
        return f(*a)
    return inner


@_deco
def decorated(x):
    return x


class Outer:
    class Inner:
        def __init__(self):
            self.x = 1

    class Plain:
        """same name as a module level class"""
        def __init__(self):
            self.x = 1

    def method(self):
        pass


def local_class():
    class Plain:
        pass
    o = Plain()
    o.x = 1
    return o


# ------------------------------------------------------------------ generators
DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<i4", ">u4", "<i8", ">i8", "<u8", "f2", ">f2", "<f4", ">f4", "<f8", ">f8", "g", "<c8", ">c16", "c16", "G", "S0", "S1", "S7", "<U0", "<U1", ">U5", "U9",
          "<M8[ns]", ">M8[D]", "<M8[25s]", "<m8[us]", ">m8[s]", "<m8", "V3", "V8", [("a", "<i4"), ("b", ">f8")], [("x", "S3"), ("y", "<f4", (2, 3))], [("n", [("p", "?"), ("q", "<M8[s]")]), ("z", "<U2")],
          {"names": ["a", "b"], "formats": ["i1", "<i8"], "offsets": [0, 8], "itemsize": 16}]


def rand_array(rng, dtype=None, shape=None):
    dt = np.dtype(dtype if dtype is not None else rng.choice(DTYPES))
    shape = shape if shape is not None else rng.choice([(), (0,), (1,), (3,), (5,), (2, 3), (3, 2), (0, 3), (2, 0, 2), (1, 1), (4, 1), (2, 3, 2), (1, 2, 1, 2)])
    n = int(np.prod(shape, dtype=int))
    raw = rng.randbytes(max(1, n * dt.itemsize))
    a = fill(rng, dt, n).reshape(shape)
    r = rng.random()
    if r < 0.25:
        a = np.asfortranarray(a)
    elif r < 0.35 and a.ndim >= 1 and a.shape[0] > 1:
        a = a[::-1]
    elif r < 0.45 and a.ndim >= 1:
        a = np.concatenate([a, a])[::2][:a.shape[0]]
    elif r < 0.5 and a.ndim >= 2:
        a = a.swapaxes(0, -1)
    elif r < 0.55:
        a.flags.writeable = False
    return a


def fill(rng, dt, n):
    if dt.names:
        a = np.zeros(n, dt)
        for nm in dt.names:
            sub = dt.fields[nm][0]
            base, sh = (sub.subdtype if sub.subdtype else (sub, ()))
            k = int(np.prod(sh, dtype=int))
            a[nm] = fill(rng, base, n * k).reshape((n,) + sh)
        return a
    k = dt.kind
    if k == "b":
        vals = [rng.random() < 0.5 for _ in range(n)]
    elif k in "iu":
        inf = np.iinfo(dt)
        vals = [rng.choice([0, 1, inf.min, inf.max, rng.randint(int(inf.min), int(inf.max))]) for _ in range(n)]
    elif k == "f":
        vals = [rng.choice([0.0, -0.0, 1.5, float("nan"), float("inf"), -float("inf"), rng.uniform(-1e3, 1e3)]) for _ in range(n)]
    elif k == "c":
        vals = [complex(rng.choice([0.0, -0.0, float("nan"), 1.0, rng.random()]), rng.choice([-0.0, 2.5, float("inf")])) for _ in range(n)]
    elif k == "S":
        vals = [rng.choice([b"", b"a", b"a\0b", b"xyz", rng.randbytes(4)]) for _ in range(n)]
    elif k == "U":
        vals = [rng.choice(["", "a", "\u00e9\u4e2d", "a\0b", "\U0001f600"]) for _ in range(n)]
    elif k in "mM":
        vals = [rng.choice([0, 1, -5, 10**9, np.iinfo("i8").min]) for _ in range(n)]
        return np.array(vals, dtype="<i8").astype(dt.newbyteorder("=").str.replace("=", "<") if False else "i8").view(dt.newbyteorder("=")).astype(dt)
    else:
        return np.frombuffer(rng.randbytes(n * dt.itemsize) or b"", dtype=dt).copy() if n * dt.itemsize else np.zeros(n, dt)
    return np.array(vals, dtype=dt) if n else np.zeros(n, dt)


def rand_str(rng):
    return rng.choice(["", "a", "b", "key", "1", "True", "None", "1.0", "nan", "\u00e9\u4e2d\U0001f600", "a\0b", "\u2028\n\r\t\"\\", "x" * 300, "__id__", "content", "key_types", "a.b", "\ud800", "</script>", "null"])


def rand_int(rng):
    return rng.choice([0, 1, -1, 2, 7, 2**31, 2**53 + 1, -2**63, 2**64, 10**40, -(10**30), rng.randint(-1000, 1000)])


def rand_float(rng):
    return rng.choice([0.0, -0.0, 1.0, 1.5, float("nan"), float("inf"), -float("inf"), 1e308, 5e-324, 0.1, 1e22, -2.5e-7, rng.uniform(-1e9, 1e9)])


def json_scalar(rng):
    return rng.choice([rand_str, rand_int, rand_float, lambda r: None, lambda r: r.random() < 0.5])(rng)


def np_scalar(rng):
    r = rng.random()
    if r < 0.15:
        return np.void(b"abc") if rng.random() < 0.5 else np.array([(1, 2.5)], dtype=[("a", "<i4"), ("b", "<f8")])[0]
    dt = rng.choice(["?", "i1", "u2", "i4", "u8", "i8", "f2", "f4", "f8", "g", "c8", "c16", "G", "S3", "U4", "M8[ns]", "M8[D]", "m8[s]"])
    return fill(rng, np.dtype(dt), 1)[0]


def rand_sparse(rng):
    fmt = rng.choice(["csr", "csc", "coo", "bsr", "dia"])
    cls = getattr(sp, fmt + rng.choice(["_matrix", "_array"]))
    m, n = rng.choice([(0, 3), (3, 0), (1, 1), (4, 6), (6, 4), (10, 10)]) if fmt not in ("bsr",) else rng.choice([(4, 6), (2, 2), (6, 6)])
    dt = rng.choice(["?", "i1", "<i4", "f4", "<f8", "c8", "c16", "u2"])
    d = np.zeros((m, n), dtype=dt)
    for i in range(m):
        for j in range(n):
            if rng.random() < 0.3:
                d[i, j] = fill(rng, np.dtype(dt), 1)[0] if rng.random() < 0.5 else 1
    s = cls(d)
    r = rng.random()
    if fmt == "coo" and r < 0.3 and m and n:
        s = cls((np.array([1, 2, 3], dtype=dt), ([0, 0, m - 1], [0, 0, n - 1])), shape=(m, n))     # duplicates
    if fmt in ("csr", "csc") and r < 0.3 and m > 1 and n > 1:
        s = cls((np.array([1, 2], dtype=dt), np.array([1, 0]), np.array([0, 2] + [2] * ((m if fmt == "csr" else n) - 1))), shape=(m, n))   # unsorted
    if fmt in ("csr", "csc", "bsr") and r > 0.8 and s.data.size:
        s.data.flat[0] = 0     # explicit zero
    return s


def rand_rng(rng):
    seed = rng.randint(0, 2**32 - 1)
    r = rng.random()
    if r < 0.4:
        o = np.random.RandomState(seed)
        if rng.random() < 0.3:
            o.standard_normal(3)
        elif rng.random() < 0.2:
            o = np.random.RandomState(np.random.PCG64(seed))
        for _ in range(rng.randint(0, 5)):
            o.randint(5)
        return o
    bg = rng.choice([np.random.PCG64, np.random.PCG64DXSM, np.random.MT19937, np.random.Philox, np.random.SFC64])
    ss = rng.choice([seed, np.random.SeedSequence(seed), np.random.SeedSequence([seed, 3], spawn_key=(1, 2)), np.random.SeedSequence(seed, pool_size=8)])
    if isinstance(ss, np.random.SeedSequence) and rng.random() < 0.3:
        ss.spawn(2)
    g = np.random.Generator(bg(ss))
    for _ in range(rng.randint(0, 5)):
        rng.choice([g.random, g.standard_normal, lambda: g.integers(7, dtype=np.int32)])()
    return g


def rand_object_array(rng, cells=None):
    shape = rng.choice([(1,), (3,), (7,), (2, 3), (1, 1), (3, 1, 2), (2, 2, 2, 1)])
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        a[i] = (cells or json_scalar)(rng)
    r = rng.random()
    if r < 0.2:
        a = np.asfortranarray(a)
    elif r < 0.3:
        a = a[::-1]
    elif r < 0.4 and a.ndim > 1:
        a = a.T
    return a


def meta(d):
    """what == of dtypes does not see: the metadata, of the fields and the element too"""
    return (dict(d.metadata) if d.metadata else None, meta(d.subdtype[0]) if d.subdtype else None, [(n, meta(d.fields[n][0])) for n in d.names] if d.names else None)


def dtype_diff(a, b):
    """None if the dtypes are the same"""
    return a != b or (a.type is not b.type and a.kind == "V") or meta(a) != meta(b)


def rand_masked(rng):
    a = rand_array(rng, dtype=rng.choice([d for d in DTYPES if isinstance(d, str) and d[-1] not in "0" and not d.startswith(("V",))]))
    r = rng.random()
    if r < 0.25:
        m = np.ma.MaskedArray(a)
    elif r < 0.5:
        m = np.ma.MaskedArray(a, mask=True)
    else:
        m = np.ma.MaskedArray(a, mask=np.array([rng.random() < 0.5 for _ in range(a.size)], dtype=bool).reshape(a.shape))
    if rng.random() < 0.4 and a.dtype.kind in "iuf":
        m.fill_value = rng.choice([7, 0, 0, 1])
    elif a.dtype.kind in "bUS" and rng.random() < 0.4:
        m.fill_value = {"b": False, "U": "", "S": b""}[a.dtype.kind]
    if rng.random() < 0.1:
        m.harden_mask()
    return m


TYPES = [int, str, float, bool, list, dict, tuple, set, bytes, type, OrderedDict, np.float64, np.int8, np.ndarray, complex]


def ufuncs():
    import scipy.special as ss
    return [np.add, np.sin, np.matmul, np.logical_and, ss.expit, ss.logit, ss.gammaln]


def rand_key(rng):
    r = rng.random()
    if r < 0.5:
        return rand_str(rng)
    if r < 0.7:
        return rand_int(rng)
    if r < 0.85:
        return rand_float(rng)
    return rng.choice([np.int32(5), np.int64(-3), np.float64(2.5), np.uint8(7), np.float32(0.1), np.float32(1.5), np.int8(1), np.float16(0.25), np.float64("nan")])


def supported(rng, depth):
    """a value of the families C05 lists"""
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice(LEAVES)(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    kind = rng.choice(["list", "tuple", "set", "dict", "dict", "odict", "ddict", "partial", "plist"])
    if kind in ("list", "plist"):
        return [supported(rng, depth - 1) for _ in range(n)]
    if kind == "tuple":
        return tuple(supported(rng, depth - 1) for _ in range(n))
    if kind == "set":
        return {rng.choice([json_scalar, np_scalar, lambda q: (rand_int(q), rand_str(q)), lambda q: b"b"])(rng) if False else rng.choice([json_scalar, lambda q: (rand_int(q), rand_str(q)), lambda q: b"b", lambda q: np.float32(q.randint(0, 3))])(rng) for _ in range(n)}
    if kind in ("dict", "odict", "ddict"):
        ks = unique_keys([rand_key(rng) for _ in range(n)])
        d = {k: supported(rng, depth - 1) for k in ks}
        if kind == "odict":
            return OrderedDict(d)
        if kind == "ddict":
            return defaultdict(rng.choice([list, int, dict, None, set]), d)
        return d
    return functools.partial(rng.choice([int, np.add, list]), *[supported(rng, depth - 2) for _ in range(n % 3)], **{k: supported(rng, depth - 2) for k in ("a", "b")[:n % 3]})


def unique_keys(ks):
    """distinct as Python keys; int/float/str keys that only collide after conversion to text stay"""
    out = []
    for k in ks:
        if not any(k == j for j in out):
            out.append(k)
    return out


def op_helper(rng):
    return rng.choice([operator.attrgetter("a"), operator.attrgetter("a.b", "c"), operator.itemgetter(1), operator.itemgetter("a", 2), operator.itemgetter(slice(1, 3)), operator.attrgetter("x")])


def rand_slice(rng):
    f = lambda: rng.choice([None, float("nan"), float("-inf"), 0, 1, -1, 10, 2**70])
    return slice(f(), f(), f())


LEAVES = [json_scalar, json_scalar, rand_str, rand_int, rand_float, lambda r: r.choice([b"", b"abc\0", r.randbytes(50)]), lambda r: bytearray(r.choice([b"", b"abc\xff"])), rand_slice,
          rand_array, rand_array, np_scalar, lambda r: np.dtype(r.choice(DTYPES)), rand_masked, rand_object_array, rand_rng, rand_sparse, lambda r: r.choice(ufuncs()), lambda r: r.choice(TYPES), op_helper]


def exotic(rng, depth=1):
    """values outside (or at the edge of) the supported families"""
    sub = lambda: any_value(rng, depth - 1)
    nd = rng.randint(0, 3)
    c = [
        lambda: frozenset(json_scalar(rng) for _ in range(nd)), lambda: deque([sub() for _ in range(nd)], rng.choice([None, 5])), lambda: Counter("abca"),
        lambda: Point(sub(), sub()), lambda: Point3(sub(), 2), lambda: PointSlots(1, sub()), lambda: range(nd, 10, 2), lambda: complex(1, -0.0),
        lambda: {rng.choice([True, False, None, 1, 0, "1", "True", "true", "null", "None", 1.5, "1.5", b"k", (1, 2), np.bool_(True), np.str_("s"), frozenset([1]), Colour.RED, MyStr("k"), MyInt(3), int, np.datetime64("2020-01-01"),
                             np.timedelta64(5, "s"), np.complex128(1j), np.longdouble(1.5), np.bytes_(b"x"), 10**20, complex(1, 2), Num.ONE]): sub() for _ in range(rng.randint(1, 4))},
        lambda: {1: "a", "1": "b"}, lambda: {False: 1, True: 2}, lambda: {None: 1, "null": 2}, lambda: {1.0: "a", "1.0": 2}, lambda: OrderedDict([(True, 1), ("true", sub())]),
        lambda: {"a": property(len), "b": 1}, lambda: defaultdict(list, {1: [2], "a": sub()}), lambda: defaultdict(lambda: 3, {"a": 1}), lambda: {np.float64(1.5): 1, 1.25: 2},
        lambda: rand_object_array(rng, lambda q: q.choice([[1, 2], [3], (1,), {"a": 1}, None, "s", np.arange(2), [[1], [2]]])),
        lambda: obj_array((2, 2), lambda: [1, 2]), lambda: obj_array((2, 3), lambda: (1, 2)), lambda: obj_array((1, 2), lambda: np.arange(3)), lambda: obj_array((), lambda: [1]), lambda: obj_array((), lambda: None),
        lambda: obj_array((0,), lambda: 1), lambda: obj_array((0, 3), lambda: 1), lambda: obj_array((2, 0), lambda: 1), lambda: obj_array((2,), lambda: np.float64(2)), lambda: obj_array((2, 2), lambda: rand_array(rng, "f8", (2,))),
        lambda: np.array([[[1, 2], [3]], [[4], [5]]], dtype=object), lambda: obj_array((2,), sub), lambda: obj_array((2, 2), sub),
        lambda: np.ma.MaskedArray(obj_array((2,), lambda: "a"), mask=[True, False]), lambda: np.ma.array([(1, 2.0)], mask=[(True, False)], dtype=[("a", "i4"), ("b", "f8")]), lambda: np.ma.masked,
        lambda: np.matrix([[1, 2], [3, 4]]), lambda: np.rec.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]), lambda: np.arange(4).view(MyArray), lambda: AttrArray([1, 2], "kg"), lambda: np.array(["a"], dtype=np.dtypes.StringDType()),
        lambda: np.char.array(["a", "b"]), lambda: np.zeros(2, dtype=[("o", object)]), lambda: np.array([MyInt(2)], dtype=object), lambda: np.ma.array([1, 2], mask=[0, 1]).view(np.ma.mrecords.MaskedRecords) if False else np.ma.array([1, 2], hard_mask=True),
        lambda: sp.dok_matrix(np.eye(2)), lambda: sp.lil_matrix(np.eye(2)), lambda: sp.lil_array(np.eye(2)), lambda: sp.coo_array(np.array([1, 0, 2])),
        lambda: np.random.PCG64(3), lambda: np.random.SeedSequence(3), lambda: np.random.MT19937(1), lambda: np.random, lambda: np.finfo(np.float32), lambda: np.iinfo(np.int8), lambda: np.poly1d([1, 2]), lambda: np.vectorize(plainfn),
        lambda: datetime.date(2020, 1, 2), lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6), lambda: datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), lambda: datetime.timedelta(1, 2, 3), lambda: datetime.time(1, 2, fold=1),
        lambda: datetime.timezone(datetime.timedelta(hours=2)), lambda: decimal.Decimal("1.10"), lambda: decimal.Decimal("NaN"), lambda: fractions.Fraction(1, 3), lambda: uuid.UUID(int=5), lambda: pathlib.PurePosixPath("a/b"), lambda: pathlib.Path("a"),
        lambda: Plain(a=sub(), b=1), lambda: Plain(), lambda: Plain(key_types=1, content=sub()), lambda: NoState(), lambda: slots(Slots(), a=1, b=sub()), lambda: slots(SlotsDict(), a=1, z=2), lambda: slots(SlotsState(), a=sub(), b=2),
        lambda: TupleState(1, sub()), lambda: TupleState(), lambda: ListState(1), lambda: ListState(), lambda: FalsyState(0), lambda: FalsyState(""), lambda: FalsyState(False), lambda: FalsyState({}), lambda: FalsyState([]), lambda: FalsyState(()), lambda: FalsyState([sub()]),
        lambda: ReduceType(1, sub()), lambda: ReduceType(), lambda: ReduceOther(1, 2), lambda: reduce_state(sub()), lambda: reduce_items([1, sub()]), lambda: GetNewArgs(4),
        lambda: MyList([1, sub()]), lambda: attr(MyList([1]), "x", 1), lambda: MyTuple((1, sub())), lambda: MyDict(a=sub()), lambda: attr(MyDict(a=1), "x", 2), lambda: MySet([1]), lambda: attr(MySet([1]), "x", 2), lambda: MyFrozen([1]), lambda: MyInt(5), lambda: MyFloat(2.5), lambda: MyStr("s"), lambda: attr(MyStr("s"), "y", 1), lambda: MyBytes(b"q"), lambda: MyByteArray(b"q"),
        lambda: MyODict(a=sub()), lambda: MyDeque([1, 2]), lambda: MyPartial(int, "3"), lambda: attr(functools.partial(int, "3"), "note", [1]), lambda: MyDefault(list, a=[1]), lambda: functools.partial(plainfn, sub()), lambda: functools.partial(lambda: 1),
        lambda: Colour.RED, lambda: Colour.BLUE, lambda: Num.ONE, lambda: Flag.A | Flag.B,
        lambda: Meth(3).get, lambda: Meth(3).alias, lambda: Meth.make, lambda: SubMeth(1).get, lambda: SubMeth(1).base(), lambda: SubMeth.make, lambda: types.MethodType(plainfn, Plain()), lambda: [1].append, lambda: "a".join, lambda: np.arange(3).sum, lambda: {}.get, lambda: dict.fromkeys,
        lambda: plainfn, lambda: wrapper, lambda: wrapper.__wrapped__, lambda: decorated, lambda: decorated.__wrapped__, lambda: (lambda x: x), lambda: len, lambda: np.sum, lambda: np.linalg.norm, lambda: random.random, lambda: datetime.datetime.now, lambda: str.join, lambda: int.from_bytes, lambda: Outer.method,
        lambda: Outer.Inner, lambda: Outer.Inner(), lambda: Outer.Plain, lambda: Outer.Plain(), local_class, lambda: type(local_class()), lambda: type(None), lambda: type(len), lambda: type(Ellipsis), lambda: Plain, lambda: Colour,
        lambda: operator.methodcaller("a", 1, k=2), lambda: operator.methodcaller("a"), lambda: operator.attrgetter("a.b"), lambda: slice(np.int64(1), None), lambda: slice("a", [1], 2.5), lambda: slice((1,), None), lambda: Ellipsis, lambda: NotImplemented, lambda: memoryview(b"a"), lambda: iter([1]), lambda: (i for i in ()), lambda: open, lambda: io.BytesIO(b"abc"), lambda: io.StringIO("abc"), lambda: object(), lambda: ValueError("x", 1), lambda: types.SimpleNamespace(a=1), lambda: types.MappingProxyType({"a": 1}),
        lambda: __import__("re").compile("a", 2), lambda: np.dtype("O"), lambda: np.dtype([("a", "O")]), lambda: np.dtype("f8", metadata={"a": 1}), lambda: np.arange(3, dtype=np.dtype("i8", metadata={"a": 1})), lambda: np.dtype([("a", np.dtype("f8", metadata={"a": 1})), ("b", "i4")]), lambda: np.zeros(2, dtype=[("a", np.dtype("f8", metadata={"a": 1}))]), lambda: np.dtype((np.dtype("f8", metadata={"a": 1}), (2,))), lambda: np.ma.MaskedArray(np.zeros(2, dtype=np.dtype("f8", metadata={"a": 1}))), lambda: np.zeros(2, dtype=np.dtype("f8", metadata={"a": 1}))[0], lambda: np.dtypes.StringDType(), lambda: np.dtype((np.record, [("a", "i4")])), lambda: np.dtype([(("title", "a"), "i4")]), lambda: np.dtype("i4", align=True), lambda: np.dtype({"names": ["a"], "formats": ["i4"]}, align=True), lambda: np.dtype(("<i4", (2,))),
        lambda: np.array([(1,)], dtype=[(("title", "a"), "i4")]), lambda: np.bool_(True), lambda: {1, True, "1"}, lambda: {(1, (2, 3))}, lambda: [(), [], {}, set()], lambda: __import__("pandas").DataFrame({"a": [1, 2]}), lambda: __import__("pandas").Series([1]), lambda: __import__("pandas").Timestamp("2020"),
        lambda: np.array([1, 2], dtype="i4")[0], lambda: np.array(5, dtype=">i4")[()], lambda: np.random.RandomState, lambda: np.random.Generator, lambda: np.random.default_rng, lambda: np.random.rand, lambda: np.random.RandomState(1).rand, lambda: np.newaxis,
    ]
    return rng.choice(c)() if depth >= 0 else json_scalar(rng)


def any_value(rng, depth):
    return exotic(rng, depth) if rng.random() < 0.4 and depth > 0 else supported(rng, max(depth, 0))


def obj_array(shape, f):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        a[i] = f()
    if shape == ():
        a[()] = f()
    return a


def attr(o, k, v):
    setattr(o, k, v)
    return o


def slots(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def reduce_state(v):
    o = ReduceState(3)
    o.extra = v
    return o


def reduce_items(vs):
    o = ReduceItems()
    o.items = list(vs)
    return o


def exotic_makers():
    """every maker of `exotic` separately: list of functions rng -> value"""
    class Pick(random.Random):
        def __init__(self, i, seed):
            super().__init__(seed if isinstance(seed, (int, str)) else seed.random())
            self.i, self.n, self.done = i, None, False

        def choice(self, xs):
            if not self.done and len(xs) > 60 and callable(xs[0]):
                self.done, self.n = True, len(xs)
                return xs[self.i]
            return super().choice(xs)
    p = Pick(0, 0)
    try:
        exotic(p, 1)
    except Exception:
        pass
    n = p.n
    return [(lambda i: lambda seed: exotic(Pick(i, seed), 1))(i) for i in range(n)]
