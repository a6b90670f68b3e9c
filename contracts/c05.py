"""C05 Supported data round-trips exactly, and stably."""
from __future__ import annotations
import copy, functools, itertools, random, sys, warnings
from collections import OrderedDict, defaultdict
import numpy as np
import scipy.sparse as sp
from contracts import archives as A, corpus, objects as O
from contracts import rtproof as RT
from contracts.select import Only

LEVEL = "proof"
NOTE = ('the step of the round trip for every supported family under contract: not refused, and the same value on every path; object arrays: any (n,), and fixed shapes of higher rank (bounded by shape); repetition follows as the loaded value is of the same kind; nesting by induction on paper')
BUDGET = {"quick": 60, "thorough": 800}
TRUSTED = ['np.save and np.load (allow_pickle=False) of an array without objects and without fields give back type-less array of the same dtype, shape, order and contents', 'scipy.sparse.save_npz / load_npz restore format, dtype, shape and contents', 'json.loads(json.dumps(x)) gives back strings, ints, bools, None and finite floats', 'the constructors and __reduce__ / __setstate__ protocols of builtin, numpy and sklearn types behave as documented', 'setting the state of a bit generator continues its stream']
ASSUMPTIONS = ['the induction over the nesting of a value (the child of the state of v builds v) is an argument on paper: each unit discharges one step for all values of one kind', 'cycles are refused by the recursion limit or loaded by the cached node (bounded)', 'machine integers and floats are unbounded values']
EXPLANATION = ('proved: for all values of each family the function of the kind does not refuse, its state is json, the node that it names restores the value on every path; bounded: generated values, two and more cycles, streams of generators.')


def prove(P):
    Q = Only(P, drop=r"is flat|refers to|written only|is a string|is refused")
    RT.containers(Q)
    RT.builtins_(Q)
    RT.numpy_(Q)


def guards(G):
    RT.guards(G)

def rngs(x, seen=None, depth=0):
    """the random generators inside a value, in order"""
    seen = {} if seen is None else seen
    if id(x) in seen or depth > 30:
        return []
    seen[id(x)] = x
    if isinstance(x, (np.random.RandomState, np.random.Generator)):
        return [x]
    return [g for y in O.parts(x) for g in rngs(y, seen, depth + 1)]


def draws(g):
    g = copy.deepcopy(g)
    if isinstance(g, np.random.RandomState):
        return [g.random_sample(3).tobytes(), g.standard_normal(3).tobytes(), g.randint(0, 100, 5).tolist(), g.permutation(6).tolist(), g.bytes(5)]
    return [g.random(3).tobytes(), g.standard_normal(3).tobytes(), g.integers(0, 100, 5).tolist(), g.permutation(6).tolist(), g.bytes(5), g.integers(5, dtype=np.int32, size=3).tolist(),
            [c.random() for c in (g.spawn(2) if hasattr(g, "spawn") else [])]]


def cycles(obj, n):
    """None, or (kind, what)"""
    import skops.io as sio
    cur = obj
    gens = [draws(g) for g in rngs(obj)]
    for i in range(n):
        step = f"cycle {i + 1}"
        try:
            data = sio.dumps(cur)
        except Exception as ex:
            return "dumps", f"{step}: dumps raises {type(ex).__name__}: {str(ex)[:150]}"
        try:
            U = sio.get_untrusted_types(data=data)
            new = sio.loads(data, trusted=U)
        except Exception as ex:
            return "loads", f"{step}: loading raises {type(ex).__name__}: {str(ex)[:150]}"
        d = O.diff_obj(obj, new)
        if d:
            return "differs", f"{step}: {d}"
        if [draws(g) for g in rngs(new)] != gens:
            return "stream", f"{step}: the loaded random generators continue another stream"
        cur = new
    return None


# ------------------------------------------------------------------ systematic enumerations
SHAPES = [(), (0,), (1,), (3,), (2, 3), (3, 2), (0, 3), (3, 0), (2, 0, 2), (1, 1), (1, 3), (3, 1), (2, 3, 4), (1, 2, 1, 3), (0, 0)]


def arrays():
    for dt in O.DTYPES:
        for sh in SHAPES:
            for order in ("C", "F", "strided", "reversed", "readonly"):
                yield ("array", dt, sh, order)


def make_array(dt, sh, order, rng):
    dt = np.dtype(dt)
    n = int(np.prod(sh, dtype=int))
    a = O.fill(rng, dt, n).reshape(sh)
    if order == "F":
        a = np.asfortranarray(a) if a.ndim else a
    elif order == "strided" and a.ndim:
        b = np.zeros((sh[0] * 2,) + sh[1:], dtype=dt)
        b[::2] = a
        a = b[::2]
    elif order == "reversed" and a.ndim:
        a = a[tuple([slice(None, None, -1)] * a.ndim)]
    elif order == "readonly":
        a.flags.writeable = False
    return a


def dtypes():
    for d in O.DTYPES + ["O", "S0", "U0", "V0", "S10", "U7", "V11", "M8[D]", "m8[ns]", "M8", [("a", "i4", (2, 3)), ("b", [("c", "f4"), ("d", "S2")])], {"names": ["x"], "formats": ["f8"], "offsets": [8], "itemsize": 24}]:
        yield ("dtype", d)


KEYS = ["", "a", "1", "1.0", "true", "null", "None", "nan", "\u00e9", "a\0b", "\ud800", " ", "0", "-1", "1e5", 0, 1, -1, 2**70, 0.0, -0.0, 1.0, 1.5, 1e5, 1e300, 5e-324, float("nan"), float("inf"), -float("inf"), 0.1 + 0.2,
        np.int8(1), np.uint8(200), np.int16(-5), np.int32(7), np.int64(2**62), np.uint64(2**63), np.float16(0.1), np.float32(0.1), np.float64(0.1), np.longdouble("0.1"), np.float32("nan"), np.float64("-inf"), np.complex64(1j)]


def key_pairs():
    for i, j in itertools.combinations(range(len(KEYS)), 2):
        yield ("keys", i, j)


def make_keys(i, j, rng):
    a, b = KEYS[i], KEYS[j]
    kind = (i + j) % 3
    items = [(a, 1), (b, "v")] if (i * j) % 2 else [(b, [2]), (a, None)]
    d = dict(items) if kind == 0 else OrderedDict(items) if kind == 1 else defaultdict(list, items)
    return d


def sparse():
    for fmt in ("csr", "csc", "coo", "bsr", "dia"):
        for cls in ("matrix", "array"):
            for dt in ("?", "i1", "u2", "<i4", ">i4", "i8", "f4", ">f8", "f8", "g", "c8", "c16"):
                for sh in ((0, 0), (0, 3), (3, 0), (1, 1), (4, 6), (6, 4)):
                    yield ("sparse", fmt, cls, dt, sh)


def make_sparse(fmt, cls, dt, sh, rng):
    if dt[0] == ">" :
        dt = dt
    d = np.zeros(sh, dtype=dt)
    for i in range(sh[0]):
        for j in range(sh[1]):
            if rng.random() < 0.4:
                d[i, j] = 1 + i
    return getattr(sp, f"{fmt}_{cls}")(d)


SCALARS = [0, -1, 2**31, 2**63, 2**64, -2**200, 10**308, 0.0, -0.0, 1e-320, float("nan"), float("inf"), -float("inf"), 0.1, 1e22, 123456789.123456789, True, False, None, "", "a\0b", "\u2028", "\ud83d",
           "\U0001f600", "\ud800", "\udc00\ud800", "x" * 70000, "\\u0041", "\"", "\x7f\x80\xff"]


def generator(seed):
    kind, *rest = seed
    rng = random.Random(repr(seed))
    if kind == "array":
        return make_array(*rest, rng)
    if kind == "masked":
        a = make_array(*rest, rng)
        m = np.ma.MaskedArray(a, mask=rng.choice([False, True, np.ma.nomask]) if rng.random() < 0.5 else np.array([rng.random() < 0.5 for _ in range(a.size)], dtype=bool).reshape(a.shape))
        if rng.random() < 0.3 and a.dtype.kind in "iufc":
            m.fill_value = rng.choice([3, 0, 0, 1])
        elif a.dtype.kind in "bUS" and rng.random() < 0.4:
            m.fill_value = {"b": False, "U": "", "S": b""}[a.dtype.kind]
        if rng.random() < 0.2:
            m.harden_mask()
        return m
    if kind == "dtype":
        return np.dtype(rest[0])
    if kind == "keys":
        return make_keys(*rest, rng)
    if kind == "sparse":
        return make_sparse(*rest, rng)
    if kind == "scalar":
        return SCALARS[rest[0]]
    if kind == "npscalar":
        return O.np_scalar(rng)
    if kind == "rng":
        return O.rand_rng(rng)
    if kind == "objarr":
        return O.rand_object_array(rng)
    if kind == "corpus":
        return corpus.make(rest[0])
    if kind == "binary":
        cls, n, pat = rest
        b = {"zeros": lambda: bytes(n), "tail": lambda: (b"ab" * n)[:n - n // 3] + bytes(n // 3), "head": lambda: bytes(n // 2) + b"\xff" * (n - n // 2), "random": lambda: rng.randbytes(n)}[pat]()
        if cls == "array":
            return np.frombuffer(b, dtype="u1").copy()
        if cls == "S":
            return np.frombuffer(b.replace(b"\0", b"z"), dtype="S1").copy()
        if cls == "str":
            return b.decode("latin-1")
        return {"bytes": bytes, "bytearray": bytearray}[cls](b)
    if kind == "deep":
        v = O.supported(rng, 1)
        for _ in range(rest[0]):
            v = rng.choice([lambda: [v], lambda: (v, 1), lambda: {"k": v, 2: None}, lambda: OrderedDict(z=v), lambda: defaultdict(dict, {1.5: v})])()
        return v
    if kind == "wide":
        return rng.choice([lambda: [O.json_scalar(rng) for _ in range(rest[0])], lambda: {i: O.json_scalar(rng) for i in range(rest[0])}, lambda: {f"k{i}": i * 0.5 for i in range(rest[0])},
                           lambda: {O.rand_float(rng) + i for i in range(rest[0])}, lambda: [np.arange(i % 5) for i in range(rest[0] // 4)], lambda: np.array([str(i) for i in range(rest[0])], dtype=object)])()
    return O.supported(rng, rest[1] if len(rest) > 1 else 4)


def one(item):
    seed, n = item
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj = generator(seed)
        try:
            r = repr(obj)[:150]
        except Exception:
            r = type(obj).__name__
        return r, cycles(obj, n)


def seeds(B):
    out = [(("corpus", k), 3) for k in corpus.KEYS if k not in corpus._cls()]
    out += [(s, 2) for s in arrays()] + [(s, 2) for s in dtypes()] + [(s, 2) for s in key_pairs()] + [(s, 2) for s in sparse()]
    out += [(("scalar", i), 2) for i in range(len(SCALARS))]
    simple = [d for d in O.DTYPES if isinstance(d, str) and not d.startswith("V")]
    ma = [("masked", d, s, o) for d in simple for s in SHAPES for o in ("C", "F")]
    out += [(s, 2) for s in (ma if B.thorough else B.rng.sample(ma, min(len(ma), 300)))]
    out += [(("npscalar", i, B.seed), 2) for i in range(B.n(300, 3000))] + [(("rng", i, B.seed), 2) for i in range(B.n(300, 3000))]
    out += [(("objarr", i, B.seed), 2) for i in range(B.n(300, 5000))]
    out += [(("binary", c, n + k, p), 2) for c in ("bytes", "bytearray", "array", "S", "str") for n in (1, 8, 256, 4096, 65536, 1 << 20) + (((1 << 22),) if B.thorough else ()) for k in (-1, 0, 1)
            for p in ("zeros", "tail", "head", "random") if c != "str" or n <= 65536]
    out += [(("deep", d), 2) for d in (1, 5, 10, 15, 20, 30, 40)] + [(("wide", n), 2) for n in (10, 100, 500, 1000, 3000)]
    out += [(("supported", i, 1 + i % 5, B.seed), B.n(2, 4)) for i in range(B.n(5000, 60000))]
    return out


def bounded(B):
    B.rule("exhaustively: arrays of every listed dtype x shape x layout, dtypes, all pairs of dictionary keys, sparse formats x dtypes x shapes; at random: masked arrays, object arrays, scalars, "
           "random generators and nested values of the supported grammar: dumps and loads succeed, the loaded value is equal under the strict comparison (types, key types, order, memory layout), "
           "random generators draw the same numbers, and so it stays when the loaded value is dumped again")
    B.exhaustive.append("dtype list x shape list x layout; pairs of listed keys; sparse format x class x dtype x shape")
    warnings.simplefilter("ignore")
    for it, r in A.isolated(one, seeds(B), timeout=30, chunk=200, procs=8):
        if r[0] == "crash":
            B.fail("crash", f"{it}: {r[1]}", {"seed": it})
            continue
        if r[0] == "exc":
            B.fail("error", f"{it}: {str(r[1])[-400:]}", {"seed": it, "error": str(r[1])[-3000:]})
            continue
        rep, p = r[1]
        B.case(it[0][0], str(it), f"{it}: {rep}")
        if p:
            B.fail(p[0], f"{it}: {rep}: {p[1]}", {"seed": it, "object": rep})
        if B.time_left() < 5:
            break
