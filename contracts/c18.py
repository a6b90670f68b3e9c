"""C18 A failed dump leaves the destination untouched."""
import random
from contracts.io_common import *

TRUSTED = ["zipfile.ZipFile writes only to the object or path it was opened with", "json.dumps writes nowhere"]
ASSUMPTIONS = ["failures of the operating system while the finished archive is written (disk full, permission) are outside the property: it speaks of objects that cannot be persisted"]
EXPLANATION = ("proved: on every path of dump/dumps on which get_state, the archive writer or json.dumps raises, the call raises and the trace of operations on the destination is "
               "empty; bounded: one unsupported or raising element substituted at every position of random structures, all sinks.")


def _setup(eng, st, dest):
    from skops.io import _persist as ps, _utils as us
    from pyvc import fsmodel
    fsmodel.install(eng, st)

    def fail(s, exc=Exception):
        s2 = s.fork()
        s2.ghost["failed"] = True
        return s2, Raise(ExcV(exc, (), False))

    def get_state(e, s, a, k):
        yield fail(s)
        yield s, e.alloc(s, DictCell((("s", e.items_of(SVal(z3.Const(e.fresh("state"), V), ("dict", "str", None)))),)))
    for f in {getattr(ps, "get_state", None), us.get_state} - {None}:
        eng.contracts[f] = get_state
    for n, f in vars(us.SaveContext).items():
        if callable(f) and n not in ("__init__", "__eq__", "__repr__", "__hash__"):
            eng.contracts[f] = lambda e, s, a, k: iter([(s, Conc(None))])
    eng.ext[us.SaveContext] = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(us.SaveContext, {"protocol": Conc(us.SaveContext(None).protocol if False else 2), "zip_file": k.get("zip_file", a[0] if a else None)})))])

    def dumps(e, s, a, k):
        yield fail(s, TypeError)
        yield s, SStr(V.s(e.ufV("json.dumps", e.reify(s, a[0]))))
    eng.ext[json.dumps] = dumps
    w = eng.attr_overrides[("zip", "writestr()")]

    def writestr(e, s, v, a, k):
        yield fail(s)
        yield from w(e, s, v, a, k)
    eng.attr_overrides[("zip", "writestr()")] = writestr
    obj = SVal(z3.Const("obj", V), ("obj",))
    if dest == "path":
        f = SVal(z3.Const("dest", V), ("path", None))
    elif dest == "file":
        f = SVal(z3.Const("dest", V), ("file", SVal(z3.Const("name", V), ("path", None)), Conc("wb"), Conc(None)))
    else:
        f = None
    return ps, obj, f


def u_dump(dest):
    def mk(eng):
        from pyvc import fsmodel
        st = init_state(eng)
        ps, obj, f = _setup(eng, st, dest)
        fn = ps.dumps if dest == "bytes" else ps.dump
        comp, lvl = eng.sym("compression", "int", st), SVal(z3.Const("level", V), None)
        n = fails = oks = 0
        for s, v in eng.call_closure(st.fork(), eng.closure_of(fn), [obj] + ([f] if f is not None else []), {"compression": comp, "compresslevel": lvl}):
            if not eng.feasible(s):
                continue
            n += 1
            segs = eng.norm_segs(s, fsmodel.trace(s))
            if s.ghost.get("failed"):
                fails += 1
                ok = isinstance(v, Raise)
                eng.oblige_bool(f"{dest}#{n}.failure raises", ok, "" if ok else f"a failure to persist is swallowed: returns {show(eng, s, v)}")
                eng.oblige_bool(f"{dest}#{n}.destination untouched", not segs, "" if not segs else f"operations before the failure: {fsmodel.show_trace(eng, s)}")
            elif isinstance(v, Raise):
                eng.oblige_bool(f"{dest}#{n}.other errors leave the destination untouched", not segs, "" if not segs else f"{v}: {fsmodel.show_trace(eng, s)}")
            else:
                oks += 1
        eng.oblige_bool(f"{dest}#reachable", fails > 0 and oks > 0, kind="vacuity")
    return mk


def prove(P):
    for d in ("path", "file", "bytes"):
        P.unit(f"dump to {d}: failure leaves no trace", "dumps" if d == "bytes" else "dump", u_dump(d))


def guards(P):
    def u(eng):
        from pyvc import fsmodel
        st = init_state(eng)
        ps, obj, f = _setup(eng, st, "path")

        def bad_dump(obj, file):
            with open(file, "wb") as f:
                f.write(ps.dumps(obj))
        for s, v in eng.call_closure(st.fork(), eng.closure_of(bad_dump), [obj, f], {}):
            if s.ghost.get("failed"):
                eng.oblige_bool("guard", not fsmodel.trace(s))
    P.unit("guard: destination opened first", "dump", u)


# ------------------------------------------------------------------ bounded
class Boom(Exception):
    pass


class RaisingGetstate:
    def __getstate__(self):
        raise Boom("getstate")


class RaisingReduce:
    def __reduce__(self):
        raise Boom("reduce")

    def __reduce_ex__(self, p):
        raise Boom("reduce")


class RaisingDict:
    @property
    def __dict__(self):
        raise Boom("dict")

    def __getstate__(self):
        raise Boom("getstate")


class Box:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class BadState:
    """state with a key that json cannot hold"""
    def __getstate__(self):
        return {"a": 1, ("t",): RaisingGetstate()}


def bad_elements():
    import scipy.sparse as sp
    out = {"getstate": RaisingGetstate(), "reduce": RaisingReduce(), "dict": RaisingDict(), "generator": (i for i in range(3)),
           "dok": sp.dok_matrix(np.eye(2)), "lil": sp.lil_matrix(np.eye(2)), "partial": __import__("functools").partial(print, RaisingGetstate()),
           "badstate": BadState(), "module": np}
    return out


def structure(rng, depth, size):
    """(builder(hole values) -> object, number of holes): a structure whose leaves may be substituted"""
    leaves = []

    def build(d):
        r = rng.random()
        if d == 0 or r < 0.25:
            i = len(leaves)
            leaves.append(rng.choice([1, "s", 2.5, None, True, "x" * size, np.arange(size), np.float32(1), b"bytes" * size, range(3), np.random.RandomState(0)]))
            return lambda sub: sub.get(i, leaves[i])
        kids = [build(d - 1) for _ in range(rng.randint(1, 3))]
        kind = rng.choice(["list", "tuple", "dict", "box", "objarr", "odict", "partial", "pipe", "set", "deep"])
        def f(sub):
            vs = [k(sub) for k in kids]
            if kind == "list": return vs
            if kind == "tuple": return tuple(vs)
            if kind == "dict": return {f"k{j}": v for j, v in enumerate(vs)}
            if kind == "odict":
                from collections import OrderedDict
                return OrderedDict((f"k{j}", v) for j, v in enumerate(vs))
            if kind == "box": return Box(**{f"a{j}": v for j, v in enumerate(vs)})
            if kind == "objarr":
                a = np.empty(len(vs), dtype=object)
                for j, v in enumerate(vs): a[j] = v
                return a
            if kind == "partial":
                import functools
                return functools.partial(print, *vs)
            if kind == "pipe":
                from sklearn.preprocessing import FunctionTransformer
                return FunctionTransformer(kw_args={f"k{j}": v for j, v in enumerate(vs)})
            if kind == "set":
                try:
                    return {v for v in vs}
                except TypeError:
                    return vs
            return [[[v]] for v in vs]
        return f
    b = build(depth)
    return b, leaves


class Rec(io.BytesIO):
    """file object that counts what it receives"""
    def __init__(self):
        super().__init__()
        self.calls = []

    def write(self, b):
        self.calls.append(len(bytes(b)))
        return super().write(b)

    def truncate(self, *a):
        self.calls.append("truncate")
        return super().truncate(*a)


class Pipe:
    """minimal write-only sink"""
    def __init__(self):
        self.calls = []

    def write(self, b):
        self.calls.append(bytes(b))
        return len(self.calls[-1])


def try_sinks(B, mk, what, rep, root, compression):
    """dump of mk() must fail on every sink and leave it alone; returns False when it can be dumped"""
    from pathlib import Path
    from skops.io import dump, dumps
    try:
        r = dumps(mk(), compression=compression)
    except Exception:
        pass
    else:
        return False
    d = os.path.join(root, "d")
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    with open(os.path.join(d, "old.skops"), "wb") as f:
        f.write(b"previous content" * 50)
    with open(os.path.join(d, "empty.skops"), "wb"):
        pass
    os.chmod(os.path.join(d, "empty.skops"), 0o640)
    before = snapshot(d)
    for name, dest in (("existing path", os.path.join(d, "old.skops")), ("existing Path", Path(d) / "old.skops"), ("existing empty", Path(d) / "empty.skops"),
                       ("new path", os.path.join(d, "new.skops")), ("new Path", Path(d) / "sub" / "new.skops")):
        try:
            dump(mk(), dest, compression=compression)
            B.fail("no-error", f"dump of {what} to {name} did not raise although dumps does", rep)
        except Exception:
            pass
        df = diff(before, snapshot(d))
        B.check(not df, "path", lambda: f"failed dump of {what} to {name}: {df}", rep)
        if df:
            return True
    for name, fo in (("BytesIO", Rec()), ("write-only object", Pipe())):
        try:
            dump(mk(), fo, compression=compression)
            B.fail("no-error", f"dump of {what} to {name} did not raise although dumps does", rep)
        except Exception:
            pass
        B.check(not fo.calls, "fileobj", lambda: f"failed dump of {what} sent {fo.calls} to {name}", rep)
    p = os.path.join(d, "old.skops")
    for mode in ("r+b", "ab"):
        with open(p, mode) as fo:
            fo.seek(7)
            try:
                dump(mk(), fo, compression=compression)
                B.fail("no-error", f"dump of {what} to an open file did not raise although dumps does", rep)
            except Exception:
                pass
            pos = fo.tell()
        B.check(pos == 7, "fileobj-pos", lambda: f"failed dump of {what} moved an open file ({mode}) to {pos}", rep)
        df = diff(before, snapshot(d))
        B.check(not df, "fileobj-bytes", lambda: f"failed dump of {what} to an open file ({mode}): {df}", rep)
    return True


def bounded(B):
    rng = B.rng
    root = os.getcwd()
    bads = bad_elements()
    failing = {}
    zips = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]
    for k, v in bads.items():
        failing[k] = try_sinks(B, lambda: v, k, {"element": k}, root, 0)
        B.case("elements", k, k)
    for must in ("getstate", "reduce"):
        B.check(failing[must], "accepted", f"an object whose state cannot be obtained ({must}) was dumped", {"element": must})
    bads = {k: v for k, v in bads.items() if failing[k]}
    B.rule("random structures (lists, tuples, dicts, sets, objects, object arrays, partials, estimators; leaves up to 100 kB) with one failing element substituted at every position; "
           "sinks: existing/new str path and Path, empty file, BytesIO, write-only object, r+ and append files; all compression methods")
    for i in range(B.n(40, 500)):
        if B.time_left() < 15:
            break
        b, leaves = structure(rng, rng.randint(1, 4), rng.choice([1, 10, 5000, 100000]))
        pos = list(range(len(leaves)))
        if len(pos) > 6:
            pos = sorted({0, len(leaves) - 1, *rng.sample(pos, 4)})
        for p in pos:
            k = rng.choice(sorted(bads))
            comp = rng.choice(zips)
            rep = {"structure": repr(b({}))[:2000], "position": p, "element": k, "compression": comp}
            ok = try_sinks(B, lambda: b({p: bads[k]}), f"structure with {k} at {p}", rep, root, comp)
            B.case("structures", (i, p, k), rep["structure"][:200])
    B.rule("faults injected at every call of get_state/writestr/json.dumps during the dump of a large structure")
    from skops.io import dump, dumps, _persist
    import skops.io._utils as us
    obj = {"a": [np.arange(30), {"b": b"xyz", "c": (1, 2.5, None)}], "e": __import__("sklearn.pipeline", fromlist=["x"]).make_pipeline(
        __import__("sklearn.preprocessing", fromlist=["x"]).StandardScaler().fit(np.random.rand(20, 3)))}
    targets = [("ZipFile.writestr", zipfile.ZipFile, "writestr"), ("ZipFile.close", zipfile.ZipFile, "close"), ("json.dumps", json, "dumps"), ("numpy.save", np, "save")]
    for name, owner, attr in targets:
        orig = getattr(owner, attr)
        k = 0
        while k < 12:
            count = [0]
            def wrapped(*a, **kw):
                count[0] += 1
                if count[0] == k + 1:
                    raise Boom(name)
                return orig(*a, **kw)
            setattr(owner, attr, wrapped)
            try:
                count[0] = 0
                def mk():
                    count[0] = 0
                    return obj
                did = try_sinks(B, mk, f"fault in call {k + 1} of {name}", {"fault": name, "call": k + 1}, root, 0)
            finally:
                setattr(owner, attr, orig)
            B.case("faults", (name, k))
            if not did:
                break
            k += 1
    B.rule("after a failed dump the same object, repaired, dumps and loads")
    from skops.io import loads
    o = {"x": [1, 2, RaisingGetstate()]}
    for _ in range(3):
        try:
            dumps(o)
        except Boom:
            pass
    o["x"].pop()
    B.check(loads(dumps(o)) == o, "after", "dumping after a failure is wrong", {})
    B.case("after failure", 1)
