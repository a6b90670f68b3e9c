"""Archives made by hand: templates of every node kind and protocol with arbitrary names in every slot, canaries, isolated workers."""
from __future__ import annotations
import base64, copy, importlib, io, json, os, pickle, signal, sys, time, types, zipfile
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cache = {}


def data(name):
    if name not in _cache:
        _cache[name] = json.load(open(os.path.join(HERE, "data", name + ".json")))
    return _cache[name]


def mem(d):
    return {k: base64.b64decode(v) for k, v in d.items()}


def current():
    from skops.io._protocol import PROTOCOL
    return PROTOCOL


def pack(state, members=None, protocol=None, version="0.12.dev0", extra=None, compression=zipfile.ZIP_STORED):
    s = dict(state)
    s["protocol"] = current() if protocol is None else protocol
    s["_skops_version"] = version
    s.update(extra or {})
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w", compression) as z:
        for k, v in (members or {}).items():
            z.writestr(zipfile.ZipInfo(k), v)
        z.writestr(zipfile.ZipInfo("schema.json"), json.dumps(s))
    return bio.getvalue()


class Ids:
    def __init__(self):
        self.n = 100000

    def __call__(self):
        self.n += 1
        return self.n


new_id = Ids()


def J(v):
    return {"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": json.dumps(v), "is_json": True, "__id__": new_id()}


def L(*xs, loader="ListNode", cls="list"):
    return {"__class__": cls, "__module__": "builtins", "__loader__": loader, "content": list(xs), "__id__": new_id()}


def T(*xs):
    return L(*xs, loader="TupleNode", cls="tuple")


def TY(m, c):
    return {"__class__": c, "__module__": m, "__loader__": "TypeNode", "__id__": new_id()}


def D(**kw):
    return {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "key_types": L(*[TY("builtins", "str") for _ in kw]),
            "content": dict(kw), "__id__": new_id()}


def FN(m, c):
    return {"__class__": c, "__module__": m, "__loader__": "FunctionNode", "__id__": new_id()}


def FN0(m, c):
    return {"__class__": "function", "__module__": "builtins", "__loader__": "FunctionNode", "content": {"module_path": m, "function": c}, "__id__": new_id()}


def OB(m, c, attrs=None):
    return {"__class__": c, "__module__": m, "__loader__": "ObjectNode", "content": attrs, "__id__": new_id()}


def RED(m, c, *args):
    return {"__class__": c, "__module__": m, "__loader__": "ConstructorFromReduceNode", "content": T(*args), "__id__": new_id()}


def ME(obj, func, m="builtins", c="method"):
    return {"__class__": c, "__module__": m, "__loader__": "MethodNode", "content": {"func": func, "obj": obj}, "__id__": new_id()}


def PA(func, *args, **kw):
    return {"__class__": "partial", "__module__": "functools", "__loader__": "PartialNode",
            "content": {"func": func, "args": T(*args), "kwds": D(**kw), "namespace": D()}, "__id__": new_id()}


def CACHED(i):
    return {"__class__": "dict", "__module__": "builtins", "__loader__": "CachedNode", "__id__": i}


def walk(state, path=()):
    """[(path, node dict)] of all nodes of a schema, root first"""
    if isinstance(state, dict):
        if "__loader__" in state:
            yield path, state
        for k, v in state.items():
            yield from walk(v, path + (k,))
    elif isinstance(state, list):
        for i, v in enumerate(state):
            yield from walk(v, path + (i,))


def leaves(state, path=()):
    """[(path, value)] of every leaf"""
    if isinstance(state, dict):
        for k, v in state.items():
            yield from leaves(v, path + (k,))
    elif isinstance(state, list):
        for i, v in enumerate(state):
            yield from leaves(v, path + (i,))
    else:
        yield path, state


def get(state, path):
    for p in path:
        state = state[p]
    return state


def put(state, path, value):
    state = copy.deepcopy(state)
    if not path:
        return value
    get(state, path[:-1])[path[-1]] = value
    return state


def fresh_ids(state):
    """the same schema with new ids (sharing inside is kept)"""
    m = {}

    def f(s):
        if isinstance(s, dict):
            return {k: (m.setdefault(v, new_id()) if k == "__id__" else f(v)) for k, v in s.items()}
        return [f(x) for x in s] if isinstance(s, list) else s
    return f(s=state)


def templates():
    """[(label, loader, protocol, state, members)]: one valid archive per node kind, form and protocol"""
    out = []
    for kind, t in data("templates").items():
        out.append((kind, kind.split(":")[0], current(), t["state"], mem(t["members"])))
    out.append(("ConstructorFromReduceNode", "ConstructorFromReduceNode", current(), RED("numpy", "int64", J(3)), {}))
    out.append(("ListNode:cached", "CachedNode", current(), (lambda a: L(a, CACHED(a["__id__"])))(L(J(1))), {}))
    out.append(("ObjectNode:attrs", "ObjectNode", current(), OB("sklearn.linear_model._logistic", "LogisticRegression", D(C=J(1.0))), {}))
    out.append(("TypeNode:ufunc", "TypeNode", current(), TY("numpy", "float64"), {}))
    out.append(("FunctionNode:v0", "FunctionNode", 0, FN0("numpy", "add"), {}))
    gen = data("templates")["RandomGeneratorNode"]
    out.append(("RandomGeneratorNode:v1", "RandomGeneratorNode", 1, strip_seed(gen["state"]), mem(gen["members"])))
    out.append(("RandomGeneratorNode:v0", "RandomGeneratorNode", 0, strip_seed(gen["state"], raw=True), mem(gen["members"])))
    return out


def unjson(node):
    """plain value of a node made of JsonNodes and containers"""
    l = node["__loader__"]
    if l == "JsonNode":
        return json.loads(node["content"])
    if l == "DictNode":
        return {k: unjson(v) for k, v in node["content"].items()}
    if l in ("ListNode", "TupleNode"):
        return [unjson(x) for x in node["content"]]
    return None


def strip_seed(state, raw=False):
    s = copy.deepcopy(state)
    c = {"bit_generator": s["content"]["bit_generator"]}
    if raw:
        c["bit_generator"] = unjson(c["bit_generator"])
    s["content"] = c
    return s


def child_paths(state):
    """positions below the root that hold a node"""
    return [p for p, _ in walk(state) if p]


# ------------------------------------------------------------------ canaries
LEDGER = []
CAN_SRC = '''
import verif_ledger
verif_ledger.LEDGER.append(("import", __name__))
def func(*a, **k):
    verif_ledger.LEDGER.append(("call", __name__ + ".func"))
    return 7
class Cls:
    def __new__(cls, *a, **k):
        verif_ledger.LEDGER.append(("call", __name__ + "." + cls.__name__))
        return object.__new__(cls)
    def __setstate__(self, s):
        verif_ledger.LEDGER.append(("call", __name__ + ".Cls"))
        self.__dict__.update(s if isinstance(s, dict) else {"s": s})
    def meth(self, *a):
        verif_ledger.LEDGER.append(("call", __name__ + ".Cls.meth"))
        return 8
    def __call__(self, *a, **k):
        verif_ledger.LEDGER.append(("call", __name__ + ".Cls.__call__"))
        return 9
    @property
    def prop(self):
        verif_ledger.LEDGER.append(("call", __name__ + ".Cls.prop"))
        return 10
class Sub(Cls): pass
class Oth:
    def meth(self): pass
    prop = 3
class DictSub(dict):
    def __new__(cls, *a, **k):
        verif_ledger.LEDGER.append(("call", __name__ + ".DictSub"))
        return dict.__new__(cls)
obj = Cls.__new__
'''


def install_canaries(root, n=3):
    """canary modules vpcan0.., importable but not imported; what they do is recorded in LEDGER"""
    m = types.ModuleType("verif_ledger")
    m.LEDGER = LEDGER
    sys.modules["verif_ledger"] = m
    d = os.path.join(root, "canaries")
    os.makedirs(d, exist_ok=True)
    for i in range(n):
        with open(os.path.join(d, f"vpcan{i}.py"), "w") as f:
            f.write(CAN_SRC)
    os.makedirs(os.path.join(d, "vppkg"), exist_ok=True)
    for nm in ("__init__", "sub"):
        with open(os.path.join(d, "vppkg", nm + ".py"), "w") as f:
            f.write(CAN_SRC + ("class Only(Cls): pass\n" if nm == "__init__" else ""))
    if d not in sys.path:
        sys.path.append(d)
    importlib.invalidate_caches()


def reset_canaries():
    LEDGER.clear()
    for k in [k for k in sys.modules if k.startswith(("vpcan", "vppkg"))]:
        del sys.modules[k]
    sys.modules["vplazy"] = LAZY


class LazyCls:
    pass


LazyCls.__module__ = "vplazy"
LAZY = types.ModuleType("vplazy")     # imported already, finds its attributes when they are asked for


def _lazy(name):
    if name == "LazyCls":
        LEDGER.append(("resolve", "vplazy.LazyCls"))
        return LazyCls
    raise AttributeError(name)


LAZY.__getattr__ = _lazy


def canary_modules():
    return {k for k in sys.modules if k.startswith(("vpcan", "vppkg"))}


class Pwn:
    """its pickle calls vpcan2.func"""
    def __reduce__(self):
        m = sys.modules.get("vpcan2") or importlib.import_module("vpcan2")
        return (m.func, ())


def pickle_payload():
    p = pickle.dumps(Pwn())
    reset_canaries()
    return p


def npy_payload():
    a = np.empty(1, dtype=object)
    a[0] = Pwn()
    b = io.BytesIO()
    np.save(b, a, allow_pickle=True)
    reset_canaries()
    return b.getvalue()


def npz_payload():
    a = np.empty(1, dtype=object)
    a[0] = Pwn()
    b = io.BytesIO()
    np.savez(b, data=a, indices=np.array([0]), indptr=np.array([0, 1]), shape=np.array([1, 1]), format=np.array(b"csr"), row=a, col=a)
    reset_canaries()
    return b.getvalue()


# ------------------------------------------------------------------ hostile archives
POOL = [("vpcan0", "Cls"), ("vpcan1", "func"), ("os", "system"), ("builtins", "eval"), ("vppkg.sub", "Cls"), ("vppkg", "sub.Cls"), ("numpy", "load"),
        ("builtins", "getattr"), ("operator", "methodcaller"), ("sklearn.utils", "Bunch"), ("subprocess", "Popen"), ("builtins", "object"), ("posix", "getcwd"),
        ("numpy.testing", "assert_equal"), ("builtins", "map"), ("vpcan0", "DictSub"),
        ("numpy.ma.testutils", "assert_equal"), ("numpy.typing.mypy_plugin", "plugin"), ("sklearn.experimental.enable_halving_search_cv", "x" * 60), ("vpcan1", "_priv\u00e9.func"),
        ("vplazy", "LazyCls"), ("vppkg.sub", "Only")]


def hostile_nodes(m, c):
    """nodes that name (m, c) in every way, to be put into child positions"""
    yield "type", TY(m, c)
    yield "function", FN(m, c)
    yield "object", OB(m, c, D(a=J(1)))
    yield "object0", OB(m, c)
    yield "reduce", RED(m, c, J(1))
    yield "partial", PA(FN(m, c), J(1))
    yield "method", ME(OB(m, c), "meth")
    yield "methodtype", ME(TY(m, c), "meth")
    yield "dict", dict(D(a=J(1)), __module__=m, __class__=c)
    yield "json", dict(J(1), __module__=m, __class__=c)
    yield "list", dict(L(J(1)), __module__=m, __class__=c)


def slot_archives(pool=POOL, kinds=None):
    """(label, state, members, protocol, (m, c)): every name-bearing slot of every template filled with every pair of the pool"""
    for label, loader, proto, state, members in templates():
        for path, node in walk(state):
            if "__module__" in node:
                for m, c in pool:
                    yield f"{label}:{'/'.join(map(str, path))}<-{m}.{c}", put(state, path, dict(node, __module__=m, __class__=c)), members, proto, (m, c)
            if node.get("__loader__") == "MethodNode":
                for f in ("meth", "__class__", "__init__", "prop", "__reduce__", "set_params", "__getattribute__", "predict" * 9, "", "a.b"):
                    yield f"{label}:func<-{f}", put(state, path + ("content", "func"), f), members, proto, None
                    yield f"{label}:canary func<-{f}", put(state, path + ("content",), {"func": f, "obj": OB("vpcan0", "Cls")}), members, proto, ("vpcan0", "Cls")
            if isinstance(node.get("content"), dict) and "module_path" in node["content"]:
                for m, c in pool:
                    yield f"{label}:v0<-{m}.{c}", put(state, path + ("content",), {"module_path": m, "function": c}), members, proto, (m, c)


def nest_archives(pool=POOL[:5]):
    """every child position of every template replaced by every hostile node"""
    for label, loader, proto, state, members in templates():
        for path in child_paths(state):
            for m, c in pool:
                for how, node in hostile_nodes(m, c):
                    yield f"{label}:{'/'.join(map(str, path))}<={how} {m}.{c}", put(state, path, node), members, proto, (m, c)


def string_archives():
    """every other string leaf replaced by something that names code"""
    evil = ["os.system", "vpcan0.func", "__class__", "system", "vpcan0", "../../x", "/etc/hostname", "func", '"vpcan0"', '"__class__"', "numpy", "json", ""]
    for label, loader, proto, state, members in templates():
        for path, v in leaves(state):
            if isinstance(v, str) and path[-1] not in ("__module__", "__class__"):
                for e in evil + list(members)[:1]:
                    if e != v:
                        yield f"{label}:{'/'.join(map(str, path))}={e}", put(state, path, e), members, proto, None


def payload_archives():
    """members replaced by pickles"""
    for label, loader, proto, state, members in templates():
        for k in members:
            for nm, p in (("pickle", pickle_payload()), ("npy", npy_payload()), ("npz", npz_payload())):
                yield f"{label}:{k}:{nm}", state, dict(members, **{k: p}), proto, None


def loader_archives():
    """the content of one kind read by another kind's loader"""
    ls = sorted({l for _, l, *_ in templates()})
    for label, loader, proto, state, members in templates():
        for l in ls:
            if l != loader:
                yield f"{label} as {l}", dict(state, __loader__=l), members, proto, None
                yield f"{label} as {l} of vpcan0.Cls", dict(state, __loader__=l, __module__="vpcan0", __class__="Cls"), members, proto, ("vpcan0", "Cls")


def cached_archives():
    """CachedNodes that name something else than what they refer to, before and after it"""
    for m, c in POOL[:3]:
        for how, node in hostile_nodes(m, c):
            i = node["__id__"]
            yield f"cached {how} {m}.{c}", L(node, CACHED(i)), {}, None, (m, c)
            yield f"same id {how} {m}.{c}", L(dict(J(1), __id__=i), node), {}, None, (m, c)
            yield f"same id rev {how} {m}.{c}", L(node, dict(J(1), __id__=i)), {}, None, (m, c)
            yield f"same id list {how} {m}.{c}", L(dict(L(J(1)), __id__=i), node, CACHED(i)), {}, None, (m, c)
            yield f"cached first {how} {m}.{c}", L(CACHED(i), node), {}, None, (m, c)
            yield f"cached dict {how} {m}.{c}", L(D(a=node), dict(CACHED(i), __module__="numpy", __class__="ndarray")), {}, None, (m, c)
            yield f"self id {how} {m}.{c}", dict(L(node, CACHED(77)), __id__=77), {}, None, (m, c)


def alias_archives():
    """nodes that refer to an object under the name of another class or kind"""
    for m, c, d in (("vpcan0", "Cls", "Oth"), ("vpcan0", "Oth", "Cls"), ("vpcan0", "Cls", "DictSub"), ("sklearn.linear_model._logistic", "LogisticRegression", "Oth")):
        for func in ("meth", "prop", "predict", "fit", "__init__"):
            for mk in (lambda: OB(m, c), lambda: TY(m, c), lambda: OB(m, c, D(a=J(1)))):
                o = mk()
                ref = dict(CACHED(o["__id__"]), __module__=m, __class__=d)
                yield f"method {func} of {c} called {d}", L(o, ME(ref, func)), {}, None, (m, c)
                yield f"method {func} of {c} called vpcan1.{d}", L(o, ME(dict(ref, __module__="vpcan1"), func)), {}, None, (m, c)
                yield f"partial of {c} called {d}", L(o, PA(dict(ref), J(1))), {}, None, (m, c)
                yield f"reduce of {c} called {d}", L(o, RED(m, d, ref)), {}, None, (m, c)
                yield f"method {func} of a list called {d}", L(ME(dict(L(J(1)), __module__=m, __class__=d), func)), {}, None, (m, c)
                yield f"method {func} of {c} by its id", L(o, ME(dict(J(1), __module__=m, __class__=d, __id__=o["__id__"]), func)), {}, None, (m, c)


def big_archives():
    """wide and deep archives whose only untrusted name is at the end"""
    c = lambda: TY("vpcan0", "Cls")
    for n in (40, 150, 300, 1200):
        fill = [J(i) for i in range(n)]
        yield f"list of {n}", L(*fill, c()), {}, None, ("vpcan0", "Cls")
        yield f"tuple of {n}", T(c(), *fill), {}, None, ("vpcan0", "Cls")
        yield f"dict of {n}", D(**{f"k{i}": x for i, x in enumerate(fill + [c()])}), {}, None, ("vpcan0", "Cls")
        yield f"dict of lists {n}", D(**{f"k{i}": L(x) for i, x in enumerate(fill + [c()])}), {}, None, ("vpcan0", "Cls")
        yield f"object of {n}", OB("vpcan1", "Cls", D(**{f"k{i}": x for i, x in enumerate(fill + [c()])})), {}, None, ("vpcan0", "Cls")
        yield f"partial of {n}", PA(FN("numpy", "add"), *fill, c()), {}, None, ("vpcan0", "Cls")
        yield f"names {n}", L(*[TY("vpcan0", f"C{i}") for i in range(n)], c()), {}, None, ("vpcan0", "Cls")
    for n in (10, 60, 110):
        x = c()
        for i in range(n):
            x = [L(x), T(x), D(a=x), OB("vpcan1", "Cls", D(a=x))][i % 4]
        yield f"{n} deep", x, {}, None, ("vpcan0", "Cls")
    shared = L(J(1))
    yield "shared", L(shared, *[CACHED(shared["__id__"]) for _ in range(300)], c()), {}, None, ("vpcan0", "Cls")


# ------------------------------------------------------------------ isolated workers
def isolated(fn, items, timeout=20.0, chunk=64, procs=6, setup=None):
    """fn(item) in forked children; yields (item, ('ok', result) | ('exc', text) | ('crash', why)). A child that dies or
    hangs is charged to the item it was working on; fn's result must be picklable."""
    items = list(items)
    pending = [list(range(i, min(i + chunk, len(items)))) for i in range(0, len(items), chunk)]
    running, again = {}, set()
    import select
    try:
        while pending or running:
            while pending and len(running) < procs:
                todo = pending.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        signal.alarm(0)
                        def send(msg):
                            p = pickle.dumps(msg)
                            p = len(p).to_bytes(8, "big") + p
                            while p:
                                p = p[os.write(w, p):]
                        if setup:
                            setup()
                        for i in todo:
                            send(("start", i))
                            try:
                                res = ("ok", fn(items[i]))
                            except BaseException as ex:  # noqa
                                import traceback
                                res = ("exc", f"{type(ex).__name__}: {ex}"[:500] + "\n" + traceback.format_exc()[-1500:])
                            send(("done", i, res))
                    except BaseException:  # noqa
                        code = 3
                    os._exit(code)
                os.close(w)
                running[r] = dict(pid=pid, todo=todo, buf=b"", cur=None, done=set(), t=time.time())
            ready, _, _ = select.select(list(running), [], [], 0.5)
            for r in ready:
                st = running[r]
                b = os.read(r, 1 << 20)
                if b:
                    st["buf"] += b
                    while len(st["buf"]) >= 8 and len(st["buf"]) >= 8 + int.from_bytes(st["buf"][:8], "big"):
                        n = 8 + int.from_bytes(st["buf"][:8], "big")
                        msg = pickle.loads(st["buf"][8:n])
                        st["buf"] = st["buf"][n:]
                        st["t"] = time.time()
                        if msg[0] == "start":
                            st["cur"] = msg[1]
                        else:
                            st["done"].add(msg[1])
                            yield items[msg[1]], msg[2]
                else:
                    _, status = os.waitpid(st["pid"], 0)
                    os.close(r)
                    del running[r]
                    rest = [i for i in st["todo"] if i not in st["done"]]
                    if rest:
                        cur = st["cur"] if st["cur"] in rest else rest[0]
                        why = f"killed by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit {os.WEXITSTATUS(status)}"
                        if os.environ.get("ISODBG"):
                            print("ISO", why, len(st["buf"]), st["buf"][:200], st["cur"], len(rest), len(st["todo"]), file=sys.stderr)
                        if st.get("hang"):
                            why = f"no result within {timeout} s"
                        rest.remove(cur)
                        if cur in again:
                            yield items[cur], ("crash", why)
                        else:
                            # a death is only charged to an item that dies again when it is run alone
                            again.add(cur)
                            pending.append([cur])
                        if rest:
                            pending.insert(0, rest)
            now = time.time()
            for r, st in list(running.items()):
                if now - st["t"] > timeout and not st.get("hang"):
                    st["hang"] = True
                    os.kill(st["pid"], signal.SIGKILL)
    finally:
        for r, st in running.items():
            try:
                os.kill(st["pid"], signal.SIGKILL)
                os.waitpid(st["pid"], 0)
                os.close(r)
            except OSError:
                pass
