"""C19 Malformed archives fail cleanly."""
from __future__ import annotations
import base64, contextlib, copy, hashlib, io, json, os, random, sys, time, warnings, zipfile, zlib
import numpy as np
from contracts import archives as A, load_common as L

LEVEL = "other"
NOTE = ("proved for all archives: the loading code itself terminates (each node is visited and built once, nesting and size are limited), raises only subclasses of Exception, and neither writes process-wide state nor "
        "files (effect contracts of every node class and of load/loads/get_untrusted_types/visualize). That native code (numpy, scipy, scikit-learn extension types) survives malformed values is bounded only: stacked mutations in isolated workers")
TRUSTED = ["numpy.load(allow_pickle=False), scipy.sparse.load_npz, constructors and __setstate__ of library types neither crash, hang nor change process-wide state (bounded evaluation only)",
           "zipfile and json raise ordinary exceptions"]
ASSUMPTIONS = ["imports of trusted modules have no effect on the process state but sys.modules", "MemoryError and RecursionError are ordinary exceptions"]
EXPLANATION = ("For every node class the constructor, verdict, text and construct() are executed symbolically on an arbitrary json state: every raised exception is a subclass of Exception; every call of a fixed function is one of those known to leave the "
               "process alone; files are only read from the archive. _check_nesting bounds depth and size of what is built (contract over its children), the steps of get_unsafe_set and walk_tree visit each node's children once, so that all loops end.")
BUDGET = {"quick": 110, "thorough": 900}
# modules whose functions change the process
STATEFUL = {"os", "posix", "sys", "signal", "random", "numpy.random", "locale", "warnings", "threading", "subprocess", "shutil", "tempfile", "atexit", "gc", "resource", "faulthandler", "logging", "importlib", "multiprocessing"}


def stateful(f):
    import types
    m = getattr(f, "__module__", None) or getattr(type(getattr(f, "__self__", None)), "__module__", None) or ""
    s = getattr(f, "__self__", None)
    if isinstance(s, types.ModuleType):
        m = s.__name__
    if isinstance(s, (np.random.RandomState,)):
        return True     # the functions of numpy.random
    if isinstance(f, type) or f is sys.getrecursionlimit:
        return False
    if m.startswith("numpy") and getattr(f, "__name__", "") in ("seterr", "seterrcall", "set_printoptions", "setbufsize", "seed", "set_state", "set_bit_generator"):
        return True
    return m in STATEFUL or m.split(".")[0] in STATEFUL and m != "importlib"


def u_clean(cls):
    """building a node, asking for its verdict, name and text, and constructing its object raises only ordinary exceptions and
    calls nothing that changes the process or writes a file"""
    def mk(eng):
        from contracts import nodeproof as N
        from pyvc.values import Raise, Conc
        out, state, ctx, T, ev = N.instances(eng, cls, "T")
        n = bad = 0
        events = list(ev)
        raised = [("__init__", s, v) for s, v in eng.init_raised]
        for s, v in out:
            for meth in ("is_self_safe", "_get_audited_name", "format", "construct"):
                eng.policy.events.clear()
                for s1, f in eng.getattr(s.fork(), v, meth):
                    for s2, r in ([(s1, f)] if isinstance(f, Raise) else eng.call(s1, f, [], {})):
                        if not eng.feasible(s2):
                            continue
                        n += 1
                        if isinstance(r, Raise):
                            raised.append((meth, s2, r))
                        ops = N.outside_ops(eng, s2)
                        if ops != N.outside_ops(eng, s) and any(w in str(ops) for w in ("write", "open(", "unlink", "mkdir", "rename")):
                            bad += 1
                            eng.oblige_bool(f"{N.label(cls)}.{meth} only reads the archive #{bad}", False, str(ops)[:300])
                events += list(eng.policy.events)
        for meth, s, r in raised:
            c = r.exc.cls
            if not (isinstance(c, type) and issubclass(c, Exception)):
                bad += 1
                eng.oblige_bool(f"{N.label(cls)}.{meth} raises ordinary exceptions #{bad}", False, str(c))
        for kind, s, kw in events:
            why = None
            if kind == "open":
                why = "a file is opened"
            elif kind == "call_unknown" and isinstance(kw["fn"], Conc) and stateful(kw["fn"].v):
                why = f"{N.live_name(kw['fn'].v)} changes the process"
            elif kind == "setattr_global":
                why = "a global is assigned"
            if why and eng.feasible(s):
                bad += 1
                eng.oblige_bool(f"{N.label(cls)}: {why} #{bad}", False, N.describe(eng, s, kind, kw))
        eng.oblige_bool(f"{N.label(cls)} fails cleanly: {n} paths, {len(raised)} raising, {len(events)} events", bad == 0 and n > 0)
    return mk


def prove(P):
    from contracts import auditproof as AP, nodeproof as N, vizproof as VP
    from skops.io import _audit
    reg = N.registry()
    for i in range(5):
        P.unit(f"nesting limit, {i} children", "_audit._check_nesting", AP.u_nesting(i), policy=N.NodePolicy())
    for l, p in sorted(_audit.NODE_TYPE_MAPPING):
        P.unit(f"get_tree {l} {p}", "_audit.get_tree", u_limited(l, p), policy=N.NodePolicy())
    for cls in reg:
        P.unit(f"clean {N.label(cls)}", N.label(cls), u_clean(cls), policy=N.NodePolicy())
        P.unit(f"walk_tree step {N.label(cls)}", "_visualize.walk_tree", VP.u_walk_step("node", cls), policy=N.NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", AP.u_worklist, policy=N.NodePolicy())
    P.unit("audit_tree", "_audit.audit_tree", AP.u_audit_tree, policy=N.NodePolicy())
    for f in ("load", "loads"):
        P.unit(f, f"_persist.{f}", AP.u_load(f), policy=N.NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", AP.u_untrusted, policy=N.NodePolicy())
    P.unit("visualize", "_visualize.visualize", VP.u_visualize, policy=N.NodePolicy())


def u_limited(loader, protocol):
    """get_tree never returns a new node without having compared it with the limits"""
    def mk(eng):
        from contracts import auditproof as AP, nodeproof as N
        from pyvc.values import Raise, Conc, SVal
        checked = []
        AP.u_get_tree(loader, protocol, AP.expected_class(loader, protocol), checked)(eng)
    return mk


def guards(P):
    from contracts import nodeproof as N
    from skops.io._audit import Node

    class Leaves(Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.children = {}

        def _construct(self):
            os.chdir("/")
            return 1

    class Quits(Leaves):
        def _construct(self):
            raise SystemExit(1)

    class Seeds(Leaves):
        def _construct(self):
            np.random.seed(0)
            return 1
    for c in (Leaves, Quits, Seeds):
        P.unit(f"guard: {c.__name__}", "guard", u_clean(c), policy=N.NodePolicy())
SLOW = 20.0

# ------------------------------------------------------------------ sources


def fresh():
    """archives of the current code: {name: bytes}"""
    import skops.io as sio
    from sklearn.ensemble import GradientBoostingClassifier, HistGradientBoostingRegressor, RandomForestClassifier, IsolationForest
    from sklearn.linear_model import LogisticRegression, SGDClassifier, SGDOneClassSVM
    from sklearn.neighbors import KNeighborsClassifier, NearestNeighbors, KernelDensity
    from sklearn.svm import SVC
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler, KBinsDiscretizer
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.model_selection import GridSearchCV
    import scipy.sparse as sp
    rs = np.random.RandomState(0)
    X = rs.rand(12, 3)
    y = np.arange(12) % 2
    Xs = sp.csr_matrix(X)
    objs = {
        "gbc": GradientBoostingClassifier(n_estimators=2, max_depth=2).fit(X, y),
        "hgb": HistGradientBoostingRegressor(max_iter=2, min_samples_leaf=2).fit(X, y),
        "forest": RandomForestClassifier(n_estimators=2, max_depth=2).fit(X, np.c_[y, y]),
        "iforest": IsolationForest(n_estimators=2).fit(X),
        "kd": KNeighborsClassifier(algorithm="kd_tree").fit(X, y),
        "ball": NearestNeighbors(algorithm="ball_tree").fit(X),
        "kde": KernelDensity().fit(X),
        "svc": SVC().fit(Xs, y),
        "sgd": SGDClassifier(random_state=np.random.RandomState(0)).fit(X, y),
        "sgd1": SGDOneClassSVM().fit(X),
        "gp": GaussianProcessRegressor().fit(X, y),
        "pipe": make_pipeline(FunctionTransformer(np.sqrt), StandardScaler(), LogisticRegression()).fit(X, y),
        "grid": GridSearchCV(LogisticRegression(), {"C": [1, 2]}, cv=2).fit(X, y),
        "kbins": KBinsDiscretizer(n_bins=2).fit(X),
        "values": {"a": [1, 2.5, None, True, "x"], 1: (b"abc", bytearray(b"x")), 2.5: {1, 2}, "ma": np.ma.MaskedArray([1, 2], [0, 1]), "sp": [sp.csr_matrix(X), sp.coo_array(X)],
                   "rng": [np.random.RandomState(1), np.random.default_rng(1), np.random.Generator(np.random.Philox(3))], "o": np.array([[1, "a"], [None, 2.5]], dtype=object),
                   "d": np.dtype([("a", "<i4"), ("b", "U3")]), "z": np.float64(3), "s": slice(1, None, 2), "u": np.add, "t": [int, list, np.float32], "l": len},
    }
    out = {}
    for k, o in objs.items():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out["fresh:" + k] = sio.dumps(o)
    return out


SRC = {}     # name -> (state, members, trusted)
POOLS = {}


def prepare():
    import skops.io as sio
    if SRC:
        return
    raw = {}
    for kind, ld, proto, state, members in A.templates():
        raw["t:" + kind] = A.pack(state, members, protocol=proto)
    for k, e in A.data("corpus").items():
        raw["c:" + k] = A.pack(e["state"], A.mem(e["members"]), protocol=e["state"].get("protocol"))
    raw.update(fresh())
    for name, data in raw.items():
        try:
            trusted = sorted(sio.get_untrusted_types(data=data))
        except Exception:
            trusted = []
        z = zipfile.ZipFile(io.BytesIO(data))
        mem = {n: z.read(n) for n in z.namelist() if n != "schema.json"}
        SRC[name] = (json.loads(z.read("schema.json")), mem, trusted, data)
    from skops.io import _audit
    from skops.io._trusted_types import NUMPY_DTYPE_TYPE_NAMES, PRIMITIVE_TYPE_NAMES, CONTAINER_TYPE_NAMES, SKLEARN_ESTIMATOR_TYPE_NAMES, NUMPY_UFUNC_TYPE_NAMES, SCIPY_UFUNC_TYPE_NAMES
    names = list(NUMPY_DTYPE_TYPE_NAMES) + list(PRIMITIVE_TYPE_NAMES) + list(CONTAINER_TYPE_NAMES) + list(SKLEARN_ESTIMATOR_TYPE_NAMES)[::4] + list(NUMPY_UFUNC_TYPE_NAMES)[::9] + list(SCIPY_UFUNC_TYPE_NAMES)[::9]
    names += ["numpy.ndarray", "numpy.matrix", "numpy.memmap", "numpy.recarray", "numpy.ma.MaskedArray", "numpy.random.RandomState", "numpy.random.Generator", "numpy.dtype", "builtins.slice", "builtins.bytes",
              "scipy.sparse.csr_matrix", "sklearn.tree._tree.Tree", "collections.OrderedDict", "collections.defaultdict"]
    POOLS["names"] = [n.rpartition(".")[::2] for n in names if "." in n]
    POOLS["loaders"] = sorted({k[0] for k in _audit.NODE_TYPE_MAPPING}) + ["Nope", "", "CachedNode"]
    POOLS["files"] = [(n, k, v) for n, (s, m, t, d) in SRC.items() for k, v in m.items()]
    POOLS["src"] = sorted(SRC)


# ------------------------------------------------------------------ mutations
VALS = [None, True, False, 0, -1, 1, 2, 10 ** 6, 10 ** 12, -2 ** 63, 2 ** 64, 2 ** 80, 1.5, 1e308, "", "a", "numpy", "builtins", "a" * 5000, "\x00", "\ud800", "../../x", "/etc/passwd", "schema.json", "é", "1", [], {}, [None], [[]],
        ["a", 1], {"a": 1}, {"__class__": "list"}, {"__id__": 1}]
JSONS = ["", "null", "NaN", "Infinity", "[]", "{}", "[1, 2]", "-1", "1e400", "99999999999999999999", "\"x\"", "tru", "[" * 3000, "[" * 3000 + "]" * 3000, "{\"a\":" * 500 + "1" + "}" * 500, "0", "1000000000", "-1000000000", "2.5", "\"NaN\"", "1" * 5000, "\"" + "x" * 10 ** 5 + "\""]


def nodes_of(state):
    return list(A.walk(state))


def schema_mutation(rng, state, mem):
    """one random edit in place of a copy; returns (state, members, description)"""
    op = rng.choice(["leaf", "leaf", "leaf", "drop", "add", "rename", "list", "swap", "foreign", "loader", "loader", "name", "name", "id", "id", "cycle", "file", "json", "json", "json", "deep", "wide", "top", "dupkeys", "nullnode"])
    nodes = nodes_of(state)
    path, node = rng.choice(nodes) if nodes else ((), state)
    if op == "leaf":
        ls = list(A.leaves(state))
        if not ls:
            return state, mem, "leaf:none"
        p, old = rng.choice(ls)
        v = copy.deepcopy(rng.choice(VALS))
        return A.put(state, p, v), mem, f"{p}={str(v)[:40]!r}"
    state = copy.deepcopy(state)
    nodes = nodes_of(state)
    path, node = rng.choice(nodes) if nodes else ((), state)
    if op == "drop":
        k = rng.choice(sorted(node)) if node else None
        node.pop(k, None)
        return state, mem, f"drop {path}{k}"
    if op == "add":
        k = rng.choice(["attrs", "keys", "content", "file", "type", "shape", "__reduce__", "is_field", "x", "__id__"])
        node[k] = copy.deepcopy(rng.choice(VALS + [nodes[0][1] if len(nodes) < 50 else None, node if len(str(node)) < 10 ** 4 else None]))
        return state, mem, f"add {path}{k}"
    if op == "rename":
        if not node:
            return state, mem, "-"
        k = rng.choice(sorted(node))
        node[rng.choice(["attrs", "keys", "content", "file", "type", "x", "__id__"])] = node.pop(k)
        return state, mem, f"rename {path}{k}"
    if op == "list":
        lists = [n["content"] for _, n in nodes if isinstance(n.get("content"), (list, dict))]
        if not lists:
            return state, mem, "-"
        c = rng.choice(lists)
        if isinstance(c, dict):
            if c:
                k = rng.choice(sorted(c))
                r = rng.random()
                if r < 0.4:
                    del c[k]
                elif r < 0.7:
                    c[k + "x"] = copy.deepcopy(c[k])
                else:
                    c[rng.choice(["", "main", "data", "1", "__class__"])] = c.pop(k)
            return state, mem, "dict items"
        r = rng.random()
        if r < 0.3 and c:
            del c[rng.randrange(len(c))]
        elif r < 0.5:
            c.reverse()
        elif r < 0.8 and c:
            c.append(copy.deepcopy(rng.choice(c)))
        else:
            c.append(copy.deepcopy(rng.choice(VALS)))
        return state, mem, "list items"
    if op == "swap":
        p2, n2 = rng.choice(nodes)
        if len(json.dumps(n2)) > 10 ** 5:
            return state, mem, "-"
        return A.put(state, path, copy.deepcopy(n2)), mem, f"{path} <- {p2}"
    if op == "foreign":
        s2, m2, _, _ = SRC[rng.choice(POOLS["src"])]
        n2 = rng.choice(nodes_of(s2))[1]
        if len(json.dumps(n2)) > 10 ** 5:
            return state, mem, "-"
        return A.put(state, path, copy.deepcopy(n2)), {**m2, **mem}, f"{path} <- foreign {n2.get('__loader__')}"
    if op == "loader":
        node["__loader__"] = rng.choice(POOLS["loaders"])
        return state, mem, f"{path} loader {node['__loader__']}"
    if op == "name":
        m, c = rng.choice(POOLS["names"] + [(n.get("__module__"), n.get("__class__")) for _, n in nodes])
        node["__module__"], node["__class__"] = m, c
        return state, mem, f"{path} name {m}.{c}"
    if op == "id":
        node["__id__"] = rng.choice([rng.choice(nodes)[1].get("__id__"), None, "x", 0, -1, True, 1.0])
        return state, mem, f"{path} id"
    if op == "cycle":
        k = rng.randrange(len(path) + 1) if path else 0
        anc = [n for p, n in nodes if path[:len(p)] == p and p != path]
        if anc:
            a = rng.choice(anc)
            new = {"__id__": a.get("__id__"), "__class__": a.get("__class__"), "__module__": a.get("__module__"), "__loader__": rng.choice(["CachedNode", a.get("__loader__", "x")])}
            return A.put(state, path, new), mem, f"{path} -> ancestor"
        return state, mem, "-"
    if op == "file":
        f = [n for _, n in nodes if "file" in n]
        if f:
            n = rng.choice(f)
            r = rng.random()
            if r < 0.5 and mem:
                n["file"] = rng.choice(sorted(mem))
            elif r < 0.8:
                _, k, v = rng.choice(POOLS["files"])
                n["file"] = k
                mem = {**mem, k: v}
            else:
                n["file"] = rng.choice(["schema.json", "nope", "", None, "../x", 3, ["a"], "a" * 70000])
        return state, mem, "file"
    if op == "json":
        j = [n for _, n in nodes if n.get("__loader__") == "JsonNode"]
        if j:
            n = rng.choice(j)
            n["content"] = rng.choice(JSONS)
            return state, mem, f"json {n['content'][:30]}"
        return state, mem, "-"
    if op == "deep":
        k = rng.choice([10, 100, 200, 320, 900, 5000])
        new, wrap = node, rng.choice(["ListNode", "TupleNode", "DictNode", "arr", "raw"])
        if len(json.dumps(node)) > 10 ** 5:
            return state, mem, "-"
        for i in range(k):
            if wrap == "ListNode":
                new = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [new]}
            elif wrap == "TupleNode":
                new = {"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": [new]}
            elif wrap == "DictNode":
                new = {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": {"a": new}, "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [{"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}]}}
            elif wrap == "arr":
                new = {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "content": [new], "shape": {"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": []}}
            else:
                new = [new]
        return ("deep", state, path, new), mem, f"{path} deep {wrap} {k}"
    if op == "wide":
        c = [n for _, n in nodes if isinstance(n.get("content"), list)]
        if c:
            n = rng.choice(c)
            n["content"] = n["content"] + [{"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": "1", "is_json": True}] * rng.choice([10, 1000, 5000])
        return state, mem, "wide"
    if op == "top":
        if rng.random() < 0.5:
            state["protocol"] = rng.choice([-1, 0, 1, 2, 3, 10 ** 9, None, "1", 1.0, [], {}])
            return state, mem, f"protocol {state['protocol']}"
        return copy.deepcopy(rng.choice(VALS)), mem, "top"
    if op == "dupkeys":
        return ("dup", state), mem, "duplicate keys"
    return A.put(state, path, None), mem, f"{path} null"


def member_mutation(rng, mem):
    mem = dict(mem)
    if not mem:
        mem["extra"] = b"x"
        return mem, "extra"
    k = rng.choice(sorted(mem))
    v = mem[k]
    op = rng.choice(["flip", "flip", "header", "trunc", "extend", "drop", "add", "foreign", "shape", "descr", "deephead", "zipin", "empty", "object"])
    if op == "flip":
        b = bytearray(v)
        for _ in range(rng.choice([1, 1, 3, 20])):
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        mem[k] = bytes(b)
    elif op == "header":
        b = bytearray(v)
        if len(b) > 12:
            for _ in range(rng.choice([1, 2, 5])):
                b[rng.randrange(min(len(b), 130))] = rng.choice(b"0123456789'(){},:<>|=OUSVficbMm-\x00\xff")
        mem[k] = bytes(b)
    elif op == "trunc":
        mem[k] = v[:rng.randrange(len(v) + 1)]
    elif op == "extend":
        mem[k] = v + bytes(rng.randrange(256) for _ in range(rng.choice([1, 8, 1000])))
    elif op == "drop":
        del mem[k]
    elif op == "add":
        mem[rng.choice(["extra", "../x", "/abs/x", "a/b", k + "2", "schema.json2"])] = b"extra"
    elif op == "foreign":
        mem[k] = rng.choice(POOLS["files"])[2]
    elif op in ("shape", "descr", "deephead", "object"):
        h = {"shape": "{'descr': '%s', 'fortran_order': %s, 'shape': %s, }" % (rng.choice(["<f8", "|u1", "|V0", "<U5", "|b1", "<M8[s]", "|S0"]), rng.choice(["True", "False", "2"]),
                                                                        rng.choice(["(10**9,)", "(1000000000000,)", "(-1,)", "(0, 5)", "(1,)*70", "(4611686018427387904, 4)", "(2147483648, 2147483648)", "5", "('a',)", "(1.5,)", "(True,)", "()", "(3,)", "(1,%s)" % ("1," * 70), "(100000, 100000)"])),
             "descr": "{'descr': %s, 'fortran_order': False, 'shape': (2,), }" % rng.choice(["[('a', '<i4'), ('a', '<i4')]", "[('', '<i4')]", "'<i99999999'", "[('a', '<i4', (2, 3))]", "'|V2147483647'", "[('a', [('b', '<i4')])]", "''", "None", "'<f8,<i4'", "[('a', '<i4', (1000000, 1000000))]", "'O'", "[('a', 'O')]", "(('<f8', (2,)))", "'U1000000000'"]),
             "deephead": rng.choice(["(" * 9000, "[" * 4000 + "]" * 4000, "-" * 9000 + "1", "{'descr': '<f8', 'fortran_order': False, 'shape': (" + "(" * 100 + "1," + ")" * 100 + "), }"]),
             "object": "{'descr': '|O', 'fortran_order': False, 'shape': (1,), }"}[op]
        h = h.encode() + b"\n"
        body = b"cos\nmkdir\n(S'pwned'\ntR." if op == "object" else v[-64:]
        new = b"\x93NUMPY\x01\x00" + len(h).to_bytes(2, "little") + h + body
        if v[:2] == b"PK":
            # a member of the npz
            try:
                z = zipfile.ZipFile(io.BytesIO(v))
                names = z.namelist()
                pick = rng.choice(names)
                bio = io.BytesIO()
                with zipfile.ZipFile(bio, "w") as o:
                    for n in names:
                        o.writestr(n, new if n == pick else z.read(n))
                new = bio.getvalue()
            except Exception:
                pass
        mem[k] = new
    elif op == "zipin":
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w") as o:
            for n in rng.sample(["data.npy", "indices.npy", "indptr.npy", "shape.npy", "format.npy", "row.npy", "col.npy", "offsets.npy", "x"], 6):
                b = io.BytesIO()
                arr = rng.choice([np.array([1, 2, 3]), np.array([10 ** 9, -5]), np.zeros((2, 2)), np.array(b"csr"), np.array(b"coo"), np.array(b"dia"), np.array(b"bsr"), np.array([3, 3]), np.array([2 ** 40, 2 ** 40]), np.array("csr"), np.array([], dtype=int), np.float64(np.nan)])
                np.save(b, arr)
                o.writestr(n, b.getvalue())
        mem[k] = bio.getvalue()
    else:
        mem[k] = b""
    return mem, f"member {op}"


def encode(state):
    if isinstance(state, tuple) and state and state[0] == "deep":
        # written without recursion
        _, st, path, new = state
        marker = "@@DEEP@@"
        txt = json.dumps(A.put(st, path, marker))
        pre, post, cur = [], [], new
        while True:
            if isinstance(cur, list) and len(cur) == 1:
                pre.append("[")
                post.append("]")
                cur = cur[0]
            elif isinstance(cur, dict) and isinstance(cur.get("content"), list) and len(cur["content"]) == 1:
                a, b = json.dumps({**cur, "content": [marker]}).split(json.dumps(marker))
                pre.append(a)
                post.append(b)
                cur = cur["content"][0]
            elif isinstance(cur, dict) and isinstance(cur.get("content"), dict) and list(cur["content"]) == ["a"]:
                a, b = json.dumps({**cur, "content": {"a": marker}}).split(json.dumps(marker))
                pre.append(a)
                post.append(b)
                cur = cur["content"]["a"]
            else:
                break
        return txt.replace(json.dumps(marker), "".join(pre) + json.dumps(cur) + "".join(reversed(post)), 1)
    if isinstance(state, tuple) and state and state[0] == "dup":
        txt = json.dumps(state[1])
        i = txt.find('"__class__": ')
        return txt[:i] + '"__class__": "x", "__class__": null, "__loader__": 3, ' + txt[i:] if i >= 0 else txt
    return json.dumps(state)


def build(state, mem, rng=None):
    bio = io.BytesIO()
    comp = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]) if rng else zipfile.ZIP_STORED
    with zipfile.ZipFile(bio, "w", comp) as z:
        for k, v in mem.items():
            try:
                z.writestr(zipfile.ZipInfo(str(k)[:60000]), v)
            except Exception:
                pass
        txt = encode(state)
        z.writestr(zipfile.ZipInfo("schema.json"), txt if isinstance(txt, bytes) else txt.encode("utf-8", "surrogatepass"))
    return bio.getvalue()


def byte_mutation(rng, data):
    b = bytearray(data)
    op = rng.choice(["flip", "flip", "set", "trunc", "cut", "dup", "insert", "tail", "cd", "swapends"])
    if op == "flip":
        for _ in range(rng.choice([1, 1, 2, 5, 50])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif op == "set":
        i = rng.randrange(len(b))
        n = rng.choice([1, 2, 4, 16])
        b[i:i + n] = bytes([rng.choice([0, 255, 65, 128])]) * n
    elif op == "trunc":
        del b[rng.randrange(len(b)):]
    elif op == "cut":
        i = rng.randrange(len(b))
        del b[i:i + rng.choice([1, 4, 100, 1000])]
    elif op == "dup":
        i = rng.randrange(len(b))
        b[i:i] = b[i:i + rng.choice([1, 30, 500])]
    elif op == "insert":
        i = rng.randrange(len(b))
        b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 64])))
    elif op == "tail":
        for _ in range(rng.choice([1, 3])):
            i = max(0, len(b) - 1 - rng.randrange(min(len(b), 400)))
            b[i] = rng.randrange(256)
    elif op == "cd":
        i = bytes(b).find(b"PK\x01\x02")
        if i >= 0:
            for _ in range(rng.choice([1, 2, 4])):
                j = i + rng.randrange(min(len(b) - i, 46 * 3))
                b[j] = rng.choice([0, 255, b[j] ^ 1, b[j] ^ 128, 8, 14, 12])
    else:
        b = b[len(b) // 2:] + b[:len(b) // 2]
    return bytes(b), f"bytes {op}"


def mutate(name, seed):
    """(data, description) - deterministic"""
    rng = random.Random(f"{name}/{seed}")
    state, mem, _, data = SRC[name]
    r = rng.random()
    if r < 0.15:
        what = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            data, w = byte_mutation(rng, data)
            what.append(w)
            if not data:
                break
        return data, "; ".join(what)
    what = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 6])):
        if r < 0.4 or not isinstance(state, dict):
            mem, w = member_mutation(rng, mem)
        else:
            try:
                state, mem, w = schema_mutation(rng, state, mem)
            except (IndexError, KeyError, TypeError, AttributeError, ValueError) as ex:
                w = f"not applicable ({type(ex).__name__})"  # to an archive that is broken already
        what.append(w)
        if not isinstance(state, dict):
            break
    return build(state, mem, rng), "; ".join(what)


# ------------------------------------------------------------------ chains through shared identifiers
def chains(n):
    """archives in which nodes refer to earlier ones, so that the objects are nested more deeply than the file"""
    J = A.J

    def node(content, i, loader="TupleNode", cls="tuple", mod="builtins", **k):
        return dict({"__class__": cls, "__module__": mod, "__loader__": loader, "content": content, "__id__": i}, **k)

    def ref(i):
        return {"__id__": i, "__class__": "x", "__module__": "y", "__loader__": "CachedNode"}
    kinds = {
        "tuple": lambda i: node([ref(i - 1)], i),
        "tuple2": lambda i: node([ref(i - 1), ref(i - 1)], i),
        "list": lambda i: node([ref(i - 1)], i, "ListNode", "list"),
        "dict": lambda i: node({"a": ref(i - 1)}, i, "DictNode", "dict", key_types=A.L(A.TY("builtins", "str"))),
        "array": lambda i: node([ref(i - 1)], i, "NdArrayNode", "ndarray", "numpy", type="json", shape=A.T(J(1))),
        "array0": lambda i: node([ref(i - 1)], i, "NdArrayNode", "ndarray", "numpy", type="json", shape=A.T()),
        "default": lambda i: node({"main": ref(i - 1), "default_factory": J(None)}, i, "DefaultDictNode", "defaultdict", "collections"),
        "estimator": lambda i: node(dict(A.D(), content={"a": ref(i - 1)}, key_types=A.L(A.TY("builtins", "str"))), i, "ObjectNode", "LogisticRegression", "sklearn.linear_model._logistic"),
        "partial": lambda i: node({"func": A.TY("builtins", "int"), "args": A.T(ref(i - 1)), "kwds": A.D(), "namespace": J(None)}, i, "PartialNode", "partial", "functools"),
        "mixed": lambda i: node([ref(i - 1)], i) if i % 2 else node([ref(i - 1)], i, "NdArrayNode", "ndarray", "numpy", type="json", shape=A.T()),
    }
    out = []
    for kind, make in kinds.items():
        first = node({}, 1, "DictNode", "dict", key_types=A.L()) if kind in ("default",) else node([], 1)
        items = [first] + [make(i) for i in range(2, n)]
        roots = {"list": A.L(*items), "back": A.L(*items, *[ref(n - 1)] * 3),
                 "keys": dict(A.D(), content={str(i): x for i, x in enumerate(items)}, keys=A.L(*[J(i) for i in range(len(items))]))}
        if kind in ("tuple", "tuple2"):
            roots["set"] = A.L(*items, dict(A.L(ref(n - 1)), __loader__="SetNode", __class__="set"))
            roots["dictkey"] = A.L(*items, dict(A.D(), content={"0": J(1)}, keys=A.L(ref(n - 1))))
        for r, root in roots.items():
            out.append((f"chain:{kind}:{r}:{n}", A.pack(root)))
    return out


# ------------------------------------------------------------------ the check of one archive
def state_of():
    return {"cwd": os.getcwd(), "env": dict(os.environ), "path": list(sys.path), "numpy": hashlib.md5(repr(np.random.get_state(legacy=True)[2:]).encode() + np.random.get_state()[1].tobytes()).hexdigest(),
            "random": hashlib.md5(repr(random.getstate()).encode()).hexdigest(), "limit": sys.getrecursionlimit(), "err": repr(np.geterr()), "files": sorted(os.listdir(".")), "out": id(sys.stdout), "err_": id(sys.stderr),
            "umask": None, "print": repr(np.get_printoptions())}


def setup():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    L.watch_setup()
    import rich.console  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    sys.stdin = open(os.devnull)


def probe(item):
    """list of complaints about the calls on one archive"""
    import skops.io as sio
    kind, name, arg = item
    if kind == "mut":
        data, what = mutate(name, arg)
        trusted = SRC[name][2]
    else:
        data, what, trusted = arg, name, []
    bad, outcome = [], []
    if kind == "mut" and len(data) > 4 * 10**6:
        # the time is proportional to the size of the file (printing 100 MB of text takes minutes)
        return what, [], ["left out (size)"]
    f = "in.skops"
    with open(f, "wb") as h:
        h.write(data)
    before = state_of()
    calls = [("get_untrusted_types(data)", lambda: sio.get_untrusted_types(data=data)), ("get_untrusted_types(file)", lambda: sio.get_untrusted_types(file=f)), ("loads", lambda: sio.loads(data, trusted=trusted)),
             ("load", lambda: sio.load(f, trusted=trusted)), ("visualize", lambda: sio.visualize(data)), ("visualize sink", lambda: sio.visualize(f, trusted=trusted, sink=lambda it, show, **k: [x for x in it]))]
    for cname, fn in calls:
        t = time.time()
        buf = io.StringIO()
        out, err = sys.stdout, sys.stderr
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with L.watch() as ev:
                try:
                    with contextlib.redirect_stdout(buf):
                        r = fn()
                        del r
                    outcome.append("ok")
                except Exception as ex:
                    outcome.append(type(ex).__name__)
                    del ex
                except BaseException as ex:  # noqa
                    bad.append(("exception", f"{cname} raises {type(ex).__name__}, which is not an ordinary exception"))
        dt = time.time() - t
        after = state_of()
        for k in before:
            if before[k] != after[k]:
                bad.append((f"state-{k}", f"{cname} changes {k}: {str(before[k])[:150]} -> {str(after[k])[:150]}"))
        before = after
        ev = [e for e in ev if not e[0].startswith("marshal")]  # imports
        if ev:
            bad.append(("effects", f"{cname} has effects: {ev[:3]}"))
        if dt > SLOW:
            bad.append(("slow", f"{cname} takes {dt:.0f} s"))
    os.unlink(f)
    return what, bad, outcome


def bounded(B):
    prepare()
    names = sorted(SRC)
    from collections import Counter
    outs = Counter()

    def work(items, timeout=90, chunk=40):
        root = os.getcwd()

        def start():
            d = os.path.join(root, f"w{os.getpid()}")
            os.makedirs(d)
            os.chdir(d)
            setup()
        for item, res in A.isolated(probe, items, timeout=timeout, chunk=chunk, procs=7, setup=start):
            rep = {"source": item[1], "seed": item[2] if item[0] == "mut" else None}
            if item[0] != "mut":
                rep["archive_sha"] = hashlib.sha1(item[2]).hexdigest()
            if res[0] == "crash":
                what = ""
                if item[0] == "mut":
                    data, what = mutate(item[1], item[2])
                    rep["archive"] = base64.b64encode(data).decode() if len(data) < 50000 else None
                B.case("crash", str(rep)[:200])
                B.fail("crash", f"the interpreter does not survive ({res[1]}): {item[1]} with {what}"[:600], rep)
                continue
            if res[0] == "exc":
                raise RuntimeError(f"harness: {item[1]} {item[2] if item[0] == 'mut' else ''}: {res[1]}")
            what, bad, outcome = res[1]
            B.case("mutant", f"{item[1]}:{item[2] if item[0] == 'mut' else ''}", f"{item[1]}: {what} -> {outcome}")
            for o in outcome:
                outs[o] += 1
            for k, w in bad:
                if item[0] == "mut":
                    data, _ = mutate(item[1], item[2])
                    rep["archive"] = base64.b64encode(data).decode() if len(data) < 50000 else None
                B.fail(k, f"{w}; {item[1]} with {what}"[:900], rep)
    # chains first
    ch = [("raw", n, d) for k in ([400, 3000] if not B.thorough else [400, 3000, 20000]) for n, d in chains(k)]
    work(ch, timeout=B.n(70, 300), chunk=2)
    special = [("raw", n, d) for n, d in specials()]
    work(special, chunk=8)
    B.rule("chains of nodes referring to earlier ones by identifier (10 kinds x 3-5 ways of holding them x lengths), special archives")
    r0 = B.seed * 10 ** 6
    rounds = 0
    while B.time_left() > 20 and rounds < B.n(10, 400):
        work([("mut", n, r0 + rounds * 1000 + i) for n in names for i in range(3 if not n.startswith("fresh") else 8)])
        rounds += 1
    B.rule(f"{rounds} rounds of stacked byte/schema/member mutations over {len(names)} archives (every node kind and protocol, committed corpus, fitted estimators); get_untrusted_types, load, loads, visualize on each, isolated workers; outcomes: {dict(outs.most_common(12))}")


def specials():
    """archives malformed in ways random edits hardly reach"""
    J, Lst, T, D = A.J, A.L, A.T, A.D
    out = []

    def add(n, s, m=None, **k):
        out.append((f"special:{n}", A.pack(s, m, **k)))
    a = Lst(J(1))
    a["content"].append(A.CACHED(a["__id__"]))
    add("self list", a)
    for loader, key in (("ListNode", None), ("TupleNode", None), ("SetNode", None)):
        for ids in (0, "", None, False, [], {}, 1.5):
            s = {"__class__": "list", "__module__": "builtins", "__loader__": loader, "__id__": ids, "content": [{"__class__": "list", "__module__": "builtins", "__loader__": loader, "__id__": ids, "content": []}]}
            add(f"id {ids!r} {loader}", s)
    add("pool size", dict(A.SRC_GEN()) if hasattr(A, "SRC_GEN") else J(1))
    big = zipfile.ZIP_DEFLATED
    out.append(("special:bomb", A.pack(Lst(J(1)), {"bomb": b"\0" * (50 << 20)}, compression=big)))
    for k in (b"", b"PK", b"PK\x05\x06" + b"\0" * 18, b"\x93NUMPY", b"{}", b"\0" * 100):
        out.append((f"special:raw {k[:6]!r}", k))
    for txt in ("", "null", "[]", "3", '"x"', "{", "{}", "[" * 10 ** 5, '{"a":' * 10 ** 5, "NaN", '{"protocol": 2}', "\ufeff{}"):
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w") as z:
            z.writestr("schema.json", txt)
        out.append((f"special:schema {txt[:12]!r}", bio.getvalue()))
    bio = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(bio, "w") as z:
            for i in range(5):
                z.writestr("schema.json", json.dumps(dict(Lst(J(i)), protocol=2)))
    out.append(("special:many schemas", bio.getvalue()))
    # wide: quadratic behaviour
    leaf = [A.OB("nope.x", "Y", D()) for _ in range(10)]
    inner = Lst(*leaf, *[J(i) for i in range(3000)])
    add("references to a wide list", Lst(inner, *[A.CACHED(inner["__id__"]) for _ in range(3000)]))
    for n in (1, 64, 65, 1000):
        add(f"object array of {n} axes", {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "content": [], "shape": T(*[J(0)] * n)})
    add("object array shape", {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "content": [], "shape": T(J(0), J(10 ** 18))})
    for n in (10 ** 6, 10 ** 9, 10 ** 12, -5):
        for loader, m, c in (("ConstructorFromReduceNode", "builtins", "bytes"),):
            add(f"{c}({n})", A.RED(m, c, J(n)))
    add("big json int", J(10 ** 4000))
    out.append(("special:huge int", A.pack({**J(1), "content": "1" * 10 ** 6})))
    out.append(("special:json nest", A.pack({**J(1), "content": "[" * 10 ** 6 + "]" * 10 ** 6})))
    return out
