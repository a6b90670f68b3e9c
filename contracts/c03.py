"""C03 The audit verdict is exact and load enforces exactly that verdict."""
from __future__ import annotations
import ast as _ast, base64, io, os, sys, warnings
from pathlib import Path
from contracts.auditproof import *
from contracts import archives as A, load_common as L

LEVEL = "proof"
NOTE = "all node classes (verdict, trusted names, children), the step of get_unsafe_set, audit_tree, get_type_paths, load/loads/get_untrusted_types under contract"
TRUSTED = ["sorted() of a set of str is duplicate free and ordered", "set and dict semantics of CPython"]
ASSUMPTIONS = ["the unsafe set of the tree is the union over its nodes: induction over the worklist step, checked as a contract on the loop body"]
EXPLANATION = ("is_self_safe of every node class is membership of the audited name in the trusted list; that list is norm(T) plus default names that are the same on every path and for every T, and children get the "
               "caller's T; children are complete; get_unsafe_set's step adds exactly the names of unsafe nodes. Hence unsafe(T) = unsafe(None) - norm(T). audit_tree raises exactly for non-empty sets and names them; "
               "load/loads audit the tree built with T and construct only after it passed; get_untrusted_types returns sorted(unsafe(None)) for data= and file=.")
BUDGET = {"quick": 200, "thorough": 900}


def prove(P):
    from skops.io import _audit
    reg = registry()
    for cls in reg:
        P.unit(f"verdict {label(cls)}", label(cls), unit_verdict(cls), policy=NodePolicy())
        P.unit(f"trusted {label(cls)}", label(cls), unit_trust(cls, lambda n: True), policy=NodePolicy())
        P.unit(f"children {label(cls)}", label(cls), unit_children(cls), policy=NodePolicy())
    for sh in ("list", "tuple", "str", "none", "empty"):
        P.unit(f"get_type_paths({sh})", "_utils.get_type_paths", u_type_paths(sh), policy=NodePolicy())
    P.unit("get_type_name", "_utils.get_type_name", u_type_name, policy=NodePolicy())
    P.unit("get_module", "_utils.get_module", u_get_module, policy=NodePolicy())
    P.unit("check_type", "_audit.check_type", u_check_type, policy=NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", u_worklist, policy=NodePolicy())
    P.unit("audit_tree", "_audit.audit_tree", u_audit_tree, policy=NodePolicy())
    P.unit("load", "_persist.load", u_load("load"), policy=NodePolicy())
    P.unit("loads", "_persist.loads", u_load("loads"), policy=NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", u_untrusted, policy=NodePolicy())


def guards(P):
    from skops.io import _audit

    class Lax(_audit.Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.children = {}

        def is_self_safe(self):
            return self.class_name in self.trusted or self._get_audited_name() in self.trusted

    class Forgets(_audit.Node):
        """trusts other names depending on what the caller trusts"""
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.trusted = self._get_trusted(trusted, ["a.b"] if trusted is None else [])
            self.children = {}
    P.unit("guard: lax verdict", "guard", unit_verdict(Lax), policy=NodePolicy())
    P.unit("guard: defaults depend on T", "guard", unit_trust(Forgets, lambda n: True), policy=NodePolicy())


def named(ex):
    """names listed by the exception"""
    m = str(ex)
    try:
        return list(_ast.literal_eval(m[m.index("["):m.rindex("]") + 1]))
    except Exception:
        return None


def warm():
    from contracts.c01 import stand_ins
    warnings.simplefilter("ignore")
    stand_ins()
    A.reset_canaries()


def variants(U, rng):
    """(description, T, names)"""
    yield "none", None, []
    yield "[]", [], []
    yield "()", (), []
    yield "all", list(U), U
    yield "tuple", tuple(reversed(U)), U
    yield "duplicates", list(U) + list(U)[::-1] + ["x.y"], list(U) + ["x.y"]
    yield "more", ["builtins.list", "os.system", "zz.Top"] + list(U) + ["numpy.ndarray"], list(U) + ["os.system", "zz.Top"]
    for i in range(min(3, len(U))):
        T = U[:i] + U[i + 1:]
        yield f"without {U[i]}", T, T
        yield f"only {U[i]}", (U[i],), [U[i]]
    near = [u.upper() for u in U] + [u + "x" for u in U] + [u[:-1] for u in U] + [u.split(".")[-1] for u in U] + [" " + u for u in U] + [u + " " for u in U]
    near = [x for x in near if x not in U]
    yield "near misses", near, near
    if U:
        sub = [u for u in U if rng.random() < 0.5]
        yield "subset", sub, sub
        ts, ns = [], []
        for u in U:
            for o in L.resolve(u):
                if isinstance(o, type) and f"{o.__module__}.{o.__qualname__}" == u:
                    ts.append(o)
                    ns.append(u)
                    break
        if ts:
            yield "types", list(ts), ns
            yield "types and strings", tuple(ts) + tuple(u for u in U if u not in ns), U
            yield "types but one", ts[:-1], ns[:-1]
        # type objects are known by their module and their name, wherever they were defined
        local = []
        for u in U:
            o = type(u.rpartition(".")[2], (), {"__qualname__": f"Outer.{u.rpartition('.')[2]}"})
            o.__module__ = u.rpartition(".")[0]
            local.append(o)
        yield "local types", local, U
        yield "local types but one", local[1:], U[1:]


def probe(item):
    import random, zlib
    import skops.io as sio
    from skops.io.exceptions import UntrustedTypesFoundException as UT
    from contracts.objects import diff_obj
    lab, state, members, proto, mc = item
    a = A.pack(state, members, proto)
    out, n = [], 0
    rng = random.Random(zlib.crc32(lab.encode()))
    d = f"w{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "a.skops")
    with open(p, "wb") as f:
        f.write(a)
    A.reset_canaries()

    def run(f):
        try:
            return ("ok", f())
        except Exception as ex:
            return ("exc", ex)
    us = [run(lambda: sio.get_untrusted_types(data=a)), run(lambda: sio.get_untrusted_types(file=p)), run(lambda: sio.get_untrusted_types(file=Path(p)))]
    if us[0][0] == "exc":
        if any(u[0] != "exc" or type(u[1]) is not type(us[0][1]) for u in us):
            out.append(("get_untrusted_types", f"data= and file= differ: {us}"[:400]))
        # nothing can be audited: nothing may be loaded
        for T in (None, [], ["os.system"]):
            r = run(lambda: sio.loads(a, trusted=T))
            if r[0] == "ok":
                out.append(("loads", f"succeeds (trusted={T}) although get_untrusted_types raises {us[0][1]!r}"[:400]))
        return 1, out
    U = us[0][1]
    if any(u[0] != "ok" or u[1] != U for u in us):
        out.append(("get_untrusted_types", f"data= and file= differ: {us}"[:400]))
    if not isinstance(U, list) or U != sorted(set(U)) or not all(isinstance(u, str) for u in U):
        out.append(("get_untrusted_types", f"not sorted and duplicate free: {U}"))
    base = None
    funs = [("loads", lambda T: sio.loads(a, trusted=T)), ("load", lambda T: sio.load(p, trusted=T)), ("load Path", lambda T: sio.load(Path(p), trusted=T))]
    for k, (how, T, names) in enumerate(variants(U, rng)):
        missing = sorted(set(U) - set(names))
        for fn, f in (funs if k % 4 == 0 else funs[k % 3:k % 3 + 1]):
            n += 1
            A.reset_canaries()
            r = run(lambda: f(T))
            if missing:
                if r[0] == "ok":
                    out.append((fn, f"trusted={T!r} [{how}] loads although {missing} are missing"[:500]))
                elif not isinstance(r[1], UT):
                    out.append((fn, f"trusted={T!r} [{how}] raises {r[1]!r} instead of UntrustedTypesFoundException"[:500]))
                elif named(r[1]) != missing:
                    out.append((fn, f"trusted={T!r} [{how}] names {named(r[1])} instead of {missing}"[:500]))
            elif r[0] == "exc" and isinstance(r[1], UT):
                out.append((fn, f"trusted={T!r} [{how}] raises {r[1]!r} although nothing is missing"[:500]))
            else:
                if base is None:
                    base = (T, r)
                elif base[1][0] != r[0]:
                    out.append((fn, f"trusted={T!r} gives {r} but trusted={base[0]!r} gave {base[1]}"[:600]))
                elif r[0] == "ok" and k > 1:
                    df = None if mc else diff_obj(base[1][1], r[1])
                    # (archives of protocol 1 and older do not hold the seed sequence of a generator: it is drawn anew)
                    if df and not mc and not (proto is not None and proto < 2 and "seed_seq" in df):
                        out.append((fn, f"trusted={T!r} changes the result: {df}"[:500]))
    for f in (lambda: sio.loads(a, trusted=True), lambda: sio.load(p, trusted=True)):
        r = run(f)
        if r[0] == "ok" or not isinstance(r[1], TypeError) or isinstance(r[1], UT):
            out.append(("trusted=True", f"not rejected: {r}"[:300]))
    A.reset_canaries()
    return n, out


def corpus_items():
    for k, t in A.data("corpus").items():
        yield f"corpus {k}", t["state"], A.mem(t["members"]), None, None
        for path, node in A.walk(t["state"]):
            if "__module__" in node and len(path) < 5:
                yield f"corpus {k}:{'/'.join(map(str, path))} renamed", A.put(t["state"], path, dict(node, __module__="vpcan0", __class__="Cls")), A.mem(t["members"]), None, ("vpcan0", "Cls")


def many_items(B):
    """archives with several untrusted names at various depths"""
    for i in range(B.n(150, 2000)):
        rng = B.rng

        def node(d):
            m, c = rng.choice([("vpcan0", "Cls"), ("vpcan0", "Oth"), ("vpcan1", "Cls"), ("vppkg.sub", "Cls"), ("vppkg", "Cls"), ("numpy", "float64"), ("builtins", "list")])
            k = rng.choice(["type", "function", "object", "object0", "partial", "method", "list", "dict", "json", "nest", "nestd", "nestt", "deep", "ddict", "oparr"] if d else ["type", "function", "object0", "json"])
            if k == "nest":
                return A.L(*[node(d - 1) for _ in range(rng.randint(1, 3))])
            if k == "nestt":
                return A.T(*[node(d - 1) for _ in range(rng.randint(1, 3))])
            if k == "nestd":
                return A.D(**{f"k{j}": node(d - 1) for j in range(rng.randint(1, 3))})
            if k == "deep":
                x = node(d - 1)
                for _ in range(rng.randint(1, 30)):
                    x = A.L(x)
                return x
            if k == "ddict":
                return {"__class__": "defaultdict", "__module__": "collections", "__loader__": "DefaultDictNode", "__id__": A.new_id(), "content": {"main": A.D(a=node(d - 1)), "default_factory": A.TY(m, c)}}
            if k == "oparr":
                return {"__class__": "itemgetter", "__module__": "operator", "__loader__": "OperatorFuncNode", "attrs": A.T(A.J(1)), "__id__": A.new_id()}
            if k == "object":
                return A.OB(m, c, A.D(a=node(d - 1), b=node(d - 1)))
            return dict(A.hostile_nodes(m, c))[k]
        s = node(3)
        ids = [n["__id__"] for _, n in A.walk(s)]
        if rng.random() < 0.5:
            s = A.L(s, A.CACHED(rng.choice(ids)), node(1))
        yield f"generated {i} {hash(str(s)) & 0xffff}", s, {}, None, ("many", "")


def bounded(B):
    B.rule("archives of every kind and protocol with names in every slot, committed corpus archives and generated trees with several untrusted names; T: none, empty, all, tuple, duplicates, permutations, additional "
           "names, every 'all but one', near misses, type objects; loads, load(str), load(Path); verdict, named types and result compared with get_untrusted_types (data=, file=str, file=Path)")
    A.install_canaries(os.getcwd())
    A.reset_canaries()
    slots, nest = list(A.slot_archives(A.POOL[:6])), list(A.nest_archives(A.POOL[:3]))
    B.rng.shuffle(slots)
    B.rng.shuffle(nest)
    corpus = list(corpus_items())
    B.rng.shuffle(corpus)
    gs = [("templates", [(l, s, m, p, None) for l, _, p, s, m in A.templates()], 10 ** 6), ("big", list(A.big_archives()), 10 ** 6), ("generated", list(many_items(B)), 10 ** 6), ("corpus", corpus, 250),
          ("slots", slots, 700), ("nested", nest, 900), ("cached", list(A.cached_archives()), 10 ** 6), ("alias", list(A.alias_archives())[::5], 10 ** 6)]
    for g, xs, n in gs:
        for item, (st, r) in A.isolated(probe, xs if B.thorough else xs[:n], setup=warm, timeout=40):
            rep = {"archive": {"state": item[1], "protocol": item[3], "members": sorted(item[2])}, "label": item[0]}
            if st == "crash":
                B.case(g + "-crash", item[0], item[0] + r)
            elif st == "exc":
                B.fail("probe", f"{item[0]}: {r}", rep)
            else:
                for i in range(r[0]):
                    B.case(g, item[0] + f"#{i}", item[0])
                for fn, v in r[1]:
                    B.fail("verdict", f"{fn}({item[0]}): {v}", rep)
        if B.time_left() < 0:
            break
