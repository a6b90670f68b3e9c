"""C01 Loading never uses code or objects the caller did not vouch for."""
from __future__ import annotations
import io, os, sys, warnings
from contracts.auditproof import *
from contracts import archives as A, load_common as L

LEVEL = "proof"
NOTE = "all node classes and the functions around them under contract; reachability through untyped library internals (numpy/scipy/sklearn constructors and __setstate__) is trusted"
TRUSTED = ["numpy.load(allow_pickle=False) and scipy.sparse.load_npz do not run code of the file", "constructors, __new__, __setstate__ and attributes of the documented default families (numpy, scipy, sklearn, quantile_forest) run no archive-controlled code",
           "importlib.import_module(m) imports m and its parents only"]
ASSUMPTIONS = ["a trusted name vouches for everything the named object does when it is called, and its class for all of its methods that loading calls",
               "a node found by its id was created by get_tree and therefore is the child of an audited node (children unit)"]
EXPLANATION = ("For every node class: every name that _construct resolves is the name that was audited on that path; every child that is constructed is one of the audited children; nothing else is imported, "
               "looked up by an archive-controlled name, called or opened; the default names are of the documented families. load/loads construct only the tree that passed the audit with the caller's names; "
               "get_unsafe_set visits all children. Induction over the tree gives the statement for every archive.")
BUDGET = {"quick": 240, "thorough": 900}


def prove(P):
    from skops.io import _audit
    reg = registry()
    for cls in reg:
        P.unit(f"construct {label(cls)}", label(cls), unit_construct(cls), policy=NodePolicy())
        P.unit(f"children {label(cls)}", label(cls), unit_children(cls), policy=NodePolicy())
        P.unit(f"trusted {label(cls)}", label(cls), unit_trust(cls, L.family), policy=NodePolicy())
        P.unit(f"verdict {label(cls)}", label(cls), unit_verdict(cls), policy=NodePolicy())
    for f in ("gettype", "_import_obj"):
        P.unit(f, f"_utils.{f}", u_resolution(f), policy=NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", u_worklist, policy=NodePolicy())
    P.unit("audit_tree", "_audit.audit_tree", u_audit_tree, policy=NodePolicy())
    P.unit("load", "_persist.load", u_load("load"), policy=NodePolicy())
    P.unit("loads", "_persist.loads", u_load("loads"), policy=NodePolicy())
    for l, p in sorted(_audit.NODE_TYPE_MAPPING):
        P.unit(f"get_tree {l} {p}", "_audit.get_tree", u_get_tree(l, p, expected_class(l, p)), policy=NodePolicy())


def guards(P):
    from skops.io import _audit

    class Other(_audit.Node):
        """constructs another name than the audited one"""
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.real = state["real"]
            self.children = {}

        def _construct(self):
            from skops.io._utils import gettype
            return gettype(self.module_name, self.real)()

    class Hidden(_audit.Node):
        """constructs a child that is not audited"""
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.extra = _audit.get_tree(state["x"], load_context, trusted=trusted)
            self.children = {}

        def _construct(self):
            return self.extra.construct()
    P.unit("guard: other name", "guard", unit_construct(Other), policy=NodePolicy())
    P.unit("guard: hidden child", "guard", unit_construct(Hidden), policy=NodePolicy())
    P.unit("guard: hidden child escapes", "guard", unit_children(Hidden), policy=NodePolicy())
    P.unit("guard: verdict", "guard", unit_trust(_audit.NODE_TYPE_MAPPING[("DictNode", A.current())], lambda n: None), policy=NodePolicy())


def warm():
    warnings.simplefilter("ignore")
    import numpy.testing, sklearn.experimental.enable_halving_search_cv  # noqa
    stand_ins()
    L.watch_setup()
    A.reset_canaries()


def stand_ins():
    """nothing that hostile archives name can have an effect outside, even when it is vouched for"""
    import subprocess

    def system(command):
        return 0

    class Popen:
        pass
    system.__module__, system.__qualname__ = "os", "system"
    Popen.__module__, Popen.__qualname__ = "subprocess", "Popen"
    os.system, subprocess.Popen = system, Popen


def trusts(R, mc, pool):
    """lists of trusted names to try"""
    yield "none", []
    if R:
        yield "reported", list(R)
        for i in range(min(len(R), 3)):
            yield f"reported but {R[i]}", R[:i] + R[i + 1:]
        yield "prefixes", [r.rsplit(".", 1)[0] for r in R] + [r.rsplit(".", 1)[1] for r in R] + [r.split(".")[0] + "." for r in R]
    if mc:
        nm = ".".join(mc)
        yield "only the name", [nm]
        # another object of the same module, a longer name
        yield "siblings", [mc[0] + ".Sub", nm + ".x", "x." + nm, mc[0]] + [r for r in R or [] if r != nm]
    if R:
        yield "other names", [x.replace("Oth", "Cls") for x in R] if any("Oth" in x for x in R) else list(R) + ["vpcan0.Oth", "vpcan1.Oth"]
    yield "all but the name", [f"{m}.{c}" for m, c in pool if (m, c) != mc] + [r for r in R or [] if r != (".".join(mc) if mc else "")]


def probe(item):
    import skops.io as sio
    lab, state, members, proto, mc = item
    a = A.pack(state, members, proto)
    out = []
    n = 0
    A.reset_canaries()
    try:
        R = sio.get_untrusted_types(data=a)
    except Exception:
        R = None
    for how, T in trusts(R, mc, A.POOL[:6]):
        A.reset_canaries()
        n += 1
        res = None
        with L.watch() as ev:
            try:
                res = (sio.loads(a, trusted=T),)
            except Exception:
                res = None
        v = L.ledger_violations(T)
        # code that the caller vouched for may do what it likes
        allowed = [t for t in T if not L.family(t)]
        if ev and not allowed:
            v += ev[:3]
        if ev and any(e[0] == "pickle.find_class" for e in ev):
            v.append(("unpickled", str(ev[:2])))
        if res and not any(callable(o) and not isinstance(o, type) for t in allowed if not t.startswith("vpcan") for o in L.resolve(t)):
            # (a vouched for function may return anything)
            v += L.unvouched(res[0], T)
        if res:
            if R is not None and set(R) - set(T):
                v.append(("loaded", f"although {sorted(set(R) - set(T))[:3]} are reported"))
        if v:
            out.append((how, T[:8], v[:4]))
    A.reset_canaries()
    return n, out


def items(B):
    gs = [("slots", list(A.slot_archives()), 2500), ("nested", list(A.nest_archives()), 2500), ("strings", list(A.string_archives()), 1200), ("loaders", list(A.loader_archives()), 1000),
          ("payloads", list(A.payload_archives()), 100), ("big", list(A.big_archives()), 100), ("alias", list(A.alias_archives()), 600), ("cached", list(A.cached_archives()), 250)]
    for g, xs, n in gs:
        B.rng.shuffle(xs)
        yield g, (xs if B.thorough else xs[:n])


def bounded(B):
    B.rule("hostile archives (names in every slot, hostile nodes in every child position, strings, cross-wired loaders and ids, pickle payloads) loaded with no names, the reported names, the reported names less one, "
           "only the name, sibling names: canary modules record imports, instantiations and calls, audit events record process/file/network/unpickling operations, returned types and functions are compared by identity "
           "with the trusted names and the default families")
    A.install_canaries(os.getcwd())
    A.reset_canaries()
    for g, xs in items(B):
        for item, (st, r) in A.isolated(probe, xs, setup=warm, timeout=30):
            rep = {"archive": {"state": item[1], "protocol": item[3], "members": sorted(item[2])}, "label": item[0]}
            if st == "crash":
                if "signal" in r or "no result" in r:
                    B.case(g + "-crash", item[0], item[0] + r)   # a crash of the interpreter is C19's concern
                else:
                    B.fail("crash", f"loading {item[0]}: {r}", rep)
            elif st == "exc":
                B.fail("probe", f"loading {item[0]}: {r}", rep)
            else:
                for i in range(r[0]):
                    B.case(g, item[0] + f"#{i}", item[0])
                for how, T, v in r[1]:
                    B.fail("unvouched", f"loads({item[0]}, trusted={T}) [{how}]: {v}", dict(rep, trusted=T))
        if B.time_left() < 0:
            break
