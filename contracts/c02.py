"""C02 Inspecting an archive is inert."""
from __future__ import annotations
import io, os, sys, contextlib
from contracts.auditproof import *
from contracts import archives as A, load_common as L

LEVEL = "proof"
NOTE = "all node classes and the functions around them under effect contracts; every construction, import, name resolution, call of an archive-controlled object and file operation is an obligation"
TRUSTED = ["zipfile members are read from memory/the given file only", "io.BytesIO, json.loads: pure",
           "rich (rendering of visualize rows) prints only"]
ASSUMPTIONS = ["get_tree is used through its contract: it builds the node class registered for the loader (proved in C08's unit u_get_tree, repeated here)",
               "names of live objects (get_type_name, get_module) have no effect"]
EXPLANATION = ("For every node class of the registry the constructor, is_self_safe, _get_audited_name and format are executed symbolically on an arbitrary json state: no path resolves or imports a name, "
               "calls an object named by the archive, constructs a child or opens a file. The tree walk (get_tree for all loaders and protocols, get_unsafe_set's step, audit_tree) and the entry points "
               "load/loads/get_untrusted_types/visualize are under contract as well, so the statement follows for every archive by induction over the tree.")
BUDGET = {"quick": 150, "thorough": 900}


def prove(P):
    from skops.io import _audit
    import skops.io._persist as ps
    reg = registry()
    for cls in reg:
        P.unit(f"inert {label(cls)}", label(cls), unit_inert(cls), policy=NodePolicy())
    for l, p in sorted(_audit.NODE_TYPE_MAPPING):
        P.unit(f"get_tree {l} {p}", "_audit.get_tree", u_get_tree(l, p, expected_class(l, p)), policy=NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", u_worklist, policy=NodePolicy())
    P.unit("audit_tree", "_audit.audit_tree", u_audit_tree, policy=NodePolicy())
    P.unit("load", "_persist.load", u_load("load"), policy=NodePolicy())
    P.unit("loads", "_persist.loads", u_load("loads"), policy=NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", u_untrusted, policy=NodePolicy())
    P.unit("visualize walk", "_visualize.walk_tree", u_walk_inert, policy=NodePolicy())


def u_walk_inert(eng):
    """_get_node_label, NodeInfo and the row logic of visualize use only what is known to be inert"""
    import skops.io._visualize as vz
    st = init_state(eng)
    setup(eng, st, "T")
    pol = eng.policy
    eng.attr_overrides[("node", "format()")] = lambda e, s, v, a, k: iter([(s, SStr(V.s(e.ufV("format", v.t))))])
    fn = getattr(vz, "_get_node_label", None)
    if fn is None:
        raise Unsupported("no _get_node_label")
    node = SVal(z3.Const("n", V), ("node", None))
    kids = eng.attr_overrides
    pol.events.clear()
    n = 0
    for s, v in eng.call(st.fork(), Conc(fn), [node], {}):
        n += eng.feasible(s)
    bad = 0
    for kind, s, kw in pol.events:
        r = inert_violation(eng, s, kind, kw)
        if r and eng.feasible(s):
            bad += 1
            eng.oblige_bool(f"_get_node_label is inert: {r}", False, describe(eng, s, kind, kw))
    eng.oblige_bool(f"_get_node_label is inert on {n} paths", bad == 0 and n > 0)


def guards(P):
    class Opens(__import__("skops.io._audit", fromlist=["Node"]).Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.content = open(state["file"]).read()
            self.children = {}

    class Imports(__import__("skops.io._audit", fromlist=["Node"]).Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            from skops.io._utils import gettype
            self.cls = gettype(state["__module__"], state["__class__"])
            self.children = {}
    P.unit("guard: open in __init__", "guard", unit_inert(Opens), policy=NodePolicy())
    P.unit("guard: gettype in __init__", "guard", unit_inert(Imports), policy=NodePolicy())


def warm():
    import skops.io as sio
    L.watch_setup()
    A.reset_canaries()
    a = A.pack(A.L(A.J(1), A.TY("x", "y")))
    sio.get_untrusted_types(data=a)
    with contextlib.redirect_stdout(io.StringIO()):
        sio.visualize(a)
        sio.visualize(a, show="untrusted", trusted=["x.y"])


def probe(item):
    import skops.io as sio
    lab, state, members, proto, mc = item
    a = A.pack(state, members, proto)
    out = []
    A.reset_canaries()
    before = set(sys.modules)
    L.A.LEDGER.clear()
    refused = None
    for what in ("get_untrusted_types", "visualize", "visualize2", "sink", "load"):
        with L.watch(opens=True) as ev:
            try:
                if what == "get_untrusted_types":
                    refused = bool(sio.get_untrusted_types(data=a))
                elif what == "visualize":
                    with contextlib.redirect_stdout(io.StringIO()):
                        sio.visualize(a)
                elif what == "visualize2":
                    with contextlib.redirect_stdout(io.StringIO()):
                        sio.visualize(a, show="untrusted", trusted=["vpcan0.Cls", "os.system"])
                elif what == "sink":
                    sio.visualize(a, show="trusted", sink=lambda rows, **kw: [list(rows), kw])
                elif refused:
                    sio.loads(a, trusted=[])
            except Exception:
                pass
        new = {m for m in set(sys.modules) - before}
        if ev or new or A.LEDGER or A.canary_modules():
            out.append((what, list(ev)[:5], sorted(new)[:5], list(A.LEDGER)[:5]))
            A.reset_canaries()
            before |= new
    return out


def items(B):
    gs = [("slots", list(A.slot_archives()), 5000), ("nested", list(A.nest_archives()), 3000), ("strings", list(A.string_archives()), 1500), ("loaders", list(A.loader_archives()), 800),
          ("payloads", list(A.payload_archives()), 100), ("big", list(A.big_archives()), 100), ("alias", list(A.alias_archives()), 600), ("cached", list(A.cached_archives()), 150)]
    for g, xs, n in gs:
        B.rng.shuffle(xs)
        yield g, (xs if B.thorough else xs[:n])


def bounded(B):
    B.rule("archives of every node kind and protocol with hostile names (canary modules that record their import and use, os.system, eval, ...) in every slot and child position, member payloads that are pickles, "
           "cross-wired loaders and ids; get_untrusted_types, visualize (3 ways) and the refused load may not import, resolve, call or open anything (ledger, sys.modules, audit events)")
    A.install_canaries(os.getcwd())
    A.reset_canaries()
    for g, xs in items(B):
        for item, (st, r) in A.isolated(probe, xs, setup=warm, timeout=30):
            B.case(g, item[0], item[0])
            rep = {"archive": {"state": item[1], "protocol": item[3], "members": sorted(item[2])}, "label": item[0]}
            if st == "crash":
                B.fail("crash", f"inspecting {item[0]}: {r}", rep)
            elif st == "exc":
                B.fail("probe", f"inspecting {item[0]}: {r}", rep)
            elif r:
                B.fail("inert", f"inspecting {item[0]}: {r}", rep)
        if B.time_left() < 0:
            break
    # paths: a file given by name is opened for reading only and nothing else is created
    import skops.io as sio
    from contracts.io_common import snapshot, diff
    os.makedirs("files", exist_ok=True)
    for lab, state, members, proto, mc in list(A.slot_archives(A.POOL[:2]))[::7]:
        p = os.path.join("files", "a.skops")
        with open(p, "wb") as f:
            f.write(A.pack(state, members, proto))
        b = snapshot(".")
        for fn in (lambda: sio.get_untrusted_types(file=p), lambda: sio.visualize(p, sink=lambda rows, **k: list(rows)), lambda: sio.load(p, trusted=[]) if sio.get_untrusted_types(file=p) else None):
            try:
                fn()
            except Exception:
                pass
        B.case("files", lab)
        B.check(not diff(b, snapshot(".")), "file", lambda: f"inspecting {lab} changed files: {diff(b, snapshot('.'))}", {"label": lab})
