"""Contracts on every node class of skops.io (enumerated from the registry of the current tree).

A node class is run symbolically on an arbitrary json state: its __init__, its audited name and verdict, and
its _construct. Callees are used through their contracts: get_tree(state, .., T) builds the node of that state
without effects; gettype/_import_obj/import_module(m)+getattr resolve names; node.construct() builds the object
of a child. Every call, import, attribute look-up and file operation of the code is recorded with its path."""
from __future__ import annotations
import importlib, io, zipfile, functools, operator, types, json
import numpy as np
from pyvc.harness import *
from pyvc.engine import Known, SeqConst, BoundM, _name
from pyvc import fsmodel

CHILD_CALLS = ("get_tree", "construct")


def registry():
    """{class: [(loader, protocol), ...]} of the current tree, plus the nodes that are only built by other nodes"""
    from skops.io import _audit
    import skops.io._persist  # fills the registry
    out = {}
    for k, c in _audit.NODE_TYPE_MAPPING.items():
        out.setdefault(c, []).append(k)
    return out


class NodePolicy(Policy):
    """records what the code does: list of (kind, state, details)"""

    def __init__(self):
        self.events = []

    def event(self, eng, st, kind, **kw):
        self.events.append((kind, st, kw))


# Pure library calls that neither run archive-controlled code nor reach outside (trusted, reported)
PURE_CALLS = {io.BytesIO, io.StringIO}


def setup(eng, st, trusted):
    """trusted: 'none' or 'T' (any list of names)"""
    import skops.io._audit as au
    import skops.io._utils as us
    import skops.io._persist
    pol = eng.policy
    fsmodel.install(eng, st)

    def rec(kind):
        def h(e, s, a, k):
            pol.event(e, s, kind, args=list(a), kwargs=dict(k))
            yield s.fork(), Raise(ExcV(Exception, (), False))
            yield s, SVal(z3.Const(e.fresh(kind), V), (kind,) + tuple(a))
        return h

    def tree(e, s, a, k):
        names = ("state", "load_context", "trusted")
        v = dict(zip(names, a))
        v.update(k)
        pol.event(e, s, "get_tree", state=v["state"], trusted=v.get("trusted", Conc(None)))
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("tree", e.reify(s, v["state"])), ("node", v["state"]))
    eng.contracts[au.get_tree] = tree

    def paths(e, s, a, k):
        x = a[0] if a else k["types"]
        v = live(e, s, x)
        if v is not NOTLIVE:
            yield s, e.alloc(s, ListCell((SeqConst(us_paths(v)),)))
            return
        if isinstance(x, SVal) and x.tag == ("trusted",):
            yield s, e.alloc(s, ListCell((e.seq_of(SVal(e.ufV("norm", x.t), ("list", "str"))),)))
            return
        # already normalised names stay what they are
        segs = [norm_seg(e, s, g) for g in e.norm_segs(s, e.iter_segs(s, x))]
        yield s, e.alloc(s, ListCell(tuple(segs)))
    us_paths = us.get_type_paths
    eng.contracts[us.get_type_paths] = paths

    # LoadContext: a frozen record; memoize records the node, get_object finds one
    eng.contracts[us.LoadContext.memoize] = lambda e, s, a, k: iter([(s, Conc(None))])

    def get_object(e, s, a, k):
        ident = a[1] if len(a) > 1 else k.get("id", Conc(None))
        yield s, SVal(e.ufV("memo", e.reify(s, ident)), ("node", None))
    eng.contracts[us.LoadContext.get_object] = get_object
    ctx = eng.alloc(st, ObjCell(us.LoadContext, {"src": SVal(z3.Const("zip", V), ("zip", Conc("archive"), Conc("r"))), "protocol": SInt(z3.Int("protocol")),
                                                 "memo": SVal(z3.Const("memo", V), ("dict", None, None))}))
    # names of live objects: a pure function of the object
    def type_name(e, s, a, k):
        v = live(e, s, a[0])
        if v is not NOTLIVE:
            yield s, Conc(us_tn(v))
            return
        yield s.fork(), Raise(ExcV(AttributeError, (), False))
        yield s, SStr(V.s(e.ufV("typename", e.reify(s, a[0]))))

    def module_name(e, s, a, k):
        v = live(e, s, a[0])
        if v is not NOTLIVE:
            yield s, Conc(us_module(v))
            return
        yield s.fork(), Raise(ExcV(AttributeError, (), False))
        yield s, SStr(V.s(e.ufV("modulename", e.reify(s, a[0]))))
    us_module, us_tn = us.get_module, us.get_type_name
    eng.contracts[us.get_type_name] = type_name
    eng.contracts[us.get_module] = module_name
    # files: reading is recorded as well
    for f in (open, io.open):
        h0 = eng.ext[f]
        eng.ext[f] = (lambda h0: lambda e, s, a, k: (pol.event(e, s, "open", file=a[0]), (yield from h0(e, s, a, k)))[1])(h0)
    h1 = eng.ext[zipfile.ZipFile]
    eng.ext[zipfile.ZipFile] = lambda e, s, a, k: (pol.event(e, s, "open", file=a[0]) if not origin(e, a[0]) <= {"bytesio"} else None, (yield from h1(e, s, a, k)))[1]
    # name resolution
    eng.contracts[us.gettype] = resolver(eng, "gettype")
    eng.contracts[us._import_obj] = resolver(eng, "_import_obj")
    eng.ext[importlib.import_module] = lambda e, s, a, k: record_import(e, s, a, k)
    eng.attr_overrides[("module", None)] = lambda e, s, v, n: resolve(e, s, "getattr", v.tag[1], Conc(n))
    # children
    def construct(e, s, v, a, k):
        pol.event(e, s, "construct", node=v)
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("built", v.t), ("built", v))
    eng.attr_overrides[("node", "construct()")] = construct
    for nm, res in (("class_name", "str"), ("module_name", "str"), ("func_name", "str"), ("owner_name", "str")):
        eng.attr_overrides[("node", nm)] = (lambda nm: lambda e, s, v, n: iter([(s, SStr(V.s(e.ufV(f"node.{nm}", v.t))))]))(nm)
    for nm in ("is_self_safe", "is_safe"):
        eng.attr_overrides[("node", nm + "()")] = (lambda nm: lambda e, s, v, a, k: iter([(s, SBool(e.ufV(f"node.{nm}", v.t, res=z3.BoolSort())))]))(nm)
    eng.ext_tags |= {"node"} if isinstance(eng.ext_tags, set) else set()
    state = SVal(z3.Const("state", V), "json")
    T = Conc(None) if trusted == "none" else SVal(z3.Const("T", V), ("trusted",))
    return state, ctx, T


def resolve(e, s, how, m, c):
    e.policy.event(e, s, "resolve", how=how, module=m, name=c)
    yield s.fork(), Raise(ExcV(Exception, (), False))
    if isinstance(m, Conc) and isinstance(c, Conc):
        try:
            yield s, Conc(getattr(importlib.import_module(m.v), c.v))
            return
        except Exception:
            pass
    yield s, SVal(e.ufV("resolved", e.reify(s, m), e.reify(s, c)), ("resolved", m, c))


def resolver(eng, how):
    def h(e, s, a, k):
        v = dict(zip(("module", "cls_or_func"), a))
        if "module_name" in k:
            v["module"] = k["module_name"]
        if "module" in k:
            v["module"] = k["module"]
        if "cls_or_func" in k:
            v["cls_or_func"] = k["cls_or_func"]
        yield from resolve(e, s, how, v["module"], v["cls_or_func"])
    return h


def record_import(e, s, a, k):
    e.policy.event(e, s, "import", module=a[0])
    yield s.fork(), Raise(ExcV(ImportError, (), False))
    yield s, SVal(e.ufV("module", e.reify(s, a[0])), ("module", a[0]))


NOTLIVE = object()


def live(e, s, x):
    """the Python value of a fully known list/tuple/constant"""
    if isinstance(x, Conc):
        return x.v
    if isinstance(x, Tup):
        vs = [live(e, s, y) for y in x.items]
        return NOTLIVE if any(v is NOTLIVE for v in vs) else tuple(vs)
    if isinstance(x, Ref) and isinstance(s.heap[x.addr], ListCell):
        out = []
        for g in e.norm_segs(s, s.heap[x.addr].segs):
            if isinstance(g, Known):
                vs = [live(e, s, y) for y in g.vals]
                if any(v is NOTLIVE for v in vs):
                    return NOTLIVE
                out += vs
            elif isinstance(g, SeqConst):
                out += list(g.v)
            else:
                return NOTLIVE
        return out
    return NOTLIVE


def norm_seg(e, s, g):
    from skops.io._utils import get_type_paths
    if isinstance(g, Known):
        vs = [live(e, s, y) for y in g.vals]
        if any(v is NOTLIVE for v in vs):
            raise Unsupported("symbolic type in a list of trusted types")
        return Known(tuple(Conc(x) for x in get_type_paths(vs)))
    if isinstance(g, SeqConst):
        return SeqConst(get_type_paths(list(g.v)))
    if isinstance(g, SeqVar) and "norm" in g.key:
        return g
    raise Unsupported("trusted types of an unknown kind")


def split_trusted(e, s, v):
    """(mentions T, concrete default names) of a normalised trusted list; None when it is something else"""
    try:
        segs = e.norm_segs(s, e.iter_segs(s, v))
    except Unsupported:
        return None
    T, D = False, []
    for g in segs:
        if isinstance(g, SeqVar) and g.key == "norm(T)":
            T = True
        elif isinstance(g, Known):
            for x in g.vals:
                if not (isinstance(x, Conc) and isinstance(x.v, str)):
                    return None
                D.append(x.v)
        elif isinstance(g, SeqConst):
            D += list(g.v)
        else:
            return None
    return T, D


def instances(eng, cls, trusted):
    """(state, node Ref, archive state, T, events of __init__) for every normal path of the constructor"""
    st = init_state(eng)
    state, ctx, T = setup(eng, st, trusted)
    eng.policy.events.clear()
    out = []
    eng.init_raised = []
    for s, v in eng.call(st.fork(), Conc(cls), [state, ctx], {"trusted": T}):
        if not eng.feasible(s):
            continue
        if isinstance(v, Raise):
            eng.init_raised.append((s, v))
            continue
        out.append((s, v))
    ev = list(eng.policy.events)
    return out, state, ctx, T, ev


def label(cls):
    return f"{cls.__module__.split('skops.io.')[-1]}.{cls.__name__}"


# ------------------------------------------------------------------ where a value comes from
def origin(eng, v, depth=0):
    """kinds of things a value was obtained from: json, built, ret, zip, bytesio, live, resolved, node, ?"""
    if depth > 40:
        return {"?"}
    if isinstance(v, (Conc, SStr, SInt, SBool)):
        return {"live"}
    if isinstance(v, Tup):
        return set().union(*[origin(eng, x, depth + 1) for x in v.items]) if v.items else {"live"}
    if isinstance(v, SVal):
        t = v.tag
        if isinstance(t, tuple):
            if t[0] in ("attr", "item_of", "getattr"):
                o = t[2] if t[0] == "attr" else t[1]
                if isinstance(o, Val):
                    return origin(eng, o, depth + 1)
            if t[0] in ("built", "bytesio", "zip", "node", "resolved", "trusted"):
                return {t[0]}
            if t[0] == "ret":
                return {"ret"}
        if t == "json":
            return {"json"}
        return term_origin(eng, v.t, depth)
    if isinstance(v, BoundM):
        return origin(eng, v.self, depth + 1) if isinstance(v.self, Val) else {"?"}
    if isinstance(v, Ref):
        return {"local"}
    return {"?"}


def term_origin(eng, t, depth=0):
    if depth > 60:
        return {"?"}
    n = t.decl().name()
    for k in ("built", "resolved", "tree", "memo"):
        if n == k:
            return {"node" if k in ("tree", "memo") else k}
    if n.startswith("ret."):
        return {"ret"}
    if n in ("state",):
        return {"json"}
    if n.startswith("seq_"):
        for kind, segs, t2, _ in eng.interned:
            if t2.eq(t):
                return set().union(*[origin(eng, x, depth + 1) for x in seg_values(segs)]) or {"live"}
        return {"?"}
    if n in ("at", "val", "keyat", "getitem", "S", "I", "B", "s", "if") or n.startswith(("attr.", "isel", "at.")):
        if n == "if":
            return term_origin(eng, t.arg(1), depth + 1) | term_origin(eng, t.arg(2), depth + 1)
        return term_origin(eng, t.arg(0), depth + 1)
    if n.startswith("bytesio"):
        return {"bytesio"}
    return {"?"}


def seg_values(segs):
    for g in segs:
        if isinstance(g, Known):
            yield from g.vals
        elif isinstance(g, SeqVar):
            yield g.at(z3.Int("i@proto"))
        elif isinstance(g, SeqConst):
            yield Conc(None)
        elif hasattr(g, "cases"):
            for _, c in g.cases:
                yield from seg_values(c)
        else:
            yield SVal(z3.Const("unknown", V), None)


# ------------------------------------------------------------------ obligations
# Pure library code: it neither runs code named in the archive nor reaches outside of its arguments
DENIED = {"eval", "exec", "compile", "open", "__import__", "input", "breakpoint", "vars", "globals", "locals", "delattr", "memoryview"}
PURE_MODULES = {"builtins", "json", "json.decoder", "collections", "copy", "io", "_io", "re", "itertools", "functools", "operator", "_operator", "types", "typing", "reprlib", "string"}


def live_name(f):
    return f"{getattr(f, '__module__', None)}.{getattr(f, '__qualname__', getattr(f, '__name__', type(f).__name__))}"


def harmless(f):
    m = getattr(f, "__module__", None) or getattr(type(getattr(f, "__self__", None)), "__module__", None)
    q = getattr(f, "__name__", "")
    if isinstance(f, type) and f.__module__ in ("io", "_io") and f not in (io.BytesIO, io.StringIO):
        return False
    if q in DENIED and m == "builtins":
        return False
    if m in ("io", "_io") and not isinstance(f, type):
        return not q.startswith("open")
    return m in PURE_MODULES


def describe(eng, st, kind, kw):
    return kind + " " + ", ".join(f"{k}={show(eng, st, v) if isinstance(v, Val) else v}"[:160] for k, v in kw.items())


def inert_violation(eng, st, kind, kw):
    """the reason why an event must not happen before the trust decision, or None"""
    def const(*vs):
        return all(isinstance(v, Conc) for v in vs)
    if kind in ("resolve", "import"):
        return None if const(*[v for k, v in kw.items() if k in ("module", "name")]) else "a name is resolved"
    if kind == "construct":
        return "a child is constructed"
    if kind == "open":
        return "a file is opened"
    if kind == "getattr_dyn":
        if const(kw["name"]) or isinstance(kw["obj"], Ref):
            return None
        return "an attribute is looked up by a name of the archive"
    if kind == "call_unknown":
        f = kw["fn"]
        if isinstance(f, Conc):
            return None if harmless(f.v) else f"{live_name(f.v)} is called"
        o = origin(eng, f)
        return None if o <= {"json", "zip", "bytesio", "node", "live", "trusted"} else f"an object obtained from {sorted(o)} is called"
    return None


def outside_ops(eng, s):
    """recorded operations that reach beyond reading the archive"""
    out = []
    for g in eng.norm_segs(s, fsmodel.trace(s)):
        out.append(str(g)[:200])
    return out


def unit_inert(cls):
    """C02: building a node, and asking for its verdict, name and text, resolves and calls nothing and touches nothing"""
    def mk(eng):
        out, state, ctx, T, ev = instances(eng, cls, "T")
        n = 0
        for kind, st, kw in ev:
            r = inert_violation(eng, st, kind, kw)
            if r and eng.feasible(st):
                n += 1
                eng.oblige_bool(f"{label(cls)}.__init__ is inert: {r} #{n}", False, describe(eng, st, kind, kw))
        for s, v in out:
            ops = outside_ops(eng, s)
            if ops:
                n += 1
                eng.oblige_bool(f"{label(cls)}.__init__ only reads the archive #{n}", False, str(ops))
        eng.oblige_bool(f"{label(cls)}.__init__ is inert on all {len(out)} paths and {len(ev)} events", n == 0)
        for meth in ("is_self_safe", "_get_audited_name", "format"):
            if not hasattr(cls, meth):
                continue
            eng.policy.events.clear()
            k = bad = 0
            for s, v in out:
                for s1, f in eng.getattr(s.fork(), v, meth):
                    for s2, r in ([(s1, f)] if isinstance(f, Raise) else eng.call(s1, f, [], {})):
                        k += 1
                        if eng.feasible(s2) and outside_ops(eng, s2) != outside_ops(eng, s):
                            bad += 1
            for kind, st, kw in eng.policy.events:
                r = inert_violation(eng, st, kind, kw)
                if r and eng.feasible(st):
                    bad += 1
                    eng.oblige_bool(f"{label(cls)}.{meth} is inert: {r} #{bad}", False, describe(eng, st, kind, kw))
            eng.oblige_bool(f"{label(cls)}.{meth} is inert on all {k} paths", bad == 0 and k > 0)
    return mk


def cell(s, ref):
    return s.heap[ref.addr]


def child_values(eng, s, node):
    """what the audit reaches from a node: [(kind, value)], kind in node, list, dict, none, other"""
    c = cell(s, node).attrs.get("children")
    if not (isinstance(c, Ref) and isinstance(cell(s, c), DictCell)):
        raise Unsupported("children is no dict")
    out = []
    for e in cell(s, c).segs:
        if e[0] != "k":
            raise Unsupported("children with unknown keys")
        out.append((e[1], e[2]))
    return out


def audited_nodes(eng, s, node):
    """values of nodes that the audit visits below this node"""
    out = []
    for k, v in child_values(eng, s, node):
        if isinstance(v, Ref) and isinstance(cell(s, v), ListCell):
            out += list(seg_values(eng.norm_segs(s, cell(s, v).segs)))
        elif isinstance(v, Ref) and isinstance(cell(s, v), DictCell):
            for e in cell(s, v).segs:
                if e[0] == "k":
                    out.append(e[2])
                else:
                    for x in seg_values((e[1],)):
                        t = eng.as_tuple(x)
                        out.append(t[1] if t is not None and len(t) == 2 else x)
        else:
            out.append(v)
    return out


def is_node(eng, s, v):
    from skops.io._audit import Node
    return isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "node" or isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and isinstance(cell(s, v).cls, type) and issubclass(cell(s, v).cls, Node)


def generalise(eng, t):
    """name of a node term up to the index of an arbitrary element"""
    import re
    return re.sub(r"i@[^()]*?@\d+|i@proto", "i", str(t).replace("\n", "").replace(" ", ""))


def same_node(eng, s, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.addr == b.addr
    if a.t.eq(b.t):
        return True
    if valid(eng, s, a.t == b.t):
        return True
    # arbitrary elements of the same sequence
    return strip_idx(a.t).eq(strip_idx(b.t))


def strip_idx(t):
    """replace loop indices by one and the same constant"""
    subs = []
    seen = set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("i@"):
            subs.append((x, z3.Int("i@any")))
        for c in x.children():
            walk(c)
    walk(t)
    return z3.substitute(t, *subs) if subs else t


def unit_children(cls):
    """C01/C03: every node that is created below a node is among its children (nothing escapes the audit)"""
    def mk(eng):
        out, state, ctx, T, ev = instances(eng, cls, "none")
        n = 0
        for s, v in out:
            kids = [x for x in audited_nodes(eng, s, v)]
            for kind, st, kw in ev:
                if kind != "get_tree" or not is_prefix(st, s):
                    continue
                n += 1
                node = SVal(eng.ufV("tree", eng.reify(s, kw["state"])), ("node", kw["state"]))
                ok = any(is_node(eng, s, k) and same_node(eng, s, node, k) for k in kids)
                if not ok:
                    eng.oblige_bool(f"{label(cls)}: the node of {show(eng, s, kw['state'])[:80]} is audited", False, f"children: {show(eng, s, cell(s, v).attrs['children'])[:400]}")
        eng.oblige_bool(f"{label(cls)}: all {n} created nodes are among the children", True)
    return mk


def is_prefix(a, b):
    ids = {c.get_id() for c in b.pc}
    return all(c.get_id() in ids for c in a.pc)


def audited_names(eng, s, node):
    """[(state, string term)] of _get_audited_name on every normal path"""
    out = []
    for s1, f in eng.getattr(s.fork(), node, "_get_audited_name"):
        for s2, r in ([(s1, f)] if isinstance(f, Raise) else eng.call(s1, f, [], {})):
            if isinstance(r, Raise) or not eng.feasible(s2):
                continue
            t = eng.str_of(r)
            if t is None and isinstance(r, SVal):
                t = V.s(r.t)
            if t is None:
                raise Unsupported("audited name is no string")
            out.append((s2, t))
    return out


def unit_verdict(cls):
    """C03: is_self_safe() says exactly whether the audited name is among the trusted names of the node"""
    def spec(node):
        return node._get_audited_name() in node.trusted

    def mk(eng):
        out, state, ctx, T, ev = instances(eng, cls, "T")
        n = 0
        for s, v in out:
            r1, r2 = [], []
            for s1, f in eng.getattr(s.fork(), v, "is_self_safe"):
                r1 += [(s1, f)] if isinstance(f, Raise) else list(eng.call(s1, f, [], {}))
            r2 = list(eng.call_closure(s.fork(), eng.closure_of(spec), [v], {}))
            for s1, a in r1:
                for s2, b in r2:
                    j = joint(s1, s2)
                    if not eng.feasible(j):
                        continue
                    n += 1
                    ok = (isinstance(a, Raise) and isinstance(b, Raise)) if isinstance(a, Raise) or isinstance(b, Raise) else eng.same(j, a, b)
                    if not ok:
                        eng.oblige_bool(f"{label(cls)}.is_self_safe is the membership test #{n}", False, f"code: {show(eng, j, a) if not isinstance(a, Raise) else a} membership: {show(eng, j, b) if not isinstance(b, Raise) else b}")
        eng.oblige_bool(f"{label(cls)}.is_self_safe is membership of the audited name, {n} paths", n > 0)
    return mk


def unit_trust(cls, family):
    """C11/C03: the trusted names of a node are the caller's plus names of the documented families, on every path;
    below the node the caller's names are passed on, with at most such names added"""
    def mk(eng):
        out, state, ctx, T, ev = instances(eng, cls, "T")
        seen = {}
        for s, v in out:
            none = valid(eng, s, V.is_none(T.t))
            r = split_trusted(eng, s, cell(s, v).attrs.get("trusted"))
            if r is None:
                raise Unsupported("trusted list of an unknown shape")
            ok = r[0] or none
            if not ok:
                eng.oblige_bool(f"{label(cls)}: the caller's names are trusted", False, f"path {[str(c)[:60] for c in s.pc][-6:]}")
            seen[tuple(r[1])] = seen.get(tuple(r[1]), 0) + 1
        eng.oblige_bool(f"{label(cls)}: the same default names on every path", len(seen) == 1, f"{[len(k) for k in seen]}")
        D = sorted({x for k in seen for x in k})
        for x in D:
            f = family(x)
            if f is None:
                eng.oblige_bool(f"{label(cls)}: default {x} is of a documented family", False, x)
        eng.oblige_bool(f"{label(cls)}: all {len(D)} default names are of documented families", True)
        # below
        n = 0
        for kind, st, kw in ev:
            if kind != "get_tree":
                continue
            n += 1
            t = kw["trusted"]
            if isinstance(t, SVal) and t.tag == ("trusted",):
                continue
            if isinstance(t, Conc) and t.v is None and valid(eng, st, V.is_none(T.t)):
                continue
            r = split_trusted(eng, st, t)
            ok = r is not None and (r[0] or valid(eng, st, V.is_none(T.t))) and all(family(x) for x in r[1])
            if not ok:
                eng.oblige_bool(f"{label(cls)}: children get the caller's names #{n}", False, f"passed: {show(eng, st, t)[:300]}")
        eng.oblige_bool(f"{label(cls)}: children get the caller's names, {n} calls", True)
    return mk


def unit_construct(cls):
    """C01: what is used to build the object is what was audited"""
    def mk(eng):
        out, state, ctx, T, ev0 = instances(eng, cls, "none")
        nres = ncon = ncall = npath = bad = 0
        groups = {}
        for s, v in out:
            kids = audited_nodes(eng, s, v)
            names = audited_names(eng, s, v)
            for k in kids:
                if isinstance(k, Ref) and is_node(eng, s, k):
                    names += audited_names(eng, s, k)
            eng.policy.events.clear()
            rs = []
            for s1, f in eng.getattr(s.fork(), v, "construct"):
                rs += [(s1, f)] if isinstance(f, Raise) else list(eng.call(s1, f, [], {}))
            npath += sum(eng.feasible(x) for x, _ in rs)
            for kind, st, kw in list(eng.policy.events):
                why = None
                if kind in ("resolve",):
                    nres += 1
                    m, c = kw["module"], kw["name"]
                    if isinstance(m, Conc) and isinstance(c, Conc):
                        continue
                    ms, cs = [V.s(eng.reify(st, x)) for x in (m, c)]
                    used = z3.Concat(ms, z3.StringVal("."), cs)
                    # import_module and getattr raise for names that are no strings
                    strs = z3.And(*[V.is_S(eng.reify(st, x)) for x in (m, c)])
                    if not any(valid(eng, joint(sa, st), z3.Implies(strs, t == used)) for sa, t in names):
                        why = "the resolved name is not the audited one"
                elif kind == "import":
                    if not isinstance(kw["module"], Conc):
                        why = "a module is imported outside of the name resolution"
                elif kind == "open":
                    why = "a file is opened"
                elif kind == "construct":
                    ncon += 1
                    node = kw["node"]
                    if not any(is_node(eng, st, k) and same_node(eng, st, node, k) for k in kids):
                        # a node found by its id was created by get_tree, which makes it the child of another node
                        if not node.t.decl().name() == "memo":
                            why = "a node is constructed that was not audited"
                elif kind == "getattr_dyn":
                    if isinstance(kw["name"], Conc):
                        continue
                    if not dyn_ok(eng, st, kw, names):
                        why = "an attribute is looked up whose name was not audited"
                elif kind == "call_unknown":
                    ncall += 1
                    why = call_violation(eng, st, kw)
                if why and eng.feasible(st):
                    bad += 1
                    key = (kind, why)
                    groups.setdefault(key, describe(eng, st, kind, kw))
            for x, r in rs:
                if isinstance(r, Raise) or not eng.feasible(x):
                    continue
                o = origin(eng, r)
                if not o <= {"ret", "built", "resolved", "local", "live", "bytesio", "json"}:
                    groups.setdefault(("return", f"the object comes from {sorted(o)}"), show(eng, x, r))
        for (kind, why), d in groups.items():
            eng.oblige_bool(f"{label(cls)}.construct: {why}", False, d)
        eng.oblige_bool(f"{label(cls)}.construct uses what was audited: {nres} resolutions, {ncon} children, {ncall} calls on {npath} paths", not groups and npath > 0)
    return mk


def dyn_ok(eng, st, kw, names):
    """getattr(obj, name): the audited name is <name of the type of obj>.<name> on this path"""
    o, nm = kw["obj"], kw["name"]
    ot = eng.reify(st, o)
    tn = lambda t: V.s(eng.ufV("typename", t))
    cand = [tn(ot)]
    for a in (SVal(ot, o.tag if isinstance(o, SVal) else None),):
        for s2, ty in eng.call(st.fork(), Conc(type), [a], {}):
            if not isinstance(ty, Raise):
                cand.append(tn(eng.reify(s2, ty)))
    ns = V.s(eng.reify(st, nm))
    isstr = V.is_S(eng.reify(st, nm))     # getattr raises for other names
    return any(valid(eng, joint(sa, st), z3.Implies(isstr, t == z3.Concat(c, z3.StringVal("."), ns))) for sa, t in names for c in cand)


PURE_NUMPY = """empty empty_like zeros zeros_like ones ones_like full full_like array asarray asanyarray ascontiguousarray
asfortranarray copy copyto reshape ravel transpose concatenate stack prod ndim shape size arange dtype broadcast_to
atleast_1d array_equal isscalar result_type frombuffer require expand_dims squeeze""".split()
LIBRARY = ("numpy", "scipy", "sklearn", "quantile_forest", "skops")


def call_violation(eng, st, kw):
    f = kw["fn"]
    if isinstance(f, Conc):
        fn = f.v
        if fn is np.load:
            ap = kw["kwargs"].get("allow_pickle", kw["args"][2] if len(kw["args"]) > 2 else Conc(False))
            if not (isinstance(ap, Conc) and ap.v is False):
                return "numpy.load may unpickle"
            return None if origin(eng, kw["args"][0]) <= {"bytesio"} else "numpy.load reads something else than a member of the archive"
        import scipy.sparse
        if fn is scipy.sparse.load_npz:
            return None if origin(eng, kw["args"][0]) <= {"bytesio"} else "load_npz reads something else than a member of the archive"
        if harmless(fn):
            return None
        mod = (getattr(fn, "__module__", None) or "").split(".")[0]
        cls = fn if isinstance(fn, type) else None
        if cls is not None and mod in LIBRARY:
            return None     # a fixed class of the documented families
        if any(fn is getattr(np, q, None) for q in PURE_NUMPY) or getattr(fn, "__objclass__", None) is np.ndarray and fn.__name__ in ("view", "reshape", "copy", "ravel", "astype", "transpose", "fill", "tolist"):
            return None
        if getattr(fn, "__qualname__", "") in ("tuple.__new__", "object.__new__"):
            return None
        if fn is tuple.__new__ or fn is object.__new__:
            return None
        return f"{live_name(fn)} is called"
    o = origin(eng, f)
    # objects and methods of objects whose types were audited; names that were audited (see the resolutions)
    return None if o <= {"built", "ret", "resolved", "bytesio", "zip", "local", "json", "live"} else f"something obtained from {sorted(o)} is called"


def valid(eng, st, goal):
    return eng.prover.valid(st.pc, goal) == "valid"
