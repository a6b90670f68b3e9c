"""Round-trip lemmas (C04, C05, C07), contracts on the states that are saved (C12) and on identities (C06).

For each kind of value the registered *_get_state function of the current tree is executed symbolically on an
arbitrary value of that kind, with get_state used through its contract (it raises, or returns the state of the
value). The state it returns is taken through json, and passed to the node class that the state names, executed
with get_tree and construct used through theirs: induction hypothesis of the round trip, the child of the state of v
builds v. The result must be the value, of the same type, for every path on which saving does not raise."""
from __future__ import annotations
import collections, copyreg, functools, importlib, io, json, math, operator, re, sys, types, uuid, zipfile
import numpy as np
from pyvc.harness import *
from pyvc.engine import Known, SeqConst, SeqVar, SeqFlat, BoundM, Tup, Conc, StarArgs
from pyvc import ext as X
from contracts import nodeproof as NP
from contracts.nodeproof import live, NOTLIVE, cell, origin

ATOMS = (str, int, float, bool, type(None))


PLANTED = {}    # only for the guards


def dispatch():
    """{type: get_state function} of the current tree"""
    import skops.io._persist  # noqa
    from skops.io._utils import _get_state
    return {**_get_state.registry, **PLANTED}


# ------------------------------------------------------------------ values
def loaded(e, s, v):
    """what the node of the state of v builds, by induction hypothesis: a value equal to v, of the same type"""
    if isinstance(v, (Conc, SStr, SInt, SBool, SVal)):
        return v
    if isinstance(v, Tup):
        return Tup(tuple(loaded(e, s, x) for x in v.items))
    if isinstance(v, Ref):
        c = s.heap[v.addr]
        if isinstance(c, ListCell):
            return e.alloc(s, ListCell(tuple(e.map_seg(g, lambda x: loaded(e, s, x)) for g in e.norm_segs(s, c.segs)), c.kind))
        if isinstance(c, DictCell):
            return e.alloc(s, DictCell(tuple((g[0], g[1], loaded(e, s, g[2])) if g[0] == "k" else g for g in c.segs), c.cls))
        return v
    raise Unsupported(f"value {v!r} as a child")


def through_json(e, s, v, bad, where="state"):
    """the value that json gives back; bad collects what is not valid json or changes"""
    if isinstance(v, (SStr, SInt, SBool)):
        return v
    if isinstance(v, Conc):
        if v.v is None or type(v.v) in (str, int, bool) or type(v.v) is float and math.isfinite(v.v):
            return v
        bad.append(f"{where}: {v.v!r} is no json")
        return v
    if isinstance(v, SVal):
        if isinstance(v.tag, tuple) and v.tag[0] == "stateof":
            return v
        if isinstance(v.tag, tuple) and v.tag[0] == "part":      # taken out of the state of a value
            return v
        bad.append(f"{where}: {show(e, s, v)} need not be json")
        return v
    if isinstance(v, Tup):
        return e.new_list(s, [through_json(e, s, x, bad, f"{where}[{i}]") for i, x in enumerate(v.items)])
    if isinstance(v, Ref):
        c = s.heap[v.addr]
        if isinstance(c, ListCell) and c.kind in ("list", "tuple"):
            return e.alloc(s, ListCell(tuple(e.map_seg(g, lambda x: through_json(e, s, x, bad, where + "[]")) for g in e.norm_segs(s, c.segs)), "list"))
        if isinstance(c, DictCell) and c.cls is dict:
            out = []
            for g in c.segs:
                if g[0] == "k":
                    if not e_is_str(e, s, g[1]):
                        bad.append(f"{where}: the key {show(e, s, g[1])} is no string")
                    out.append(("k", g[1], through_json(e, s, g[2], bad, f"{where}[{show(e, s, g[1])}]")))
                else:
                    def kv(t):
                        p = e.as_tuple(t)
                        if p is None:
                            raise Unsupported("dict entry")
                        if not e_is_str(e, s, p[0]):
                            bad.append(f"{where}: the key {show(e, s, p[0])} is no string")
                        return Tup((p[0], through_json(e, s, p[1], bad, where + "{}")))
                    if not distinct_keys(e, s, g[1]):
                        bad.append(f"{where}: the keys need not be distinct")
                    out.append(("s", e.map_seg(g[1], kv)))
            return e.alloc(s, DictCell(tuple(out)))
    bad.append(f"{where}: {show(e, s, v)} is no json")
    return v


def distinct_keys(e, s, g):
    """the keys of a segment of a dict are distinct for distinct items of the source"""
    keys = e.map_seg(g, lambda t: e.as_tuple(t)[0])
    if isinstance(g, SeqVar) and g.info in ("entries", "items"):
        return True
    if not isinstance(keys, SeqFlat) or len(keys.cases) != 1 or len(keys.cases[0][1]) != 1 or len(keys.cases[0][1][0].vals) != 1:
        return False
    k = z3.simplify(e.reify(s, keys.cases[0][1][0].vals[0]))
    i, j = keys.idx, z3.Int("j@distinct")
    if k.eq(z3.simplify(V.S(e.ufV("strO", V.I(i), res=z3.StringSort())))):
        return True     # str of the position
    if k.decl().name() == "keyname":
        # the code made sure of it: no name is None, and there are as many different names as items
        tl = e.reify_segs(s, (keys,), "list")
        if e.prover.valid(s.pc, z3.Not(e.ufV("mem", tl, V.none, res=z3.BoolSort()))) != "valid":
            return False
    if e.prover.valid(list(s.pc) + [i >= 0, j >= 0, i != j], k != z3.substitute(k, (i, j))) == "valid":
        return True
    t = e.reify_segs(s, (keys,), "set")
    return e.prover.valid(s.pc, e.ufV("len", t, res=z3.IntSort()) == keys.src.len) == "valid"


def e_is_str(e, s, v):
    if isinstance(v, SStr) or isinstance(v, Conc) and type(v.v) is str:
        return True
    return isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "keyname"


# ------------------------------------------------------------------ contracts of the callees
class RtPolicy(NP.NodePolicy):
    values_only = True      # obligations on values, none on which functions are called


def base_method(eng, T, name):
    """T.name(obj, ..): the method of the builtin type itself"""
    f = getattr(T, name)

    def h(e, s, a, k):
        o = a[0]
        if name == "__iter__":
            for s1, segs in e.iterate(s, o):
                yield s1, (segs if isinstance(segs, Raise) else e.alloc(s1, ListCell(tuple(segs))))
            return
        if name == "__setitem__":
            i = live(e, s, a[1])
            if isinstance(o, Ref) and isinstance(s.heap[o.addr], DictCell):
                e.dict_set(s, o, a[1], a[2])
                yield s, Conc(None)
                return
            if isinstance(o, Ref) and isinstance(s.heap[o.addr], ListCell) and i == slice(None):
                c = s.heap[o.addr]
                s.heap[o.addr] = ListCell(tuple(e.norm_segs(s, e.iter_segs(s, a[2]))), c.kind)
                yield s, Conc(None)
                return
            raise Unsupported("__setitem__")
        yield from e.call_builtin_method(s, name, o, a[1:], k)
    eng.ext[f] = h


def setup(eng, st):
    """returns (save context, load context)"""
    import skops.io._utils as us
    import skops.io._audit as au
    import skops.io._general as ge
    _, lc, _ = NP.setup(eng, st, "none")
    st.ghost["written"] = ()

    def get_state(e, s, a, k):
        v = a[0] if a else k["value"]
        e.policy.event(e, s, "get_state", value=v)
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("state", e.reify(s, v)), ("stateof", v))
    eng.contracts[us.get_state] = get_state
    eng.attr_overrides[("stateof", None)] = None

    def tree(e, s, a, k):
        v = dict(zip(("state", "load_context", "trusted"), a))
        v.update(k)
        x = v["state"]
        e.policy.event(e, s, "get_tree", state=x, trusted=v.get("trusted"))
        if not (isinstance(x, SVal) and isinstance(x.tag, tuple) and x.tag[0] in ("stateof", "part")):
            raise Unsupported(f"get_tree of {show(e, s, x)[:100]}")
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("tree", e.reify(s, x)), ("node", x))
    eng.contracts[au.get_tree] = tree

    def construct(e, s, v, a, k):
        yield s.fork(), Raise(ExcV(Exception, (), False))
        x = v.tag[1]
        if not isinstance(x, SVal):
            raise Unsupported("construct of an unknown node")
        yield s, loaded(e, s, x.tag[1])
    eng.attr_overrides[("node", "construct()")] = construct

    def attrs(e, s, a, k):
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("attrs", e.reify(s, a[0])), ("attrsof", a[0]))
    eng.contracts[ge.get_attrs] = attrs

    def set_attrs(e, s, a, k):
        v = dict(zip(("instance", "attrs"), a))
        v.update(k)
        s.ghost["set_attrs"] = s.ghost.get("set_attrs", ()) + ((v["instance"], v["attrs"]),)
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, Conc(None)
    eng.contracts[ge.set_attrs] = set_attrs
    if any(hasattr(au.Node, m) for m in ("__bool__", "__len__")):
        raise Unsupported("nodes have a truth value")
    eng.attr_overrides[("node", "__bool__")] = lambda e, s, v: z3.BoolVal(True)
    eng.ext_tags = set(eng.ext_tags) | {"outzip", "bytesio", "smemo", "ndarray"}
    for f in (math.isfinite, math.isnan, math.isinf):
        eng.ext[f] = X.concrete_or(f, X.pure(f"math.{f.__name__}", "bool"))
    # the archive that is written
    def writestr(e, s, v, a, k):
        s.ghost["written"] = s.ghost["written"] + ((a[0], a[1]),)
        yield s, Conc(None)
    eng.attr_overrides[("outzip", "writestr()")] = writestr
    eng.attr_overrides[("outzip", "namelist()")] = lambda e, s, v, a, k: iter([(s, SVal(z3.Const("members", V), ("list", "str")))])

    def read(e, s, v, a, k):
        n = e.reify(s, a[0])
        for name, data in reversed(s.ghost["written"]):
            if e.prover.valid(s.pc, e.reify(s, name) == n) == "valid":
                yield s, data
                return
        if isinstance(a[0], SStr):
            # written before, under the name that stands for the object
            yield s, SVal(e.ufV("member", n), ("bytes",))
            return
        raise Unsupported("read of a member that was not written")
    eng.attr_overrides[("zip", "read()")] = read
    eng.ext[uuid.uuid4] = lambda e, s, a, k: iter([(s, SVal(z3.Const(e.fresh("uuid"), V), ("uuid",)))])

    # methods of the builtin types
    for T in (list, set, tuple, dict, collections.OrderedDict):
        for m in ("__iter__", "__setitem__", "items", "keys", "values", "clear", "update", "append", "extend", "add"):
            if hasattr(T, m):
                base_method(eng, T, m)
    eng.ext[bool] = bool_of
    t0 = eng.ext[type]

    def type_(e, s, a, k):
        if len(a) == 1 and isinstance(a[0], SVal) and X.type_of(e, s, a[0]) is None:
            c = e.ufV("class_of", a[0].t)
            if a[0].tag is None or a[0].tag[0] == "ret":
                s.assume(z3.Implies(c == e.const_of(str), V.is_S(a[0].t)))
            yield s, SVal(c, ("typeof", a[0]))
            return
        yield from t0(e, s, a, k)
    eng.ext[type] = type_
    sc = eng.alloc(st, ObjCell(us.SaveContext, {"zip_file": SVal(z3.Const("out", V), ("outzip",)), "protocol": Conc(None), "memo": SVal(z3.Const("smemo", V), ("smemo",))}))
    eng.contracts[us.SaveContext.memoize] = lambda e, s, a, k: iter([(s, SInt(e.ufV("id", e.reify(s, a[1] if len(a) > 1 else k["obj"]), res=z3.IntSort())))])
    eng.ext[id] = lambda e, s, a, k: iter([(s, SInt(e.ufV("id", e.reify(s, a[0]), res=z3.IntSort())))])
    return sc, lc


def bool_of(e, s, a, k):
    v = a[0]
    if isinstance(v, SBool):
        yield s, v
        return
    yield from X.b_bool(e, s, a, k)


def seq(eng, name):
    """an arbitrary sequence of arbitrary values"""
    return eng.seq_of(SVal(z3.Const(name, V), ("list", None)))


# ------------------------------------------------------------------ the lemma
def roundtrip(eng, st, name, fn, obj, sc, lc, expect, refuse=None, load_raises=False):
    """expect(e, s, result) -> (ok, detail) on every path; refuse: whether fn itself may refuse the value"""
    from skops.io._audit import NODE_TYPE_MAPPING, Node
    from skops.io._protocol import PROTOCOL
    import skops.io._utils as us
    n = m = 0
    before = {k: c for k, c in st.heap.items() if isinstance(obj, Ref)}
    changes, event = [], eng.event

    def watch(s, kind, **kw):
        if kind in ("setattr", "setitem", "delitem", "mutate", "live_write"):
            changes.append(f"{kind} {kw.get('name')} {str(kw.get('obj'))[:80]}")
        return event(s, kind, **kw)
    eng.event = watch
    outs = list(eng.run(fn, [obj, sc], {}, st))
    eng.event = event
    eng.oblige_bool(f"{name}: saving does not modify the value", not changes, "; ".join(changes[:4]))
    for s, r in outs:
        if not eng.feasible(s):
            continue
        if isinstance(obj, Ref) and s.heap[obj.addr] is not before[obj.addr]:
            eng.oblige_bool(f"{name}: saving does not modify the value", same_cell(eng, s, s.heap[obj.addr], before[obj.addr]), show(eng, s, obj))
        if isinstance(r, Raise):
            if r.exc.exact and not (refuse and refuse(eng, s)):
                eng.oblige_bool(f"{name}: is not refused", False, f"raises {exc_name(r.exc)} on path {'; '.join(str(c)[:80] for c in s.pc[-6:])}")
            continue
        n += 1
        bad = []
        js = through_json(eng, s, r, bad)
        eng.oblige_bool(f"{name}: the state is json #{n}", not bad, "; ".join(bad)[:600])
        if not (isinstance(js, Ref) and isinstance(cell(s, js), DictCell)):
            eng.oblige_bool(f"{name}: the state is a dict #{n}", False, show(eng, s, js))
            continue
        c = cell(s, js)
        known = {g[1].v: g[2] for g in c.segs if g[0] == "k" and isinstance(g[1], Conc)}
        loader = known.get("__loader__")
        if not (isinstance(loader, Conc) and (loader.v, PROTOCOL) in NODE_TYPE_MAPPING):
            eng.oblige_bool(f"{name}: the loader is registered for the protocol #{n}", False, f"{loader}")
            continue
        for key in ("__class__", "__module__"):
            x = known.get(key)
            ok = isinstance(x, SStr) or isinstance(x, Conc) and type(x.v) is str
            eng.oblige_bool(f"{name}: {key} is a string #{n}", ok, str(x))
        # "file": a member of this archive
        w = [nm for nm, _ in s.ghost["written"]]
        for nm in w:
            eng.oblige_bool(f"{name}: the name of the member is flat #{n}", flat(eng, s, nm), show(eng, s, nm))
            eng.oblige_bool(f"{name}: the state refers to the member that is written #{n}", "file" in known and eng.same(s, known["file"], nm), show(eng, s, nm))
        if "file" in known:
            f = known["file"]
            ok = any(eng.same(s, f, nm) for nm in w) or member_by_id(eng, s, f, obj)
            eng.oblige_bool(f"{name}: the file of the state is in the archive #{n}", ok, f"file {show(eng, s, f)}, written {[show(eng, s, x) for x in w]}")
        eng.dict_set(s, js, Conc("__id__"), SInt(eng.ufV("id", eng.reify(s, obj), res=z3.IntSort())))
        cls = NODE_TYPE_MAPPING[(loader.v, PROTOCOL)]
        for s1, node in eng.call(s, Conc(cls), [js, lc], {"trusted": Conc(None)}):
            outs = []
            if isinstance(node, Raise):
                outs = [(s1, node)]
            else:
                for s2, f in eng.getattr(s1, node, "construct"):
                    outs += [(s2, f)] if isinstance(f, Raise) else list(eng.call(s2, f, [], {}))
            for s3, v in outs:
                if not eng.feasible(s3):
                    continue
                if isinstance(v, Raise):
                    if v.exc.exact and not load_raises:
                        eng.oblige_bool(f"{name}: what was saved can be loaded", False, f"raises {exc_name(v.exc)} on path {'; '.join(str(c)[:80] for c in s3.pc[-6:])}")
                    continue
                m += 1
                ok, detail = expect(eng, s3, v)
                eng.oblige_bool(f"{name}: what is loaded is what was saved #{m}", ok, detail if not ok else "")
    eng.oblige_bool(f"{name}: {n} states, {m} paths", n > 0 and m > 0, "no feasible path", kind="vacuity")


def same_cell(eng, s, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, ListCell):
        return a.kind == b.kind and eng.same_segs(s, a.segs, b.segs)
    if isinstance(a, DictCell):
        return eng.same_segs(s, eng.dict_to_segs(a), eng.dict_to_segs(b))
    return a.attrs == b.attrs


def flat(eng, s, name):
    """the name of a member has no directories: made of constants without separators, numbers and uuids"""
    def ok(t):
        if z3.is_string_value(t):
            x = t.as_string()
            return not any(c in x for c in "/\\:\0")
        k = t.decl().name() if z3.is_app(t) else ""
        if k in ("str.++", "if") or t.decl().kind() in (z3.Z3_OP_SEQ_CONCAT,):
            return all(ok(c) for c in t.children() if c.sort() == z3.StringSort())
        if k == "s":
            return ok(t.children()[0])
        if k == "strO":
            a = t.children()[0]
            return a.decl().name() == "I" or a.decl().name().startswith("uuid")
        return k.startswith(("uuid", "str.from_int", "int.to.str"))
    t = z3.simplify(V.s(eng.reify(s, name)))
    if z3.is_string_value(t):
        return False        # the same for every object
    return ok(t)


def member_by_id(eng, s, f, obj):
    """f is the name for the object, and a member of that name exists on this path"""
    t = V.s(eng.reify(s, f))
    has = eng.ufV("mem", z3.Const("members", V), V.S(t), res=z3.BoolSort())
    return eng.prover.valid(s.pc, has) == "valid"


def is_value(obj, attrs=True):
    """the result equals obj, and the attributes of obj are restored"""
    def expect(e, s, v):
        want = loaded(e, s, obj)
        if not e.same(s, v, want):
            return False, f"loaded {show(e, s, v)} instead of {show(e, s, want)}"
        return attrs_restored(e, s, v, obj) if attrs else (True, "")
    return expect


def attrs_restored(e, s, v, obj):
    calls = s.ghost.get("set_attrs", ())
    A = SVal(e.ufV("attrs", e.reify(s, obj)), ("attrsof", obj))
    t = e.truth(s, A)
    if e.prover.valid(s.pc, t) == "valid":
        ok = len(calls) == 1 and e.same(s, calls[0][1], A) and (isinstance(calls[0][0], Ref) and isinstance(v, Ref) and calls[0][0].addr == v.addr or calls[0][0] is v)
        return ok, f"attributes set: {len(calls)}"
    if e.prover.valid(s.pc, z3.Not(t)) == "valid":
        return not calls, f"attributes set although there are none: {len(calls)}"
    return False, "the path does not say whether there are attributes"


# ------------------------------------------------------------------ containers
def u_sequence(cls):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        obj = eng.alloc(st, ListCell((seq(eng, "items"),), cls.__name__))
        roundtrip(eng, st, cls.__name__, dispatch()[cls], obj, sc, lc, is_value(obj))
    return mk


def items(eng, name):
    """the entries of an arbitrary dict: any keys, any values, no key twice"""
    t = z3.Const(name, V)
    n = eng.ufV("len", t, res=z3.IntSort())

    def at(i):
        return Tup((SVal(eng.ufV("keyat", t, i), ("anykey",)), SVal(eng.ufV("valat", t, i), None)))
    return SeqVar(f"items({name})", t, at, n, "entries")


def keys_setup(eng):
    """contract of _key_to_name (proved by its own unit): the name of a key that is not None is a string from which
    the type of the key restores the key"""
    import skops.io._general as ge

    def to_name(e, s, a, k):
        key = a[0] if a else k["key"]
        t = e.ufV("keyname", e.reify(s, key))
        yield s, SVal(t, ("keyname", key))
    eng.contracts[ge._key_to_name] = to_name

    def restore(e, s, f, a, k):
        key = f.tag[1]
        t = e.reify(s, key)
        if len(a) == 1 and e.reify(s, a[0]).eq(e.ufV("keyname", t)):
            s.ghost["restored"] = s.ghost.get("restored", ()) + ((key, t),)
            yield s, key
            return
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(z3.Const(e.fresh("restored"), V))
    eng.attr_overrides[("typeof", "__call__")] = restore


def u_dict(cls):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        keys_setup(eng)
        obj = eng.alloc(st, DictCell((("s", items(eng, "D")),), cls))
        for T in (collections.OrderedDict,):
            eng.ext[T] = lambda e, s, a, k: iter([(s, e.alloc(s, DictCell((), T)))]) if not a and not k else iter(())
        base = is_value(obj)
        roundtrip(eng, st, cls.__name__, dispatch()[dict], obj, sc, lc, base)
    return mk


def lossy(e, t):
    """surrogate pairs in a string, which json would merge"""
    return e.ufV("has_surrogate_pair", t, res=z3.BoolSort())


def regex_setup(eng):
    import skops.io._general as ge
    pat = ge.SURROGATE_PAIR
    if pat.pattern != "[\ud800-\udbff][\udc00-\udfff]":
        raise Unsupported("another pattern")

    def search(e, s, a, k):
        t = e.reify(s, a[0])
        for s1, b in e.branch(s, lossy(e, t)):
            m = z3.Const(e.fresh("match"), V)
            if b:
                s1.assume(V.is_O(m))
            yield s1, (SVal(m, ("match",)) if b else Conc(None))
    eng.ext[pat.search] = search
    eng.attr_overrides[("match", "__bool__")] = lambda e, s, v: z3.BoolVal(True)


def u_key_to_name(eng):
    """what _key_to_name returns is None, or a string that json keeps and from which the type of the key makes the key"""
    import skops.io._general as ge
    st = init_state(eng)
    setup(eng, st)
    regex_setup(eng)
    key = SVal(z3.Const("key", V), None)

    def make(e, s, f, a, k):
        yield s.fork(), Raise(ExcV(ValueError, (), False))
        yield s, SVal(e.ufV("make", f.t, *[e.reify(s, x) for x in a]), None)
    eng.attr_overrides[("typeof", "__call__")] = make
    n = m = 0
    for s, r in eng.run(ge._key_to_name, [key], {}, st):
        if not eng.feasible(s):
            continue
        n += 1
        if isinstance(r, Raise):
            # other exceptions are those of the key itself
            if r.exc.exact:
                eng.oblige_bool(f"_key_to_name: a key without a name is no error #{n}", False, f"{r.exc}")
            continue
        if isinstance(r, Conc) and r.v is None:
            continue
        m += 1
        t = eng.reify(s, r)
        cls = eng.ufV("class_of", key.t)
        made = eng.ufV("make", cls, t)
        V_ = lambda g: eng.prover.valid(s.pc, g) == "valid"
        eng.oblige_bool(f"_key_to_name: the name is a string #{m}", V_(V.is_S(t)), show(eng, s, r))
        eng.oblige_bool(f"_key_to_name: the type of the key makes the key from the name #{m}", V_(made == key.t), show(eng, s, r))
        eng.oblige_bool(f"_key_to_name: which is of the same type #{m}", V_(eng.ufV("class_of", made) == cls), show(eng, s, r))
        st2, so = [eng.to_str(s, x) for x in (SVal(made), key)]
        eng.oblige_bool(f"_key_to_name: and has the same text #{m}", V_(st2 == so), show(eng, s, r))
        dumped = t.decl().name() == "S" and "json.dumps" in str(t)      # ascii
        eng.oblige_bool(f"_key_to_name: json keeps the name #{m}", dumped or V_(z3.Not(lossy(eng, t))), show(eng, s, r))
    eng.oblige_bool(f"_key_to_name: {n} paths, {m} names", m > 0, kind="vacuity")


def containers(P):
    P.unit("the names of keys", "_key_to_name", u_key_to_name, policy=RtPolicy())
    for c in (dict, collections.OrderedDict):
        P.unit(f"round trip of {c.__name__}", f"{dispatch()[dict].__name__}", u_dict(c), policy=RtPolicy())
    for c in (list, set, tuple):
        P.unit(f"round trip of {c.__name__}", f"{dispatch()[c].__name__}", u_sequence(c), policy=RtPolicy())



# ------------------------------------------------------------------ other builtin types
def obj_of(eng, st, cls, **attrs):
    return eng.alloc(st, ObjCell(cls, attrs))


def method_of(eng, f, h):
    """contract of a method of a builtin or library type"""
    eng.ext[f] = h


def any_val(name, tag=None):
    return SVal(z3.Const(name, V), tag)


def u_defaultdict(eng):
    st = init_state(eng)
    sc, lc = setup(eng, st)
    main = eng.alloc(st, DictCell((("s", items(eng, "D")),)))
    obj = obj_of(eng, st, collections.defaultdict, default_factory=any_val("factory"), __items__=main)

    def dict_(e, s, a, k):
        if len(a) == 1 and isinstance(a[0], Ref) and isinstance(cell(s, a[0]), ObjCell) and "__items__" in cell(s, a[0]).attrs:
            yield s, e.alloc(s, DictCell(cell(s, cell(s, a[0]).attrs["__items__"]).segs))
            return
        yield from X.b_dict(e, s, a, k)
    eng.ext[dict] = dict_

    def new(e, s, a, k):
        m = None
        for s1, m in dict_(e, s, a[1:2], {}):
            pass
        yield s, e.alloc(s, ObjCell(collections.defaultdict, {"default_factory": a[0] if a else Conc(None), "__items__": m}))
    eng.ext[collections.defaultdict] = new

    def expect(e, s, v):
        ok = isinstance(v, Ref) and e.same(s, v, obj)
        return (ok, f"loaded {show(e, s, v)}") if not ok else attrs_restored(e, s, v, obj)
    roundtrip(eng, st, "defaultdict", dispatch()[collections.defaultdict], obj, sc, lc, expect)


def json_setup(eng):
    """json.loads gives back what json.dumps was given: None, bools, ints, floats, and strings without surrogate
    pairs (trusted contract of the standard library); nan is made by parse_constant"""
    regex_setup(eng)

    def dumps(e, s, a, k):
        if k and set(k) - {"indent"} or len(a) != 1:
            raise Unsupported("json.dumps with options")
        x = a[0]
        if isinstance(x, Conc) and type(x.v) in ATOMS:
            yield s, Conc(json.dumps(x.v))
            return
        yield s, SStr(e.ufV("dumps", e.reify(s, x), res=z3.StringSort()))

    def loads(e, s, a, k):
        x = a[0]
        if isinstance(x, Conc):
            if set(k) - {"parse_constant"}:
                raise Unsupported("json.loads with options")
            pc = k.get("parse_constant")
            if pc is not None and not isinstance(pc, Conc):
                raise Unsupported("parse_constant")
            try:
                v = json.loads(x.v, **({"parse_constant": pc.v} if pc else {}))
            except ValueError:
                yield s, Raise(ExcV(ValueError))
                return
            yield s, Conc(v)
            return
        t = x.t if isinstance(x, SStr) else None
        if t is not None and t.decl().name() == "dumps":
            v = t.arg(0)
            r = e.ufV("through_json", v)
            s.assume(z3.Implies(z3.Not(z3.And(V.is_S(v), lossy(e, v))), r == v))
            if v.decl().name() in ("S", "I", "B"):
                s.assume(getattr(V, "is_" + v.decl().name())(r))
                C = {"S": (SStr, V.s), "I": (SInt, V.i), "B": (SBool, V.b)}[v.decl().name()]
                yield s, C[0](C[1](r))
                return
            yield s, SVal(r)
            return
        raise Unsupported("json.loads of something else")
    eng.ext[json.dumps] = dumps
    eng.ext[json.loads] = loads


ATOM_VALUES = [("a string", lambda: SStr(z3.String("text"))), ("an int", lambda: SInt(z3.Int("number"))), ("a bool", lambda: SBool(z3.Bool("flag"))),
               ("None", lambda: Conc(None)), ("a float", lambda: Conc(1.5)), ("nan", lambda: Conc(float("nan"))), ("inf", lambda: Conc(float("inf"))), ("-0.0", lambda: Conc(-0.0))]


def same_atom(e, s, v, w):
    if isinstance(w, Conc) and type(w.v) is float:
        return isinstance(v, Conc) and type(v.v) is float and repr(v.v) == repr(w.v)
    return e.same(s, v, w)


def u_json(name, mkv):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        json_setup(eng)
        obj = mkv()
        surrogates = (lambda e, s: e.prover.valid(s.pc, lossy(e, e.reify(s, obj))) == "valid") if isinstance(obj, SStr) else None
        roundtrip(eng, st, name, dispatch()[object], obj, sc, lc, lambda e, s, v: (same_atom(e, s, v, obj), f"loaded {show(e, s, v)}"), refuse=surrogates)
        if isinstance(obj, Conc) and isinstance(obj.v, float) and math.isnan(obj.v):
            # each nan is another object, or else dicts and sets lose items
            from skops.io._general import JsonNode
            out, state, ctx, T, ev = NP.instances(eng, JsonNode, "none")
            seen = []

            def loads(e, s, a, k):
                pcst = k.get("parse_constant")
                seen.append(isinstance(pcst, Conc) and callable(pcst.v) and pcst.v("NaN") is not pcst.v("NaN") and repr(pcst.v("-Infinity")) == "-inf")
                yield s, SVal(z3.Const(e.fresh("loaded"), V))
            eng.ext[json.loads] = loads
            for s, node in out:
                for s1, f in eng.getattr(s, node, "construct"):
                    list(eng.call(s1, f, [], {}))
            eng.oblige_bool("nan: each one is a float object of its own", bool(seen) and all(seen), str(seen))
    return mk


def u_slice(names):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        json_setup(eng)
        vals = dict(ATOM_VALUES)
        obj = obj_of(eng, st, slice, **{k: vals[n]() for k, n in zip(("start", "stop", "step"), names)})

        def new(e, s, a, k):
            v = [Conc(None)] * 3
            a = list(a)
            v = [Conc(None), a[0], Conc(None)] if len(a) == 1 else a + [Conc(None)] * (3 - len(a))
            yield s, e.alloc(s, ObjCell(slice, dict(zip(("start", "stop", "step"), v))))
        eng.ext[slice] = new

        def refuse(e, s):
            return any(isinstance(x, SStr) and e.prover.valid(s.pc, lossy(e, V.S(x.t))) == "valid" for x in cell(st, obj).attrs.values())

        def expect(e, s, v):
            ok = isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is slice and all(same_atom(e, s, cell(s, v).attrs[k], cell(s, obj).attrs[k]) for k in ("start", "stop", "step"))
            return ok, f"loaded {show(e, s, v)}"
        roundtrip(eng, st, f"slice of {', '.join(names)}", dispatch()[slice], obj, sc, lc, expect, refuse=refuse)
    return mk


def u_slice_other(eng):
    """a slice of anything else is refused, or stored like a child"""
    st = init_state(eng)
    sc, lc = setup(eng, st)
    json_setup(eng)
    obj = obj_of(eng, st, slice, start=Conc(None), stop=eng.new_list(st, [any_val("x")]), step=Conc(None))
    n = 0
    for s, r in eng.run(dispatch()[slice], [obj, sc], {}, st):
        if eng.feasible(s) and not isinstance(r, Raise):
            bad = []
            through_json(eng, s, r, bad)
            n += 1
            eng.oblige_bool(f"slice of a list: the state is json #{n}", not bad, "; ".join(bad)[:300])
    eng.oblige_bool("slice of a list: refused or json", True)


def u_bytes(cls):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        obj = any_val("data", ("bytes", cls))
        t0 = eng.ext[type]
        eng.ext[type] = lambda e, s, a, k: iter([(s, Conc(cls))]) if a[0] is obj else t0(e, s, a, k)
        eng.attr_overrides[("bytes", "__class__")] = lambda e, s, v, n: iter([(s, Conc(v.tag[1] if len(v.tag) > 1 else bytes))])

        def bytesio(e, s, a, k):
            yield s, SVal(e.ufV("bytesio", e.reify(s, a[0])) if a else z3.Const(e.fresh("bytesio"), V), ("bytesio", a[0] if a else None))
        eng.ext[io.BytesIO] = bytesio
        eng.attr_overrides[("bytesio", "getvalue()")] = lambda e, s, v, a, k: iter([(s, as_type(e, s, v.tag[1], bytes))])
        # bytearray(list(b)), bytearray(b): the same bytes
        l0 = eng.ext[list]
        eng.ext[list] = lambda e, s, a, k: iter([(s, SVal(e.ufV("ints", a[0].t), ("ints", a[0])))]) if a and isinstance(a[0], SVal) and isinstance(a[0].tag, tuple) and a[0].tag[0] == "bytes" else l0(e, s, a, k)
        eng.ext[bytearray] = lambda e, s, a, k: iter([(s, as_type(e, s, ints(a), bytearray))])
        eng.ext[bytes] = lambda e, s, a, k: iter([(s, as_type(e, s, ints(a), bytes))])
        roundtrip(eng, st, cls.__name__, dispatch()[cls], obj, sc, lc,
                  lambda e, s, v: (isinstance(v, SVal) and v.t.eq(obj.t) and v.tag == obj.tag, f"loaded {show(e, s, v)} of type {v.tag}"))
    return mk


def ints(a):
    v = a[0] if len(a) == 1 else None
    return v.tag[1] if isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "ints" else v


def as_type(e, s, v, cls):
    if not (isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "bytes"):
        raise Unsupported("bytes of something else")
    return SVal(v.t, ("bytes", cls))


def u_partial(eng):
    st = init_state(eng)
    sc, lc = setup(eng, st)
    P = functools.partial
    parts = Tup((any_val("func"), any_val("args", ("list", None)), any_val("kwds", ("dict", "str", None)), any_val("namespace", ("dict", "str", None))))
    obj = obj_of(eng, st, P, __parts__=parts)
    eng.ext[P.__reduce__] = lambda e, s, a, k: iter([(s, Tup((Conc(P), Tup((parts.items[0],)), cell(s, a[0]).attrs["__parts__"])))])
    eng.ext[P] = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(P, {"__parts__": Conc(None)})))])

    def setstate(e, s, a, k):
        s.heap[a[0].addr] = ObjCell(P, {"__parts__": a[1]})
        yield s, Conc(None)
    eng.ext[P.__setstate__] = setstate

    def expect(e, s, v):
        return isinstance(v, Ref) and e.same(s, v, obj), f"loaded {show(e, s, v)}"
    roundtrip(eng, st, "partial", dispatch()[P], obj, sc, lc, expect)


def u_operator(cls):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        args = any_val("args", ("list", None))
        obj = obj_of(eng, st, cls, args=args)

        def reduce(e, s, a, k):
            yield s.fork(), Tup((Conc(cls), args))
            if cls is operator.methodcaller:    # with keyword arguments
                yield s, Tup((obj_of(e, s, functools.partial, x=any_val("p")), any_val("args2", ("list", None))))
        eng.ext[cls.__reduce__] = reduce

        def new(e, s, a, k):
            if k or len(a) != 1 or not isinstance(a[0], StarArgs):
                raise Unsupported("arguments")
            yield s, e.alloc(s, ObjCell(cls, {"args": e.alloc(s, ListCell(tuple(a[0].segs)))}))
        eng.ext[cls] = new

        def expect(e, s, v):
            ok = isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is cls and e.same(s, cell(s, v).attrs["args"], args)
            return ok, f"loaded {show(e, s, v)}"
        roundtrip(eng, st, cls.__name__, dispatch()[cls], obj, sc, lc, expect, refuse=(lambda e, s: True) if cls is operator.methodcaller else None)
    return mk


def u_named(T, label):
    """functions and types: what is loaded is what the name of the object stands for; get_state checked (own unit)
    that this is the object"""
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        obj = any_val("f", ("fn",))
        eng.attr_overrides[("fn", "__name__")] = lambda e, s, v, n: iter([(s, SStr(V.s(e.ufV("attr.__name__", v.t))))])
        eng.attr_overrides[("fn", "__qualname__")] = lambda e, s, v, n: iter([(s, SStr(V.s(e.ufV("attr.__qualname__", v.t))))])
        nm = V.S(V.s(eng.ufV("attr.__name__", obj.t)))
        md = V.S(V.s(eng.ufV("modulename", obj.t)))

        def expect(e, s, v):
            want = e.ufV("resolved", md, nm)
            return isinstance(v, SVal) and e.prover.valid(s.pc, v.t == want) == "valid", f"loaded {show(e, s, v)}"
        # an empty name or module is refused when loading
        roundtrip(eng, st, label, dispatch()[T], obj, sc, lc, expect, load_raises=True)
    return mk


class Plain:
    """stands for an arbitrary class whose instances are reduced"""


def u_object(kind):
    """objects that are restored from what __reduce_ex__ says"""
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        json_setup(eng)
        attrs = any_val("state")
        args = any_val("args", ("list", None))
        obj = obj_of(eng, st, Plain)
        N = Conc(None)
        out = {"attributes": Tup((Conc(copyreg.__newobj__), Tup((Conc(Plain),)), attrs, N, N)),
               "constructor": Tup((Conc(Plain), args)),
               "constructor, five": Tup((Conc(Plain), args, N, N, N)),
               "constructor and attributes": Tup((Conc(Plain), args, any_val("state", ("dict", "str", None)))),
               "more arguments": Tup((Conc(copyreg.__newobj__), Tup((Conc(Plain), any_val("extra"))), attrs, N, N)),
               "another type": Tup((Conc(copyreg.__newobj__), Tup((Conc(dict),)), attrs, N, N)),
               "list items": Tup((Conc(copyreg.__newobj__), Tup((Conc(Plain),)), attrs, any_val("it", ("iterator",)), N)),
               "dict items": Tup((Conc(copyreg.__newobj__), Tup((Conc(Plain),)), attrs, N, any_val("it", ("iterator",)))),
               "global": SStr(z3.String("global_name"))}[kind]
        for v in ("it",):
            st.assume(V.is_O(z3.Const(v, V)))
        eng.ext[Plain.__reduce_ex__] = eng.ext[object.__reduce_ex__] = lambda e, s, a, k: iter([(s, out)])
        eng.ext[object.__new__] = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(a[0].v, {})))])

        def new(e, s, a, k):
            if k or len(a) != 1 or not isinstance(a[0], StarArgs):
                raise Unsupported("arguments")
            yield s, e.alloc(s, ObjCell(Plain, {"args": e.alloc(s, ListCell(tuple(a[0].segs)))}))
        eng.ext[Plain] = new

        def expect(e, s, v):
            ok = isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is Plain
            calls = s.ghost.get("set_attrs", ())
            if ok and kind == "attributes":
                none = e.prover.valid(s.pc, V.is_none(attrs.t)) == "valid"
                some = e.prover.valid(s.pc, z3.Not(V.is_none(attrs.t))) == "valid"
                ok = not cell(s, v).attrs and (none and not calls or some and len(calls) == 1 and calls[0][0].addr == v.addr and e.same(s, calls[0][1], attrs))
            elif ok and kind.startswith("constructor"):
                ok = "args" in cell(s, v).attrs and e.same(s, cell(s, v).attrs["args"], args) and not calls
            return ok, f"loaded {show(e, s, v)}, {len(calls)} calls of set_attrs"
        if kind in ("attributes", "constructor", "constructor, five"):
            roundtrip(eng, st, f"object reduced to {kind}", dispatch()[object], obj, sc, lc, expect)
            return
        # everything else would lose something: it is refused
        n = 0
        for s, r in eng.run(dispatch()[object], [obj, sc], {}, st):
            if not eng.feasible(s):
                continue
            n += 1
            eng.oblige_bool(f"object reduced to {kind}: is refused #{n}", isinstance(r, Raise), show(eng, s, r) if not isinstance(r, Raise) else "")
        eng.oblige_bool(f"object reduced to {kind}: {n} paths", n > 0, kind="vacuity")
    return mk


def builtins_(P):
    D = dispatch()
    u = lambda name, fn, mk: P.unit(name, fn, mk, policy=RtPolicy())
    u("round trip of defaultdict", "defaultdict_get_state, DefaultDictNode", u_defaultdict)
    for n, v in ATOM_VALUES:
        u(f"round trip of {n}", "object_get_state, JsonNode", u_json(n, v))
    kinds = [n for n, _ in ATOM_VALUES]
    for i in range(3):
        for n in kinds:
            for rest in ("None", "an int"):
                names = [rest] * 3
                names[i] = n
                u(f"round trip of slice({', '.join(names)})", "slice_get_state, SliceNode", u_slice(names))
    u("slices of other values", "slice_get_state", u_slice_other)
    for c in (bytes, bytearray):
        u(f"round trip of {c.__name__}", "bytes_get_state, BytesNode", u_bytes(c))
    u("round trip of partial", "partial_get_state, PartialNode", u_partial)
    for c in (operator.attrgetter, operator.itemgetter, operator.methodcaller):
        u(f"round trip of {c.__name__}", "operator_func_get_state, OperatorFuncNode", u_operator(c))
    for T in D:
        if T in (types.FunctionType, type, type(len), np.ufunc) or T.__name__ == "_ArrayFunctionDispatcher":
            u(f"round trip of {T.__name__}", D[T].__name__, u_named(T, T.__name__))
    for k in ("attributes", "constructor", "constructor, five", "constructor and attributes", "more arguments", "another type", "list items", "dict items", "global"):
        u(f"objects reduced to {k}", "object_get_state, ObjectNode, ConstructorFromReduceNode", u_object(k))


# ------------------------------------------------------------------ numpy, scipy
def instance_tag(eng):
    """values with the tag ("is", class, attributes): arbitrary instances of a library class"""
    if getattr(eng, "_is_tag", False):
        return
    eng._is_tag = True
    eng.ext_tags = set(eng.ext_tags) | {"is"}
    t0 = eng.ext[type]

    def type_(e, s, a, k):
        if len(a) == 1 and is_a(a[0]):
            yield s, Conc(a[0].tag[1])
            return
        yield from t0(e, s, a, k)
    eng.ext[type] = type_

    def attr(e, s, v, n):
        at = v.tag[2] if len(v.tag) > 2 else {}
        if n == "__class__":
            return iter([(s, Conc(v.tag[1]))])
        if n in at:
            r = at[n]
            return r(e, s, v) if callable(r) and not isinstance(r, Val) else iter([(s, r)])
        if n + "()" in at:
            return None
        return iter([(s, e.exc(AttributeError, Conc(n)))])
    eng.attr_overrides[("is", None)] = attr


def is_a(v, cls=None):
    return isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "is" and (cls is None or v.tag[1] is cls)


def method(eng, cls_tag, name, h):
    eng.attr_overrides[(cls_tag, name + "()")] = h


def array_setup(eng, st):
    """contracts of numpy on arrays that contain no Python objects: np.load(np.save(x)) is x as np.ndarray; view,
    [()] and the scalar types give the same value as another type (trusted)"""
    instance_tag(eng)
    is_object = z3.Bool("dtype_is_object")

    def eq(e, s, a, b):
        x, y = (a, b) if is_a(a) else (b, a)
        if is_a(x, np.dtype) and isinstance(y, Conc) and y.v is object:
            return is_object if x.t.eq(z3.Const("dtype", V)) else z3.Bool(e.fresh("object_dtype"))
        return e.ufV("eqV", e.reify(s, a), e.reify(s, b), res=z3.BoolSort()) if not e.reify(s, a).eq(e.reify(s, b)) else z3.BoolVal(True)
    eng.attr_overrides[("is", "__eq__")] = eq
    bio = lambda e, s, data: SVal(z3.Const(e.fresh("bytesio"), V), ("bytesio", data))

    def bytesio(e, s, a, k):
        v = bio(e, s, a[0] if a else None)
        s.ghost.setdefault("buffers", {})
        s.ghost["buffers"] = {**s.ghost["buffers"], str(v.t): a[0] if a else None}
        yield s, v
    eng.ext[io.BytesIO] = bytesio
    data = lambda e, s, v, a, k: iter([(s, s.ghost["buffers"][str(v.t)])])
    for m in ("getbuffer", "getvalue"):
        eng.attr_overrides[("bytesio", m + "()")] = data

    def save(kind, order):
        def h(e, s, a, k):
            v = dict(zip(order, a))
            v.update(k)
            if kind == "npy":
                p = v.get("allow_pickle", Conc(True))
                if not (isinstance(p, Conc) and p.v is False):
                    e.oblige_bool("np.save: arrays are not pickled", False, str(p))
            if kind == "npy":
                # arrays of dtypes with fields that are Python objects
                for s1, b in e.branch(s.fork(), z3.Bool("has_object_fields")):
                    if b:
                        yield s1, Raise(ExcV(ValueError))
                s.assume(z3.Not(z3.Bool("has_object_fields")))
            b, x = v[order[0]], v[order[1]]
            s.ghost["buffers"] = {**s.ghost["buffers"], str(b.t): SVal(e.ufV(f"{kind}_of", e.reify(s, x)), (kind, x))}
            yield s, Conc(None)
        return h
    eng.ext[np.save] = save("npy", ("file", "arr"))
    import scipy.sparse as sp
    eng.ext[sp.save_npz] = save("npz", ("file", "matrix"))

    def load(e, s, a, k):
        p = k.get("allow_pickle", Conc(False))
        if not (isinstance(p, Conc) and p.v is False):
            e.oblige_bool("np.load: nothing is unpickled", False, str(p))
        b = a[0]
        d = s.ghost["buffers"].get(str(b.t)) if isinstance(b, SVal) else None
        if isinstance(d, SVal) and isinstance(d.tag, tuple) and d.tag[0] == "npy":
            yield s, base_array(e, s, d.tag[1])
            return
        raise Unsupported("np.load of something else")
    eng.ext[np.load] = load

    def load_npz(e, s, a, k):
        d = s.ghost["buffers"].get(str(a[0].t))
        if isinstance(d, SVal) and isinstance(d.tag, tuple) and d.tag[0] == "npz":
            yield s, d.tag[1]
            return
        raise Unsupported("load_npz of something else")
    eng.ext[sp.load_npz] = load_npz

    def read(e, s, v, a, k):
        n = e.reify(s, a[0])
        for name, d in reversed(s.ghost["written"]):
            if e.prover.valid(s.pc, e.reify(s, name) == n) == "valid":
                yield s, d
                return
        # a member that exists already: if it is named by the id, it was written for the same object
        o = s.ghost.get("array")
        if o is not None and named_by_id(e, s, a[0], o):
            kind = "npz" if ".npz" in str(n) else "npy"
            yield s, SVal(e.ufV(f"{kind}_of", e.reify(s, o)), (kind, o))
            return
        raise Unsupported("read of a member that was not written")
    eng.attr_overrides[("zip", "read()")] = read

    def writestr(e, s, v, a, k):
        n = V.s(e.reify(s, a[0]))
        has = e.ufV("mem", z3.Const("members", V), V.S(n), res=z3.BoolSort())
        e.oblige_bool("a member is written only if there is none of its name", e.prover.valid(s.pc, z3.Not(has)) == "valid", show(e, s, a[0]))
        s.ghost["written"] = s.ghost["written"] + ((a[0], a[1]),)
        yield s, Conc(None)
    eng.attr_overrides[("outzip", "writestr()")] = writestr
    return is_object


def named_by_id(e, s, name, obj):
    """the name is the id of the object, followed by a suffix that does not start with a digit"""
    t = z3.simplify(V.s(e.reify(s, name)))
    i = e.to_str(s, SInt(e.ufV("id", e.reify(s, obj), res=z3.IntSort())))
    return any(e.prover.valid(s.pc, t == z3.Concat(i, z3.StringVal(x))) == "valid" for x in (".npy", ".npz"))


def base_array(e, s, x):
    """the array that is loaded for x: of type np.ndarray (what view(cls), [()] and cls(..) make of it follows)"""
    cls = x.tag[1]
    if cls is np.ndarray:
        return x
    t = e.ufV("base", x.t)
    at = {"dtype": x.tag[2].get("dtype"), "ndim": x.tag[2].get("ndim", SInt(z3.Int("ndim"))) if issubclass(cls, np.ndarray) else Conc(0), "view()": None, "__of__": x}
    return SVal(t, ("is", np.ndarray, at))


def array_methods(eng):
    def view(e, s, v, a, k):
        o = v.tag[2].get("__of__", v)
        cls = live(e, s, a[0]) if a else None
        if isinstance(cls, type) and cls is o.tag[1]:
            yield s, o
            return
        yield s, SVal(e.ufV("view", v.t, e.reify(s, a[0])), ("is", cls if isinstance(cls, type) else np.ndarray, {}))
    eng.attr_overrides[("is", "view()")] = view

    def item(e, s, v, k):
        o = v.tag[2].get("__of__") if is_a(v) and len(v.tag) > 2 else None
        if live(e, s, k) == () and o is not None and issubclass(o.tag[1], np.generic):
            # a scalar of the type of the dtype, e.g. np.int64 for np.longlong; trailing nulls are lost
            keep = z3.Bool("keeps_dtype")
            if issubclass(o.tag[1], (np.bytes_, np.str_)):
                t = z3.If(keep, o.t, z3.Const("cut", V))
            else:
                t = o.t
            yield s.fork(), SVal(t, o.tag)
            yield s, SVal(t, ("is", OtherScalar, {"__of__": o}))
            return
        raise Unsupported("item of an array")
    eng.attr_overrides[("is", "__getitem__")] = item


class OtherScalar:
    """another scalar type with the same dtype"""


def u_ndarray(cls):
    def mk(eng):
        import skops.io._numpy as nu
        st = init_state(eng)
        sc, lc = setup(eng, st)
        is_object = array_setup(eng, st)
        array_methods(eng)
        st.assume(z3.Not(is_object))
        if hasattr(nu, "_check_dtype"):
            # refuses what np.save does not store (own unit)
            from skops.io.exceptions import UnsupportedTypeException as UTE

            def check_dtype(e, s, a, k):
                s1 = s.fork()
                s1.assume(z3.Bool("dtype_is_refused"))
                yield s1, Raise(ExcV(UTE))
                s.assume(z3.Not(z3.Bool("dtype_is_refused")))
                yield s, Conc(None)
            eng.contracts[nu._check_dtype] = check_dtype
        at = {"dtype": SVal(z3.Const("dtype", V), ("is", np.dtype, {})), "ndim": SInt(z3.Int("ndim"))}
        if cls is not np.ndarray and issubclass(cls, np.ndarray):
            # instances of subclasses have attributes
            at["__dict__"] = SVal(z3.Const("attributes", V), ("dict", "str", None))
        obj = SVal(z3.Const("array", V), ("is", cls, at))
        st.ghost["array"] = obj
        if issubclass(cls, np.generic):
            t0 = eng.ext.get(np.array)
            keep = SVal(z3.Const("dtype_again", V), ("is", np.dtype, {}))
            eng.ext[np.array] = lambda e, s, a, k: iter([(s, SVal(z3.Const("as_array", V), ("is", np.ndarray, {"__again__": keep})))])
            i0 = eng.attr_overrides[("is", "__getitem__")]

            def item(e, s, v, k):
                if "__again__" in v.tag[2]:
                    yield s, SVal(z3.Const("again", V), ("is", cls, {"dtype": keep}))
                    return
                yield from i0(e, s, v, k)
            eng.attr_overrides[("is", "__getitem__")] = item
            e0 = eng.attr_overrides[("is", "__eq__")]

            def eq(e, s, a, b):
                if {str(getattr(a, "t", None)), str(getattr(b, "t", None))} == {"dtype", "dtype_again"}:
                    return z3.Bool("keeps_dtype")
                return e0(e, s, a, b)
            eng.attr_overrides[("is", "__eq__")] = eq
            # cls(x) of the same value as another scalar type
            eng.ext[cls] = lambda e, s, a, k: iter([(s, a[0].tag[2]["__of__"] if is_a(a[0], OtherScalar) and e.prover.valid(s.pc, a[0].t == a[0].tag[2]["__of__"].t) == "valid" else SVal(e.ufV("converted", e.reify(s, a[0])), ("is", cls, {})))])

        def resolve_cls(e, s, a, k):
            n = [live(e, s, x) for x in a]
            if n == [cls.__module__, cls.__name__]:
                yield s, Conc(cls)
            else:
                yield s, SVal(z3.Const(e.fresh("type"), V), ("resolved",))
        import skops.io._utils as us
        eng.contracts[us.gettype] = resolve_cls

        def expect(e, s, v):
            same = isinstance(v, SVal) and is_a(v, cls) and e.prover.valid(s.pc, v.t == obj.t) == "valid"
            return same, f"loaded {show(e, s, v)} {v.tag if isinstance(v, SVal) else ''} on path {'; '.join(str(c)[:60] for c in s.pc[-5:])}"

        def refuse(e, s):
            # attributes that are not restored, or null characters at the end
            if issubclass(cls, (np.bytes_, np.str_)):
                return e.prover.valid(s.pc, z3.Not(z3.Bool("keeps_dtype"))) == "valid"
            return "__dict__" in at
        refuse0 = refuse
        refuse = lambda e, s: e.prover.valid(s.pc, z3.Or(z3.Bool("has_object_fields"), z3.Bool("dtype_is_refused"))) == "valid" or refuse0(e, s)
        roundtrip(eng, st, cls.__name__, find(cls), obj, sc, lc, expect, refuse=refuse)
    return mk


class ObjArray(dict):
    """an array of objects of one dimension: the cells that were set, by index"""

    def reshape(self, shape):
        raise NotImplementedError


def u_object_array(shape):
    """shape None: one dimension of any length; otherwise this shape, with arbitrary cells"""
    def mk(eng):
        import skops.io._utils as us
        st = init_state(eng)
        sc, lc = setup(eng, st)
        is_object = array_setup(eng, st)
        array_methods(eng)
        st.assume(is_object)
        D = SVal(z3.Const("dtype", V), ("is", np.dtype, {}))
        if shape is None:
            n = z3.Int("n_cells")
            cells = seq(eng, "cells")
            st.assume(n == cells.len)
            dims, ndim = Tup((SInt(cells.len),)), 1
            nested = lambda e, s: e.alloc(s, ListCell((cells,)))
        else:
            dims, ndim = Tup(tuple(Conc(x) for x in shape)), len(shape)
            size = int(np.prod(shape)) if shape else 1
            flat = [any_val(f"cell{i}") for i in range(size)]

            def nested(e, s, d=0, off=0):
                if d == ndim:
                    return flat[off]
                step = int(np.prod(shape[d + 1:])) if d + 1 < ndim else 1
                return e.new_list(s, [nested(e, s, d + 1, off + i * step) for i in range(shape[d])])
        obj = SVal(z3.Const("array", V), ("is", np.ndarray, {"dtype": D, "ndim": Conc(ndim), "shape": dims, "tolist()": None}))
        st.ghost["array"] = obj

        def tolist(e, s, v, a, k):
            yield s, nested(e, s)
        eng.attr_overrides[("is", "tolist()")] = tolist
        i0 = eng.attr_overrides[("is", "__getitem__")]
        eng.attr_overrides[("is", "__getitem__")] = lambda e, s, v, k: iter([(s, flat[0])]) if v is obj and shape == () and live(e, s, k) == () else i0(e, s, v, k)
        g0 = eng.contracts[us.get_state]

        def get_state(e, s, a, k):
            v = a[0] if a else k["value"]
            if isinstance(v, Ref) and isinstance(cell(s, v), ListCell) and cell(s, v).kind == "list":
                # of a plain list: by the function for lists (own units)
                yield from e.call(s, Conc(find(list)), [v, a[1] if len(a) > 1 else k["save_context"]], {})
                return
            # the cells can be saved (a cell that cannot is refused, and the array with it)
            yield from ((s1, r) for s1, r in g0(e, s, a, k) if not isinstance(r, Raise))
        eng.contracts[us.get_state] = get_state
        t0 = eng.contracts[sys.modules["skops.io._audit"].get_tree]
        import skops.io._general as ge
        eng.contracts[ge.get_attrs] = lambda e, s, a, k: iter([(s, Conc(None))])     # plain lists have none

        def tree(e, s, a, k):
            x = a[0] if a else k["state"]
            if isinstance(x, Ref):
                # the state of a nested list
                c = cell(s, x)
                ok = isinstance(c, DictCell)
                f = {g[1].v: g[2] for g in c.segs if g[0] == "k"} if ok else {}
                yield s, SVal(e.ufV("listnode", e.reify(s, x)), ("node", SVal(z3.Const("list", V), ("stateof", e.alloc(s, ListCell(tuple(e.map_seg(g, lambda y: unstate(e, y)) for g in e.norm_segs(s, e.iter_segs(s, f["content"])))))))))
                return
            yield from t0(e, s, a, k)
        eng.contracts[sys.modules["skops.io._audit"].get_tree] = tree

        def unstate(e, y):
            if isinstance(y, SVal) and isinstance(y.tag, tuple) and y.tag[0] == "stateof":
                return y.tag[1]
            raise Unsupported("nested lists of more than two dimensions")

        def empty(e, s, a, k):
            d = k.get("dtype", a[1] if len(a) > 1 else None)
            if not (isinstance(d, Conc) and d.v in ("O", object)):
                e.oblige_bool("the array is one of objects", False, str(d))
            s.ghost["length"] = a[0]
            yield s, e.alloc(s, DictCell((), ObjArray))
        eng.ext[np.empty] = empty

        def reshape(e, s, a, k):
            k = dict(k)
            sh = a[1] if len(a) == 2 else k.pop("shape", None) or k.pop("newshape", None) if len(a) < 2 else Tup(tuple(a[1:]))
            o = k.pop("order", Conc("C"))
            if sh is None or k:
                raise Unsupported("reshape")
            s.ghost["shape"] = sh if isinstance(o, Conc) and o.v == "C" else Conc("another order")
            yield s, a[0]
        eng.contracts[ObjArray.reshape] = reshape
        eng.ext[np.reshape] = reshape

        def expect(e, s, v):
            if not (isinstance(v, Ref) and isinstance(cell(s, v), DictCell) and cell(s, v).cls is ObjArray):
                return False, f"loaded {show(e, s, v)}"
            if "shape" in s.ghost:
                sh = s.ghost["shape"]
                if not e.same(s, sh, dims):
                    return False, f"shape {show(e, s, sh)}"
            elif shape is not None and len(shape) != 1:
                return False, "not reshaped"
            segs = cell(s, v).segs
            if shape is not None:
                got = {g[1].v: g[2] for g in segs if g[0] == "k" and isinstance(g[1], Conc)}
                ok = len(got) == len(segs) == size and isinstance(s.ghost["length"], Conc) and s.ghost["length"].v == size and all(i in got and e.same(s, got[i], flat[i]) for i in range(size))
                return ok, f"cells {show(e, s, v)}"
            L = s.ghost["length"]
            if not e.prover.valid(s.pc, e.reify(s, L) == V.I(cells.len)) == "valid":
                return False, f"length {L}"
            if not segs:
                return e.prover.valid(s.pc, cells.len == 0) == "valid", "no cells"
            ok = len(segs) == 1 and segs[0][0] == "s"
            if ok:
                g = segs[0][1]
                ok = isinstance(g, SeqFlat) and len(g.cases) == 1 and len(g.cases[0][1]) == 1 and len(g.cases[0][1][0].vals) == 1
                p = e.as_tuple(g.cases[0][1][0].vals[0]) if ok else None
                ok = p is not None and e.prover.valid(s.pc, e.reify(s, p[0]) == V.I(g.idx)) == "valid"
                x = e.reify(s, p[1]) if ok else None
                ok = ok and x.decl().name() == "at" and x.arg(1).eq(g.idx)
                if ok:
                    # the values that are set are the cells
                    src = [segs for kind, segs, t, *_ in e.interned if t.eq(x.arg(0))]
                    ok = bool(src) and e.same(s, e.alloc(s, ListCell(tuple(src[0]))), e.alloc(s, ListCell((cells,)))) or x.arg(0).eq(cells.term)
            return ok, f"cells {show(e, s, v)}"
        roundtrip(eng, st, f"object array of shape {shape or '(n,)' if shape != () else ()}", find(np.ndarray), obj, sc, lc, expect)
    return mk


def find(cls):
    """the function that the dispatch uses for the class"""
    import skops.io._persist  # noqa
    from skops.io._utils import _get_state
    return _get_state.dispatch(cls)


def u_attributes_refused(cls):
    """attributes of instances of subclasses of arrays are not lost silently"""
    def mk(eng):
        import skops.io._numpy as nu
        st = init_state(eng)
        sc, lc = setup(eng, st)
        array_setup(eng, st)
        names = eng.alloc(st, DictCell((("k", Conc("note"), any_val("note")),)))
        obj = SVal(z3.Const("array", V), ("is", cls, {"dtype": SVal(z3.Const("dtype", V), ("is", np.dtype, {})), "ndim": SInt(z3.Int("ndim")), "__dict__": names}))
        n = 0
        for s, r in eng.run(find(cls), [obj, sc], {}, st):
            if not eng.feasible(s):
                continue
            n += 1
            eng.oblige_bool(f"{cls.__name__} with attributes: is refused #{n}", isinstance(r, Raise), show(eng, s, r) if not isinstance(r, Raise) else "")
        eng.oblige_bool(f"{cls.__name__}: reachable", n > 0, kind="vacuity")
    return mk


class SubArray(np.ndarray):
    """stands for an arbitrary subclass"""


def u_sparse(eng):
    import scipy.sparse as sp
    import skops.io._scipy as ss
    st = init_state(eng)
    sc, lc = setup(eng, st)
    array_setup(eng, st)
    plain = z3.Bool("is_plain")
    obj = SVal(z3.Const("matrix", V), ("is", sp.csr_matrix, {}))
    st.ghost["array"] = obj
    if hasattr(ss, "_is_plain"):
        eng.contracts[ss._is_plain] = lambda e, s, a, k: iter([(s, SBool(plain))])

    def expect(e, s, v):
        ok = isinstance(v, SVal) and v.t.eq(obj.t) and e.prover.valid(s.pc, plain) == "valid"
        return ok, f"loaded {show(e, s, v)}, plain: {e.prover.valid(s.pc, plain)}"
    roundtrip(eng, st, "sparse matrix", find(sp.csr_matrix), obj, sc, lc, expect, refuse=lambda e, s: e.prover.valid(s.pc, z3.Not(plain)) == "valid")


def u_masked(eng):
    import skops.io._numpy as nu
    st = init_state(eng)
    sc, lc = setup(eng, st)
    instance_tag(eng)
    M = np.ma.MaskedArray
    at = {"data": any_val("data"), "mask": any_val("mask"), "_fill_value": any_val("fill"), "hardmask": SBool(z3.Bool("hard"))}
    obj = SVal(z3.Const("masked", V), ("is", M, at))
    st.assume(V.is_O(z3.Const("masked", V)), z3.Const("masked", V) != eng.const_of(np.ma.masked))
    views = {}

    def setdefault(e, s, v, a, k):
        # the views that were kept for the object of this key before, or these
        key = str(e.reify(s, a[0]))
        if str(e.ufV("id", obj.t, res=z3.IntSort())) not in key:
            raise Unsupported("another key")
        yield s.fork(), a[1]
        yield s, Tup((SVal(at["data"].t), SVal(at["mask"].t)))
    eng.attr_overrides[("smemo", "setdefault()")] = setdefault

    def new(e, s, a, k):
        v = dict(zip(("data", "mask"), a))
        v.update(k)
        bad = set(v) - {"data", "mask", "fill_value", "hard_mask", "copy"}
        if bad:
            raise Unsupported(f"MaskedArray({sorted(bad)})")
        yield s, e.alloc(s, ObjCell(M, {"data": v.get("data"), "mask": v.get("mask", Conc(False)), "_fill_value": v.get("fill_value", Conc(None)), "hardmask": v.get("hard_mask", Conc(False))}))
    eng.ext[M] = new
    eng.ext[M.harden_mask] = lambda e, s, a, k: (s.heap.__setitem__(a[0].addr, ObjCell(M, {**cell(s, a[0]).attrs, "hardmask": Conc(True)})), iter([(s, a[0])]))[1]
    eng.ext[np.asarray] = lambda e, s, a, k: iter([(s, a[0])])      # of an array: the same one

    def expect(e, s, v):
        if not (isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is M):
            return False, f"loaded {show(e, s, v)}"
        got = cell(s, v).attrs
        for x in at:
            if not e.prover.valid(s.pc, e.reify(s, got[x]) == e.reify(s, at[x])) == "valid":
                return False, f"{x} is {show(e, s, got[x])} on path {'; '.join(str(c)[:60] for c in s.pc[-5:])}"
        return True, ""
    roundtrip(eng, st, "masked array", find(M), obj, sc, lc, expect)


def u_masked_sub(eng):
    """subclasses of masked arrays are refused, the masked constant is itself"""
    st = init_state(eng)
    sc, lc = setup(eng, st)
    instance_tag(eng)
    from numpy.ma import mrecords
    obj = SVal(z3.Const("masked", V), ("is", mrecords.MaskedRecords, {}))
    st.assume(V.is_O(obj.t), obj.t != eng.const_of(np.ma.masked))
    n = 0
    for s, r in eng.run(find(np.ma.MaskedArray), [obj, sc], {}, st):
        if eng.feasible(s):
            n += 1
            eng.oblige_bool(f"subclass of MaskedArray: is refused #{n}", isinstance(r, Raise), show(eng, s, r) if not isinstance(r, Raise) else "")
    eng.oblige_bool("subclass: reachable", n > 0, kind="vacuity")


def u_random_state(eng):
    st = init_state(eng)
    sc, lc = setup(eng, st)
    instance_tag(eng)
    R = np.random.RandomState
    content = any_val("rng_state", ("dict", "str", None))
    method(eng, "is", "get_state", lambda e, s, v, a, k: iter([(s, content)]) if live(e, s, k.get("legacy", Conc(True))) is False else iter(()))
    obj = SVal(z3.Const("random_state", V), ("is", R, {"get_state()": None}))
    generators(eng)
    eng.ext[R] = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(R, {"generator": a[0] if a else Conc("MT19937"), "state": Conc(None)})))])
    eng.ext[R.set_state] = lambda e, s, a, k: (s.heap.__setitem__(a[0].addr, ObjCell(R, {**cell(s, a[0]).attrs, "state": a[1]})), iter([(s, Conc(None))]))[1]
    import skops.io._utils as us
    eng.contracts[us.gettype] = lambda e, s, a, k: iter([(s, Conc(R) if [live(e, s, x) for x in a] == [R.__module__, R.__name__] else SVal(z3.Const(e.fresh("type"), V)))])

    def expect(e, s, v):
        if not (isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is R):
            return False, f"loaded {show(e, s, v)}"
        got = cell(s, v).attrs
        if not e.same(s, got["state"], content):
            return False, f"state {show(e, s, got['state'])}"
        # the bit generator is the one that the state names
        name = e.ufV("val", content.t, V.S(z3.StringVal("bit_generator")))
        g = got["generator"]
        if isinstance(g, Conc):
            ok = e.prover.valid(s.pc, z3.Or(name == V.S(z3.StringVal("MT19937")), z3.Not(has_key(e, content, "bit_generator")))) == "valid"
        else:
            ok = isinstance(g, SVal) and e.prover.valid(s.pc, z3.Implies(has_key(e, content, "bit_generator"), g.tag[1] == name)) == "valid"
        return ok, f"bit generator {g} on path {'; '.join(str(c)[:80] for c in s.pc[-5:])}"
    roundtrip(eng, st, "RandomState", find(R), obj, sc, lc, expect, load_raises=False)


def has_key(e, d, k):
    return e.ufV("has", d.t, V.S(z3.StringVal(k)), res=z3.BoolSort())


def generators(eng):
    """contract of get_bit_generator: the class of that name, which is known for what numpy itself saved"""
    import skops.io._numpy as nu

    def get(e, s, a, k):
        x = a[0] if a else k["name"]
        yield s, SVal(e.ufV("bit_generator_class", e.reify(s, x)), ("bgclass", e.reify(s, x)))
    eng.contracts[nu.get_bit_generator] = get

    def new(e, s, f, a, k):
        yield s, SVal(z3.Const(e.fresh("bit_generator"), V), ("bg", f.tag[1]) + tuple(a[:1]))
    eng.attr_overrides[("bgclass", "__call__")] = new


def u_generator(eng):
    st = init_state(eng)
    sc, lc = setup(eng, st)
    instance_tag(eng)
    generators(eng)
    G = np.random.Generator
    from numpy.random.bit_generator import SeedSequence
    bgs = any_val("bg_state", ("dict", "str", None))
    sqs = any_val("seed_state", ("dict", "str", None))
    seed = SVal(z3.Const("seed_seq", V), ("is", SeedSequence, {"state": sqs}))
    bg = SVal(z3.Const("bit_gen", V), ("is", np.random.PCG64, {"state": bgs, "seed_seq": seed}))
    obj = SVal(z3.Const("generator", V), ("is", G, {"bit_generator": bg}))
    seqs = lambda e, s, a, k: iter([(s, SVal(z3.Const(e.fresh("seedseq"), V), ("seedseq", k.get("**"))))])
    eng.ext[SeedSequence] = seqs

    def setstate(e, s, v, name, x):
        if name != "state":
            raise Unsupported(f"attribute {name}")
        s.ghost["bgstate"] = s.ghost.get("bgstate", ()) + ((str(v.t), x),)
        yield s, None
    eng.attr_overrides[("bg", "__setattr__")] = setstate

    def new(e, s, a, k):
        yield s, e.alloc(s, ObjCell(G, {"bit_generator": a[0] if a else k["bit_generator"]}))
    eng.ext[G] = new
    import skops.io._utils as us

    def gettype(e, s, a, k):
        n = [live(e, s, x) for x in a]
        for c, names in ((G, [G.__module__, G.__name__]), (SeedSequence, ["numpy.random.bit_generator", "SeedSequence"])):
            if n == names:
                yield s, Conc(c)
                return
        yield s, SVal(z3.Const(e.fresh("type"), V))
    eng.contracts[us.gettype] = gettype

    def expect(e, s, v):
        if not (isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is G):
            return False, f"loaded {show(e, s, v)}"
        b = cell(s, v).attrs["bit_generator"]
        if not (isinstance(b, SVal) and isinstance(b.tag, tuple) and b.tag[0] == "bg"):
            return False, f"bit generator {b}"
        states = [x for n, x in s.ghost.get("bgstate", ()) if n == str(b.t)]
        if not states or not e.same(s, states[-1], bgs):
            return False, f"state {states}"
        if not e.prover.valid(s.pc, b.tag[1] == e.ufV("val", bgs.t, V.S(z3.StringVal("bit_generator")))) == "valid":
            return False, f"class {b.tag[1]}"
        q = b.tag[2] if len(b.tag) > 2 else None
        kw = q.tag[1] if isinstance(q, SVal) and isinstance(q.tag, tuple) and q.tag[0] == "seedseq" else None
        ok = kw is not None and spread_of(e, s, kw, sqs)
        return ok, f"seed sequence {q} {kw}"
    # a seed sequence with a very large pool is refused when loading
    roundtrip(eng, st, "Generator", find(G), obj, sc, lc, expect, load_raises=True)


def spread_of(e, s, kw, d):
    """**d"""
    xs = kw if isinstance(kw, (list, tuple)) else [kw]
    return len(xs) == 1 and isinstance(xs[0], tuple) and xs[0][0] == "s" and isinstance(xs[0][1], SeqVar) and xs[0][1].info == "items" and xs[0][1].term.eq(d.t)


def u_dtype(kind):
    def mk(eng):
        import skops.io._numpy as nu
        st = init_state(eng)
        sc, lc = setup(eng, st)
        instance_tag(eng)
        D = np.dtype
        obj = SVal(z3.Const("dtype", V), ("is", D, {"subdtype": Conc(None) if kind == "plain" else Tup((any_val("base"), any_val("shape")))}))
        if hasattr(nu, "_check_dtype"):
            eng.contracts[nu._check_dtype] = lambda e, s, a, k: iter([(s.fork(), Raise(ExcV(Exception, (), False))), (s, Conc(None))])

        def new(e, s, a, k):
            # np.dtype([(name, d)]): a dtype with one field
            fs = live_fields(e, s, a[0])
            yield s, SVal(e.ufV("record", fs.t), ("is", D, {"__field__": fs, "subdtype": Conc(None)}))
        eng.ext[D] = new

        def live_fields(e, s, x):
            segs = e.norm_segs(s, e.iter_segs(s, x))
            if len(segs) == 1 and isinstance(segs[0], Known) and len(segs[0].vals) == 1:
                p = e.as_tuple(segs[0].vals[0])
                if p is not None and len(p) == 2:
                    return p[1]
            raise Unsupported("fields")

        def arr(e, s, a, k):
            d = k.get("dtype", a[1] if len(a) > 1 else None)
            if d is None:
                raise Unsupported("array without dtype")
            # numpy moves the shape of a dtype of arrays to the shape of the array
            if is_a(d, D) and not isinstance(d.tag[2]["subdtype"], Conc):
                d = SVal(e.ufV("base_dtype", d.t), ("is", D, {"subdtype": Conc(None)}))
            s.ghost["arrays"] = s.ghost.get("arrays", ()) + (d,)
            yield s, SVal(e.ufV("array_of", d.t), ("is", np.ndarray, {"dtype": d}))
        for f in (np.ndarray, np.empty, np.zeros):
            eng.ext[f] = arr
        eng.attr_overrides[("is", "__getitem__")] = lambda e, s, v, k: iter([(s, v.tag[2]["__field__"])]) if is_a(v, D) and live(e, s, k) in (0, "f0") and "__field__" in v.tag[2] else iter(())

        def expect(e, s, v):
            return isinstance(v, SVal) and v.t.eq(obj.t), f"loaded {show(e, s, v)}"
        roundtrip(eng, st, f"{kind} dtype", find(D), obj, sc, lc, expect)
    return mk


def u_check_dtype(eng):
    """what np.save does not store (metadata, types of records) is refused, in each field"""
    import skops.io._numpy as nu
    if not hasattr(nu, "_check_dtype"):
        raise Unsupported("no _check_dtype")
    for what in ("metadata", "field", "array", "record", "plain", "plain fields"):
        st = init_state(eng)
        setup(eng, st)
        instance_tag(eng)
        bad = z3.Bool("inner_is_bad")
        inner = SVal(z3.Const("inner", V), ("is", np.dtype, {}))
        f0 = nu._check_dtype
        root = []

        def rec(e, s, a, k):
            if not root:
                root.append(1)
                yield from e.call_inline(s, f0, a, k)
                return
            if not a[0].t.eq(inner.t):
                raise Unsupported("another dtype")
            for s1, b in e.branch(s, bad):
                yield s1, Raise(ExcV(Exception, (), False)) if b else Conc(None)
        N = Conc(None)
        at = {"subdtype": N, "type": Conc(np.void if "field" in what else np.float64), "metadata": N, "fields": N}
        if what == "metadata":
            at["metadata"] = SVal(z3.Const("meta", V), ("dict", "str", None))
            st.assume(eng.truth(st, at["metadata"]))
        elif "field" in what:
            other = SVal(z3.Const("inner", V), ("is", np.dtype, {}))
            at["fields"] = eng.alloc(st, DictCell((("k", Conc("a"), Tup((inner, Conc(0)))),)))
        elif what == "array":
            at["subdtype"] = Tup((inner, Tup((Conc(2),))))
        elif what == "record":
            at["type"] = Conc(np.record)
        d = SVal(z3.Const("dt", V), ("is", np.dtype, at))
        import ast as _ast
        n = 0
        eng.contracts[f0] = rec
        root.append(1)
        for s, r in run_body(eng, f0, [d], st):
            if not eng.feasible(s):
                continue
            n += 1
            want = {"metadata": True, "record": True, "plain": False}.get(what)
            if want is None:
                want = eng.prover.valid(s.pc, bad) == "valid"
            eng.oblige_bool(f"_check_dtype: {what} {'raises' if want else 'is accepted'} #{n}", isinstance(r, Raise) == want, str(r))
        del eng.contracts[f0]
        eng.oblige_bool(f"_check_dtype: {what} reachable", n > 0, kind="vacuity")


def run_body(eng, fn, args, st):
    """the function itself, while calls of it use its contract"""
    import ast, inspect, textwrap
    node = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    yield from eng.call(st.fork(), Closure(node, 0, fn.__globals__, (), {}, None, fn.__name__), list(args), {})


# ------------------------------------------------------------------ reduced objects (trees, losses, quantile forests)
class Reduced:
    """stands for an extension class with __reduce__ and __setstate__"""


def reduced_targets():
    """(loader, class of the dispatch, constructor that the node uses or None)"""
    import skops.io._sklearn as sk, skops.io._quantile_forest as qf
    out = [("TreeNode", sk.Tree)]
    if getattr(qf, "QuantileForest", None) is not None:
        out.append(("QuantileForestNode", qf.QuantileForest))
    return out


def u_reduced(cls):
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        args = Tup((any_val("arg0"), any_val("arg1")))
        attrs = any_val("state", ("dict", "str", None))
        obj = obj_of(eng, st, cls)
        eng.ext[cls.__reduce__] = lambda e, s, a, k: iter([(s, Tup((Conc(cls), args, attrs)))])
        made = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(cls, {"args": e.new_list(s, list(a)), "state": Conc(None)})))])
        eng.ext[cls] = made
        eng.ext[cls.__setstate__] = lambda e, s, a, k: (s.heap.__setitem__(a[0].addr, ObjCell(cls, {**cell(s, a[0]).attrs, "state": a[1]})), iter([(s, Conc(None))]))[1]
        import skops.io._utils as us
        eng.contracts[us.gettype] = lambda e, s, a, k: iter([(s, Conc(cls) if [live(e, s, x) for x in a] == [us.get_module(cls), cls.__name__] else SVal(z3.Const(e.fresh("type"), V)))])

        def expect(e, s, v):
            if not (isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is cls):
                return False, f"loaded {show(e, s, v)}"
            got = cell(s, v).attrs
            if not e.same(s, got["args"], e.new_list(s, args.items)):
                return False, f"arguments {show(e, s, got['args'])}"
            t = e.truth(s, attrs)
            if e.prover.valid(s.pc, z3.Not(t)) == "valid" and isinstance(got["state"], Conc):
                return True, ""
            return e.same(s, got["state"], attrs), f"state {show(e, s, got['state'])}"
        roundtrip(eng, st, cls.__name__, find(cls), obj, sc, lc, expect)
    return mk


def u_loss(cls, kind):
    """what the arguments of __reduce__ make (for a class whose instances are made of them alone)"""
    def mk(eng):
        st = init_state(eng)
        sc, lc = setup(eng, st)
        args = Tup((any_val("arg0"),))
        obj = obj_of(eng, st, cls)
        red = Tup((Conc(cls), args)) if kind == "constructor" else Tup((Conc(len), Tup((Conc(cls), Conc(12345), args))))
        own = vars(cls).get("__reduce__") or cls.__reduce__
        for f in {own, cls.__reduce__}:
            eng.ext[f] = lambda e, s, a, k: iter([(s, red)])
        eng.ext[cls.__getstate__] = eng.ext[object.__getstate__] = lambda e, s, a, k: iter([(s, Conc(None))])
        eng.ext[cls] = lambda e, s, a, k: iter([(s, e.alloc(s, ObjCell(cls, {"args": e.new_list(s, list(a))})))])
        import skops.io._utils as us
        eng.contracts[us.gettype] = lambda e, s, a, k: iter([(s, Conc(cls) if [live(e, s, x) for x in a] == [us.get_module(cls), cls.__name__] else SVal(z3.Const(e.fresh("type"), V)))])

        def expect(e, s, v):
            if not (isinstance(v, Ref) and isinstance(cell(s, v), ObjCell) and cell(s, v).cls is cls):
                return False, f"loaded {show(e, s, v)}"
            return e.same(s, cell(s, v).attrs["args"], e.new_list(s, args.items)), show(e, s, v)
        roundtrip(eng, st, f"{cls.__name__} ({kind})", find(cls), obj, sc, lc, expect)
    return mk


# ------------------------------------------------------------------ attributes
def u_get_attrs(eng):
    """the attributes of a container are those that pickle would store; containers that pickle makes in another way
    are refused"""
    import skops.io._general as ge
    f0 = ge.get_attrs
    for what, constructor, ok in (("the type", "type", True), ("copyreg.__newobj__", "newobj", True), ("another function", "other", False)):
        for n_parts in (2, 3, 5):
            st = init_state(eng)
            setup(eng, st)
            del eng.contracts[f0]
            obj = obj_of(eng, st, Plain)
            attrs = any_val("attributes")
            c = {"type": Conc(Plain), "newobj": Conc(copyreg.__newobj__), "other": Conc(any_function)}[constructor]
            parts = Tup((c, Tup(()), attrs, any_val("items"), any_val("entries"))[:n_parts])
            seen = []

            def reduce_ex(e, s, a, k):
                seen.append(live(e, s, a[1]) if len(a) > 1 else None)
                yield s, parts
            eng.ext[object.__reduce_ex__] = reduce_ex
            n = 0
            for s, r in eng.run(f0, [obj], {}, st):
                if not eng.feasible(s):
                    continue
                n += 1
                if isinstance(r, Raise):
                    eng.oblige_bool(f"get_attrs: {what} is not refused #{n_parts}.{n}", not ok, exc_name(r.exc))
                    continue
                eng.oblige_bool(f"get_attrs: {what} is accepted only if it can be restored #{n_parts}.{n}", ok)
                want = attrs if n_parts > 2 else Conc(None)
                eng.oblige_bool(f"get_attrs: {what}: the attributes #{n_parts}.{n}", eng.same(s, r, want), show(eng, s, r))
            eng.oblige_bool(f"get_attrs: {what}: protocol 2, as for instances of object #{n_parts}", seen and all(isinstance(x, int) and x >= 2 for x in seen), str(seen))
            eng.oblige_bool(f"get_attrs: {what}: reachable #{n_parts}", n > 0, kind="vacuity")


def any_function():
    pass


class WithSetstate:
    def __setstate__(self, state):
        pass


def u_set_attrs(eng):
    """attributes are restored like by pickle: by __setstate__ if there is one; otherwise the state, or the first part of
    a pair, updates __dict__, and the second part sets the attributes it names"""
    import skops.io._general as ge
    f0 = ge.set_attrs
    # with __setstate__
    st = init_state(eng)
    setup(eng, st)
    del eng.contracts[f0]
    obj = obj_of(eng, st, WithSetstate)
    A = any_val("attributes")
    eng.contracts[WithSetstate.__setstate__] = lambda e, s, a, k: (s.ghost.__setitem__("set", s.ghost.get("set", ()) + ((a[0], a[1]),)), iter([(s, Conc(None))]))[1]
    n = 0
    for s, r in eng.run(f0, [obj, A], {}, st):
        if not eng.feasible(s):
            continue
        n += 1
        got = s.ghost.get("set", ())
        eng.oblige_bool(f"set_attrs: __setstate__ gets the attributes #{n}", not isinstance(r, Raise) and len(got) == 1 and got[0][0].addr == obj.addr and eng.same(s, got[0][1], A), str(got))
        eng.oblige_bool(f"set_attrs: and nothing else is set #{n}", not cell(s, obj).attrs, str(cell(s, obj).attrs))
    eng.oblige_bool("set_attrs: __setstate__ reachable", n > 0, kind="vacuity")
    # without
    d = lambda st, *ks: eng.alloc(st, DictCell(tuple(("k", Conc(k), any_val(f"value_{k}")) for k in ks)))
    for what, mkv, want_d, want_s in (("a dict", lambda st: d(st, "a", "b"), "ab", ""), ("an empty dict", lambda st: d(st), "", ""), ("None", lambda st: Conc(None), "", ""),
                                      ("a dict and slots", lambda st: Tup((d(st, "a"), d(st, "x", "y"))), "a", "xy"), ("slots", lambda st: Tup((Conc(None), d(st, "x"))), "", "x"),
                                      ("a dict and no slots", lambda st: Tup((d(st, "a"), Conc(None))), "a", ""), ("neither", lambda st: Tup((Conc(None), Conc(None))), "", "")):
        st = init_state(eng)
        setup(eng, st)
        del eng.contracts[f0]
        instance_tag(eng)
        own = eng.alloc(st, DictCell(()))
        st.ghost["sets"] = ()

        def setattr_(e, s, v, name, x):
            s.ghost["sets"] = s.ghost["sets"] + ((name, x),)
            yield s, None
        eng.attr_overrides[("is", "__setattr__")] = setattr_
        eng.ext[setattr] = lambda e, s, a, k: (s.ghost.__setitem__("sets", s.ghost["sets"] + ((live(e, s, a[1]), a[2]),)), iter([(s, Conc(None))]))[1]
        obj = SVal(z3.Const("instance", V), ("is", Plain, {"__dict__": own}))
        n = 0
        for s, r in eng.run(f0, [obj, mkv(st)], {}, st):
            if not eng.feasible(s):
                continue
            n += 1
            if isinstance(r, Raise):
                eng.oblige_bool(f"set_attrs: {what} does not raise #{n}", False, exc_name(r.exc))
                continue
            got = {g[1].v: g[2] for g in cell(s, own).segs if g[0] == "k" and isinstance(g[1], Conc)}
            sets = dict(s.ghost["sets"])
            for x in want_s:
                eng.oblige_bool(f"set_attrs: {what}: the slot {x} is set #{n}", x in sets and eng.same(s, sets[x], any_val(f"value_{x}")), str(sets))
            for x in want_d:
                v = got.get(x, sets.get(x))
                eng.oblige_bool(f"set_attrs: {what}: the attribute {x} is set #{n}", v is not None and eng.same(s, v, any_val(f"value_{x}")), str(got))
            eng.oblige_bool(f"set_attrs: {what}: nothing else is set #{n}", set(got) | set(sets) == set(want_d + want_s) and len(cell(s, own).segs) == len(got), f"{sorted(got)} {sorted(map(str, sets))}")
        eng.oblige_bool(f"set_attrs: {what}: reachable", n > 0, kind="vacuity")


# ------------------------------------------------------------------ bound methods
def u_method(eng):
    """the method that is found under its name on the object it is bound to; others are refused"""
    import skops.io._utils as us
    st = init_state(eng)
    sc, lc = setup(eng, st)
    instance_tag(eng)
    owner = any_val("owner", ("owner",))
    name = SStr(z3.String("method_name"))
    func = SVal(z3.Const("func", V), ("is", types.FunctionType, {"__name__": name}))
    obj = SVal(z3.Const("method", V), ("is", types.MethodType, {"__self__": owner, "__func__": func}))
    found = SVal(eng.ufV("found", owner.t, V.S(name.t)), ("is", types.MethodType, {"__self__": owner}))
    same = z3.Bool("found_under_its_name")

    def getattr_(e, s, a, k):
        if len(a) in (2, 3) and a[0] is owner and e.prover.valid(s.pc, e.reify(s, a[1]) == V.S(name.t)) == "valid":
            yield s, found
            return
        raise Unsupported("getattr")
    eng.ext[getattr] = getattr_
    eng.attr_overrides[("is", "__eq__")] = lambda e, s, a, b: same
    n = 0
    for s, r in eng.run(find(types.MethodType), [obj, sc], {}, st):
        if not eng.feasible(s):
            continue
        if isinstance(r, Raise):
            if r.exc.exact:
                eng.oblige_bool("method: refused only if another one has its name", eng.prover.valid(s.pc, z3.Not(same)) == "valid", exc_name(r.exc))
            continue
        n += 1
        eng.oblige_bool(f"method: it is found under its name #{n}", eng.prover.valid(s.pc, same) == "valid", "; ".join(map(str, s.pc[-4:])))
        c = cell(s, r)
        got = {g[1].v: g[2] for g in c.segs if g[0] == "k"}
        inner = cell(s, got["content"]) if isinstance(got.get("content"), Ref) else None
        got2 = {g[1].v: g[2] for g in inner.segs if g[0] == "k"} if inner is not None else {}
        ok = "func" in got2 and eng.same(s, got2["func"], name) and isinstance(got2.get("obj"), SVal) and got2["obj"].tag == ("stateof", owner)
        eng.oblige_bool(f"method: the state has the name and the object #{n}", ok, show(eng, s, r)[:300])
        bad = []
        through_json(eng, s, r, bad)
        eng.oblige_bool(f"method: the state is json #{n}", not bad, "; ".join(bad)[:300])
    eng.oblige_bool("method: reachable", n > 0, kind="vacuity")


def numpy_(P):
    import scipy.sparse as sp
    u = lambda name, fn, mk: P.unit(name, fn, mk, policy=RtPolicy())
    for c in (np.ndarray, np.matrix, np.recarray, np.memmap, SubArray, np.float64, np.int64, np.longlong, np.bool_, np.bytes_, np.str_, np.datetime64):
        u(f"round trip of {c.__name__}", "ndarray_get_state, NdArrayNode", u_ndarray(c))
    for c in (np.matrix, SubArray):
        u(f"attributes of {c.__name__}", "ndarray_get_state", u_attributes_refused(c))
    for sh in (None, (), (0,), (1,), (3,), (2, 3), (0, 3), (2, 0), (1, 1)):
        u(f"round trip of object arrays of shape {'(n,)' if sh is None else sh}", "ndarray_get_state, NdArrayNode", u_object_array(sh))
    u("round trip of sparse matrices", "sparse_matrix_get_state, SparseMatrixNode", u_sparse)
    u("round trip of masked arrays", "maskedarray_get_state, MaskedArrayNode", u_masked)
    u("subclasses of masked arrays", "maskedarray_get_state", u_masked_sub)
    u("round trip of RandomState", "random_state_get_state, RandomStateNode", u_random_state)
    u("round trip of Generator", "random_generator_get_state, RandomGeneratorNode", u_generator)
    for k in ("plain", "subarray"):
        u(f"round trip of dtype ({k})", "dtype_get_state, DTypeNode", u_dtype(k))
    u("dtypes that are refused", "_check_dtype", u_check_dtype)


def reduced_(P):
    u = lambda name, fn, mk: P.unit(name, fn, mk, policy=RtPolicy())
    for loader, c in reduced_targets():
        u(f"round trip of {c.__name__}", f"reduce_get_state, {loader}", u_reduced(c))
    import skops.io._sklearn as sk
    for c in sorted(sk.ALLOWED_LOSSES, key=lambda c: c.__name__):
        u(f"round trip of {c.__name__}", "loss_get_state, LossNode", u_loss(c, "constructor"))
        u(f"round trip of {c.__name__} (cython)", "loss_get_state, LossNode", u_loss(c, "cython"))
    u("methods", "method_get_state", u_method)
    u("attributes of containers", "get_attrs", u_get_attrs)
    u("restored attributes", "set_attrs", u_set_attrs)


def prove(P):
    containers(P)
    builtins_(P)
    numpy_(P)
    reduced_(P)


def guards(G):
    """wrong functions that the units must not accept"""
    from skops.io._utils import get_state, get_module

    def drops(obj, save_context):
        return {"__class__": type(obj).__name__, "__module__": get_module(type(obj)), "__loader__": "ListNode", "content": [get_state(x, save_context) for x in obj if x is not None]}

    def as_set(obj, save_context):
        return {"__class__": type(obj).__name__, "__module__": get_module(type(obj)), "__loader__": "SetNode", "content": [get_state(x, save_context) for x in obj]}

    def number(obj, save_context):
        return {"__class__": type(obj).__name__, "__module__": get_module(type(obj)), "__loader__": "ListNode", "content": [get_state(x, save_context) for x in obj], "extra": {1: 2}}
    for label, T, f in (("items dropped", list, drops), ("another loader", tuple, as_set), ("no json", list, number)):
        PLANTED[T] = f
        try:
            G.unit(f"guard: {label}", "guard", u_sequence(T), policy=RtPolicy())
        finally:
            PLANTED.clear()
