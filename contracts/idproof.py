"""Contracts on identities (C06): what makes one object of the saved graph one node, and one node one object.

Saving: SaveContext.memoize(x) returns id(x) and keeps x alive in the memo until the dump is done, so that ids name
objects one to one (trusted: CPython does not give the id of a live object to another one); get_state memoizes the
value before its state is taken, and writes that id. Loading: every node records itself under the id of its state
before its children are built, get_tree returns the recorded node for an id seen before, and construct builds once."""
from __future__ import annotations
import io, zipfile
import numpy as np
from pyvc.harness import *
from pyvc.engine import Known, SeqConst, SeqVar
from contracts import nodeproof as NP, rtproof as RT
from contracts.nodeproof import cell, registry, label


class IdPolicy(NP.NodePolicy):
    values_only = True


def valid(eng, s, g):
    return eng.prover.valid(s.pc, g) == "valid"


def ident(eng, s, v):
    return eng.ufV("id", eng.reify(s, v), res=z3.IntSort())


def ids(eng):
    eng.ext[id] = lambda e, s, a, k: iter([(s, SInt(ident(e, s, a[0])))])


# ------------------------------------------------------------------ saving
def u_memoize(known, other=None):
    """known: whether the id is in the memo already"""
    def mk(eng):
        import skops.io._utils as us
        st = init_state(eng)
        ids(eng)
        obj = SVal(z3.Const("obj", V), None)
        old = [(SVal(z3.Const(f"old{i}", V), None)) for i in range(2)]
        ents = [("k", SInt(ident(eng, st, o)), o) for o in old]
        st.assume(ident(eng, st, old[0]) != ident(eng, st, old[1]))
        if known:
            # the ids in the memo are those of living objects: the same id is the same object
            st.assume(obj.t == old[0].t)
        else:
            st.assume(*[ident(eng, st, obj) != ident(eng, st, o) for o in old])
        memo = eng.alloc(st, DictCell(tuple(ents)))
        ctx = eng.alloc(st, ObjCell(us.SaveContext, {"zip_file": SVal(z3.Const("out", V), ("outzip",)), "protocol": Conc(2), "memo": memo}))
        n = 0
        for s, r in eng.run(other or us.SaveContext.memoize, [ctx, obj], {}, st):
            if not eng.feasible(s):
                continue
            n += 1
            if isinstance(r, Raise):
                eng.oblige_bool(f"memoize: does not raise #{n}", False, exc_name(r.exc))
                continue
            eng.oblige_bool(f"memoize: returns the id #{n}", isinstance(r, SInt) and valid(eng, s, r.t == ident(eng, s, obj)), show(eng, s, r))
            c = cell(s, memo)
            ok = isinstance(c, DictCell) and all(g[0] == "k" for g in c.segs)
            held = [(eng.reify(s, g[1]), eng.reify(s, g[2])) for g in c.segs] if ok else []
            for x, what in [(obj, "the object"), (old[0], "what was kept before"), (old[1], "what was kept before, too")]:
                eng.oblige_bool(f"memoize: {what} is kept alive under its id #{n}", any(valid(eng, s, z3.And(k == V.I(ident(eng, s, x)), v == x.t)) for k, v in held), show(eng, s, memo))
        eng.oblige_bool(f"memoize: reachable", n > 0, kind="vacuity")
    return mk


def save_setup(eng, st):
    """context with contracts for memoize and the dispatch; records the order of events in the ghost state"""
    import skops.io._utils as us
    from skops.io._persist import _get_state  # noqa: the registry is filled
    ids(eng)
    ctx = eng.alloc(st, ObjCell(us.SaveContext, {"zip_file": SVal(z3.Const("out", V), ("outzip",)), "protocol": Conc(2), "memo": SVal(z3.Const("memo", V), ("smemo",))}))
    st.ghost["trace"] = ()

    def log(s, *x):
        s.ghost["trace"] = s.ghost["trace"] + (x,)

    def memoize(e, s, a, k):
        x = a[1] if len(a) > 1 else k["obj"]
        log(s, "memoize", x, a[0])
        yield s, SInt(ident(e, s, x))
    eng.contracts[us.SaveContext.memoize] = memoize

    def state_of(e, s, a, k):
        log(s, "dispatch", a[0], a[1] if len(a) > 1 else k.get("save_context"))
        yield s.fork(), Raise(ExcV(Exception, (), False))
        r = e.alloc(s, DictCell(tuple(("k", Conc(x), SVal(e.ufV(f"field.{x}", e.reify(s, a[0])), None)) for x in ("__class__", "__module__", "__loader__", "content"))))
        s.ghost["result"] = r
        yield s, r
    eng.contracts[us._get_state] = state_of
    eng.ext[us._get_state] = state_of
    eng.ext[us._get_state.__wrapped__ if hasattr(us._get_state, "__wrapped__") else us._get_state] = state_of

    def check(e, s, a, k):
        log(s, "check_name", a[0] if a else k["value"], a[1] if len(a) > 1 else k["state"])
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, Conc(None)
    eng.contracts[us._check_name] = check
    return ctx


def u_get_state(eng):
    """the state of a value is the one of its type, with the id of the value, which is kept alive from before its
    state is taken; what is not found under its name is refused"""
    import skops.io._utils as us
    st = init_state(eng)
    ctx = save_setup(eng, st)
    v = SVal(z3.Const("value", V), None)
    n = 0
    for s, r in eng.run(us.get_state, [v, ctx], {}, st):
        if not eng.feasible(s):
            continue
        tr = s.ghost["trace"]
        kinds = [t[0] for t in tr]
        if isinstance(r, Raise):
            eng.oblige_bool(f"get_state: raises only what its callees raise", not r.exc.exact, exc_name(r.exc))
            continue
        n += 1
        first = kinds.index("dispatch") if "dispatch" in kinds else -1
        before = [t for t in tr[:max(first, 0)] if t[0] == "memoize"]
        eng.oblige_bool(f"get_state: the value is kept alive before its state is taken #{n}", bool(before) and all(eng.same(s, t[1], v) and eng.same(s, t[2], ctx) for t in before), str(kinds))
        eng.oblige_bool(f"get_state: the state is taken once, of the value, in this context #{n}", kinds.count("dispatch") == 1 and eng.same(s, tr[first][1], v) and tr[first][2] is not None and eng.same(s, tr[first][2], ctx), str(kinds))
        eng.oblige_bool(f"get_state: the name of the value is checked #{n}", any(t[0] == "check_name" and eng.same(s, t[1], v) for t in tr[first:]), str(kinds))
        c = cell(s, r) if isinstance(r, Ref) else None
        got = {g[1].v: g[2] for g in c.segs if g[0] == "k" and isinstance(g[1], Conc)} if isinstance(c, DictCell) else {}
        eng.oblige_bool(f"get_state: __id__ is the id of the value #{n}", "__id__" in got and valid(eng, s, eng.reify(s, got["__id__"]) == V.I(ident(eng, s, v))), show(eng, s, r))
        for x in ("__class__", "__module__", "__loader__", "content"):
            eng.oblige_bool(f"get_state: {x} is the one of the type's function #{n}", x in got and eng.same(s, got[x], SVal(eng.ufV(f"field.{x}", v.t), None)), show(eng, s, r))
        eng.oblige_bool(f"get_state: nothing else is added #{n}", set(got) == {"__class__", "__module__", "__loader__", "content", "__id__"}, str(sorted(got)))
    eng.oblige_bool("get_state: reachable", n > 0, kind="vacuity")


def u_check_name(loader):
    """a state that is loaded by its name is refused when that name stands for something other than the value or its type"""
    def mk(eng):
        import skops.io._utils as us
        st = init_state(eng)
        v = SVal(z3.Const("value", V), None)
        found = SVal(z3.Const("found", V), None)
        m, c = eng.sym("module", "str", st), eng.sym("class", "str", st)
        tv = SVal(eng.ufV("class_of", v.t), None)
        t0 = eng.ext[type]
        eng.ext[type] = lambda e, s, a, k: iter([(s, tv)]) if len(a) == 1 and a[0] is v else t0(e, s, a, k)

        def gettype(e, s, a, k):
            x = dict(zip(("module_name", "cls_or_func"), a))
            x.update(k)
            s.ghost["asked"] = s.ghost.get("asked", ()) + ((x["module_name"], x["cls_or_func"]),)
            for exc in (AttributeError, ImportError, ValueError):
                s2 = s.fork()
                s2.ghost["nothing"] = True
                yield s2, Raise(ExcV(exc, ()))
            yield s, found
        eng.contracts[us.gettype] = gettype
        state = eng.alloc(st, DictCell((("k", Conc("__class__"), c), ("k", Conc("__module__"), m), ("k", Conc("__loader__"), Conc(loader)), ("k", Conc("content"), SVal(z3.Const("content", V), None)))))
        n = 0
        for s, r in eng.run(us._check_name, [v, state], {}, st):
            if not eng.feasible(s):
                continue
            n += 1
            if isinstance(r, Raise):
                eng.oblige_bool(f"name ({loader}): refused only if something else has it #{n}", not valid(eng, s, z3.Or(found.t == v.t, found.t == tv.t)) and not s.ghost.get("nothing"), exc_name(r.exc))
                continue
            asked = s.ghost.get("asked", ())
            ok = len(asked) >= 1 and all(eng.same(s, a, m) and eng.same(s, b, c) for a, b in asked)
            eng.oblige_bool(f"name ({loader}): it is looked up #{n}", ok, str(asked))
            eng.oblige_bool(f"name ({loader}): accepted only if it is the name of the value or its type #{n}", bool(s.ghost.get("nothing")) or valid(eng, s, z3.Or(found.t == v.t, found.t == tv.t)), "; ".join(map(str, s.pc[-4:])))
        eng.oblige_bool(f"name ({loader}): reachable", n > 1, kind="vacuity")
    return mk


def u_unsupported(eng):
    """the kinds that cannot be restored are refused, whatever their value"""
    import skops.io._persist  # noqa
    import skops.io._general as ge
    st = init_state(eng)
    n = 0
    for s, r in eng.run(ge.unsupported_get_state, [SVal(z3.Const("value", V), None), SVal(z3.Const("ctx", V), None)], {}, st):
        n += 1
        eng.oblige_bool(f"unsupported: raises #{n}", isinstance(r, Raise), show(eng, s, r) if not isinstance(r, Raise) else "")
    eng.oblige_bool("unsupported: reachable", n > 0, kind="vacuity")


def names(P):
    u = lambda name, fn, mk: P.unit(name, fn, mk, policy=IdPolicy())
    from skops.io._audit import NODE_TYPE_MAPPING
    import skops.io._persist  # noqa
    for loader in sorted({l for l, _ in NODE_TYPE_MAPPING} - {"JsonNode", "MethodNode", "DTypeNode", "CachedNode"}):
        u(f"check of the name: {loader}", "_check_name", u_check_name(loader))
    u("unsupported kinds", "unsupported_get_state", u_unsupported)


# ------------------------------------------------------------------ loading
def u_registers(cls):
    """the node is recorded under the id of its state, and nothing else is; before any child is built"""
    def mk(eng):
        import skops.io._utils as us
        st = init_state(eng)
        state, ctx, T = NP.setup(eng, st, "none")
        eng.policy.events.clear()
        st.ghost["memo"] = ()

        def memoize(e, s, a, k):
            v = dict(zip(("self", "obj", "id"), a))
            v.update(k)
            s.ghost["memo"] = s.ghost["memo"] + ((v["obj"], v["id"], v["self"], len(s.ghost.get("trees", ()))),)
            yield s, Conc(None)
        eng.contracts[us.LoadContext.memoize] = memoize
        import skops.io._audit as au
        t0 = eng.contracts[au.get_tree]

        def tree(e, s, a, k):
            s.ghost["trees"] = s.ghost.get("trees", ()) + (1,)
            yield from t0(e, s, a, k)
        eng.contracts[au.get_tree] = tree
        cached = cls.__name__ == "CachedNode"
        n = 0
        for s, v in eng.call(st.fork(), Conc(cls), [state, ctx], {"trusted": Conc(None)}):
            if not eng.feasible(s) or isinstance(v, Raise):
                continue
            n += 1
            # nodes built by this one (e.g. the type of the constructor) come without an id, or with ids of their own states
            mine = [m for m in s.ghost["memo"] if isinstance(m[0], Ref) and m[0].addr == v.addr]
            other = [m for m in s.ghost["memo"] if not (isinstance(m[0], Ref) and m[0].addr == v.addr)]
            eng.oblige_bool(f"{label(cls)}#{n}: only the node itself is recorded", not other, f"{[show(eng, s, m[0]) for m in other]}")
            if cached:
                eng.oblige_bool(f"{label(cls)}#{n}: is not recorded", not mine)
                continue
            if mine:
                m = mine[-1]
                txt = str(eng.reify(s, m[1]))
                eng.oblige_bool(f"{label(cls)}#{n}: is recorded under the id of its state", "__id__" in txt and "state" in txt and len(mine) == 1 and eng.same(s, m[2], ctx), txt)
                eng.oblige_bool(f"{label(cls)}#{n}: is recorded before its children are built", m[3] == 0, f"after {m[3]}")
            else:
                # only states without an id
                eng.oblige_bool(f"{label(cls)}#{n}: is not recorded only without an id", no_id(eng, s, state), f"path {'; '.join(str(c)[:100] for c in s.pc)}")
        eng.oblige_bool(f"{label(cls)}: reachable", n > 0, kind="vacuity")
    return mk


def no_id(eng, s, state):
    """on this path the id of the state is missing or false"""
    for s1, f in eng.getattr(s.fork(), state, "get"):
        for s2, x in eng.call(s1, f, [Conc("__id__")], {}):
            if not eng.feasible(s2) or isinstance(x, Raise):
                continue
            if not valid(eng, s2, z3.Not(eng.truth(s2, x))):
                return False
    return True


def u_construct_once(cls):
    """construct returns one and the same object each time, and builds it once"""
    def mk(eng):
        out, state, ctx, T, ev = NP.instances(eng, cls, "none")
        f0 = cls._construct

        def once(e, s, a, k):
            s.ghost["built"] = s.ghost.get("built", 0) + 1
            yield s.fork(), Raise(ExcV(Exception, (), False))
            x = z3.Const(e.fresh("object"), V)
            import skops.io._audit as au
            s.assume(x != e.const_of(au.UNINITIALIZED))     # no node builds the sentinel
            yield s, SVal(x, None)
        eng.contracts[f0] = once
        n = 0
        for s, node in out[:4]:
            for s1, v1 in calls(eng, s, node, "construct"):
                if isinstance(v1, Raise) or not eng.feasible(s1):
                    continue
                for s2, v2 in calls(eng, s1, node, "construct"):
                    if not eng.feasible(s2):
                        continue
                    n += 1
                    eng.oblige_bool(f"{label(cls)}.construct: the second call gives the same object #{n}", not isinstance(v2, Raise) and eng.same(s2, v1, v2), f"{v1} then {v2}")
                    eng.oblige_bool(f"{label(cls)}.construct: which is built once #{n}", s2.ghost.get("built", 0) == 1, str(s2.ghost.get("built", 0)))
        eng.oblige_bool(f"{label(cls)}.construct: reachable", n > 0, kind="vacuity")
    return mk


def calls(eng, s, obj, name, args=(), kwargs=None):
    for s1, f in eng.getattr(s.fork(), obj, name):
        if isinstance(f, Raise):
            yield s1, f
        else:
            yield from eng.call(s1, f, list(args), dict(kwargs or {}))


def u_cached(eng):
    """CachedNode builds what the recorded node builds"""
    from skops.io._audit import CachedNode
    out, state, ctx, T, ev = NP.instances(eng, CachedNode, "none")
    n = 0
    for s, node in out:
        for s1, v in calls(eng, s, node, "construct"):
            if not eng.feasible(s1) or isinstance(v, Raise):
                continue
            n += 1
            t = str(eng.reify(s1, v))
            ok = isinstance(v, SVal) and v.t.decl().name() == "built" and v.t.arg(0).decl().name() == "memo" and ("__id__" in t or no_id(eng, s1, state))
            eng.oblige_bool(f"CachedNode: builds the object of the node with its id #{n}", ok, t[:200])
    eng.oblige_bool("CachedNode: reachable", n > 0, kind="vacuity")


def u_load_context(eng):
    """what is recorded under an id is found under it, other ids are not affected"""
    import skops.io._utils as us
    st = init_state(eng)
    a, b, c = (SVal(z3.Const(f"node{i}", V), ("obj",)) for i in "abc")
    i, j, k = (SInt(z3.Int(f"id{i}")) for i in "abc")
    st.assume(i.t != j.t, i.t != k.t, j.t != k.t)
    memo = eng.alloc(st, DictCell((("k", i, a),)))
    ctx = eng.alloc(st, ObjCell(us.LoadContext, {"src": SVal(z3.Const("zip", V), ("zip",)), "protocol": Conc(2), "memo": memo}))
    n = 0
    for s, r in eng.run(us.LoadContext.memoize, [ctx, b, j], {}, st):
        if not eng.feasible(s):
            continue
        if isinstance(r, Raise):
            eng.oblige_bool("LoadContext.memoize: does not raise", False, exc_name(r.exc))
            continue
        for key, want in ((i, a), (j, b), (k, Conc(None))):
            for s1, v in eng.run(us.LoadContext.get_object, [ctx, key], {}, s.fork()):
                if not eng.feasible(s1):
                    continue
                n += 1
                eng.oblige_bool(f"LoadContext: {show(eng, s1, key)} finds {show(eng, s1, want)} #{n}", not isinstance(v, Raise) and eng.same(s1, v, want), str(v))
            for s1, v in eng.run(lookup, [ctx, key], {}, s.fork()):
                if not eng.feasible(s1):
                    continue
                n += 1
                got = isinstance(v, Conc) and v.v is True or isinstance(v, SBool) and valid(eng, s1, v.t)
                no = isinstance(v, Conc) and v.v is False or isinstance(v, SBool) and valid(eng, s1, z3.Not(v.t))
                eng.oblige_bool(f"LoadContext: {show(eng, s1, key)} is known exactly if it was recorded #{n}", no if isinstance(want, Conc) else got, str(v))
    eng.oblige_bool("LoadContext: reachable", n > 0, kind="vacuity")


def lookup(ctx, key):
    return key in ctx.memo


def u_get_tree(seen):
    """seen: whether a node was recorded for the id of the state"""
    def mk(eng):
        import skops.io._audit as au, skops.io._utils as us
        st = init_state(eng)
        f0 = au.get_tree
        state, ctx, T = NP.setup(eng, st, "none")
        del eng.contracts[f0]
        for g in [g for g in eng.contracts if g is us.LoadContext.get_object or g is us.LoadContext.memoize]:
            del eng.contracts[g]
        sid = SInt(z3.Int("saved_id"))
        other = SInt(z3.Int("other_id"))
        st.assume(sid.t != other.t)
        node, node2 = (SVal(z3.Const(x, V), ("node", None)) for x in ("recorded", "recorded2"))
        st.assume(V.is_O(node.t), V.is_O(node2.t))
        ents = [("k", other, node2)] + ([("k", sid, node)] if seen else [])
        memo = eng.alloc(st, DictCell(tuple(ents)))
        ctx = eng.alloc(st, ObjCell(us.LoadContext, {"src": SVal(z3.Const("zip", V), ("zip",)), "protocol": Conc(2), "memo": memo}))
        state = eng.alloc(st, DictCell((("k", Conc("__id__"), sid), ("k", Conc("__class__"), SStr(z3.String("c"))), ("k", Conc("__module__"), SStr(z3.String("m"))), ("k", Conc("__loader__"), Conc("ListNode")),
                                        ("k", Conc("content"), SVal(z3.Const("content", V), "json")))))
        made = []
        cls = au.NODE_TYPE_MAPPING[("ListNode", 2)]

        def new(e, s, a, k):
            made.append(s)
            yield s.fork(), Raise(ExcV(Exception, (), False))
            yield s, SVal(z3.Const("new_node", V), ("node", None))
        eng.ext[cls] = new
        eng.contracts[cls] = new
        if hasattr(au, "_check_nesting"):
            eng.contracts[au._check_nesting] = lambda e, s, a, k: iter([(s, Conc(None))])
        n = 0
        for s, v in eng.run(f0, [state, ctx, T], {}, st):
            if not eng.feasible(s):
                continue
            if isinstance(v, Raise):
                eng.oblige_bool(f"get_tree: raises only what the node raises", not v.exc.exact, exc_name(v.exc))
                continue
            n += 1
            want = node if seen else SVal(z3.Const("new_node", V), None)
            eng.oblige_bool(f"get_tree: {'the recorded node' if seen else 'a new node'} is returned #{n}", eng.same(s, v, want), show(eng, s, v))
        eng.oblige_bool(f"get_tree: {'no' if seen else 'one'} node is created", len(made) == (0 if seen else 1), str(len(made)))
        eng.oblige_bool("get_tree: reachable", n > 0, kind="vacuity")
    return mk


def prove_state(P):
    P.unit("get_state", "_utils.get_state", u_get_state, policy=IdPolicy())


def prove(P):
    u = lambda name, fn, mk: P.unit(name, fn, mk, policy=IdPolicy())
    for known in (True, False):
        u(f"memoize ({'again' if known else 'new'})", "SaveContext.memoize", u_memoize(known))
    u("get_state", "_utils.get_state", u_get_state)
    u("LoadContext", "LoadContext.memoize, get_object", u_load_context)
    for seen in (True, False):
        u(f"get_tree ({'seen' if seen else 'new'})", "_audit.get_tree", u_get_tree(seen))
    for cls in registry():
        u(f"recorded: {label(cls)}", f"{label(cls)}.__init__", u_registers(cls))
        u(f"built once: {label(cls)}", f"{label(cls)}.construct", u_construct_once(cls))
    u("cached node", "CachedNode", u_cached)


def guards(G):
    def unpinned(self, obj):
        return id(obj)
    G.unit("guard: the object is not kept alive", "guard", u_memoize(False, unpinned), policy=IdPolicy())
