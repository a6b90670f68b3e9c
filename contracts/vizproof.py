"""Contracts of the functions of _visualize.py."""
from __future__ import annotations
import ast
from contracts.auditproof import *
from contracts.auditproof import worklist_loop
from pyvc.engine import Known

NEXT = "<<next>>"


def gen_step(loop, params):
    """the body of a loop of a generator as a generator of the variables it changes; it yields NEXT if the loop goes on"""
    step = ast.parse(f"def step({', '.join(params)}):\n    for _once in (0,):\n        pass\n    else:\n        yield {NEXT!r}").body[0]
    step.body[0].body = loop.body
    ast.fix_missing_locations(step)
    return step


def rows_of(eng, s, out):
    return [x for g in eng.norm_segs(s, cell(s, out).segs) for x in (g.vals if isinstance(g, Known) else [None])]


def walk_parts():
    import skops.io._visualize as vz
    src, loop, inits = worklist_loop(vz.walk_tree)
    wl = loop.test.id
    a = [x.arg for x in src.args.args]
    first = inits.get(wl)
    if not (isinstance(first, ast.List) and len(first.elts) == 1 and isinstance(first.elts[0], ast.Tuple) and [getattr(e, "id", None) for e in first.elts[0].elts] == a and len(a) == 4):
        raise Unsupported("walk_tree starts in another way")
    sets = [k for k, v in inits.items() if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set" and not v.args]
    maps = [k for k, v in inits.items() if isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args]
    if len(sets) + len(maps) + 1 != len(inits) or len(maps) > 1:
        raise Unsupported("walk_tree keeps its state in another way")
    return vz, src, loop, wl, sets, maps


def u_walk_step(kind, cls=None):
    """one step of walk_tree from an arbitrary worklist whose top entry is (x, key, level, last): for a node exactly one
    row with this level and key, the node's text and the node's own two verdicts is emitted, and only entries one level deeper are
    added; for None and containers nothing is emitted and only entries of the same level are added; nothing else is removed.
    Hence (by induction) the levels do not decrease towards the top of the worklist, so that each row is at most one
    level deeper than the row before it; the first row is the root's, with level 0."""
    def mk(eng):
        vz, src, loop, wl, sets, maps = walk_parts()
        st = init_state(eng)
        setup(eng, st, "T")
        node = lambda n: SVal(z3.Const(n, V), ("node", None))
        a, b = node("a"), node("b")
        st.assume(V.is_O(a.t), V.is_O(b.t))
        bools = {}
        meth = {"is_self_safe": lambda t: SBool(eng.ufV("node.is_self_safe", t, res=z3.BoolSort())), "is_safe": lambda t: SBool(eng.ufV("node.is_safe", t, res=z3.BoolSort())),
                "format": lambda t: SStr(V.s(eng.ufV("node.format", t)))}
        eng.attr_overrides[("node", "format()")] = lambda e, s, v, a, k: iter([(s, meth["format"](v.t))])
        x = ident = None
        if kind == "node":
            kt = eng.alloc(st, ListCell((Known((b,)),)))
            kids = eng.alloc(st, DictCell((("k", Conc("key_types"), a), ("k", Conc("content"), kt), ("k", Conc("x"), b))))
            x = eng.alloc(st, ObjCell(cls, {"children": kids}))
            ident = z3.Const("self", V)
            for nm, f in meth.items():
                for c in cls.__mro__:
                    if nm in c.__dict__:
                        eng.contracts[c.__dict__[nm]] = (lambda f: lambda e, s, a, k: iter([(s, f(ident))]))(f)
        elif kind == "none":
            x = Conc(None)
        elif kind == "dict":
            x = eng.alloc(st, DictCell((("k", Conc("p"), a), ("k", Conc("q"), b), ("k", Conc("r"), Conc(None)))))
        elif kind == "list":
            x = eng.alloc(st, ListCell((Known((a, b, a)),)))
        elif kind == "tuple":
            x = Tup((a, b))
        elif kind == "empty":
            x = eng.alloc(st, ListCell(()))
        elif kind == "text":
            x = eng.sym("x", "str", st)
        eng.ext[id] = lambda e, s, a, k: iter([(s, SInt(V.i(e.ufV("id", ident if isinstance(a[0], Ref) else e.reify(s, a[0])))))])
        level, key, last = SInt(z3.Int("level")), eng.sym("key", "str", st), SBool(z3.Bool("last"))
        W = eng.alloc(st, ListCell((eng.seq_of(SVal(z3.Const("W0", V), ("list", None))), Known((Tup((x, key, level, last)),)))))
        S = [eng.alloc(st, ListCell((eng.seq_of(SVal(z3.Const(k, V), ("list", "int"))),), "set")) for k in sets]
        clo = Closure(gen_step(loop, [wl] + sets + maps), 0, vz.walk_tree.__globals__, (), {}, None, "step")
        name = f"walk_tree step ({cls.__name__ if cls else kind})"
        n = 0
        # verdicts that were remembered (invariant: each under the identity of its node, which is alive): the one of any
        # other node, and the one of this node or not
        other = ("k", SInt(z3.Int("other")), SBool(eng.ufV("node.is_safe", z3.Const("another", V), res=z3.BoolSort())))
        own_id = V.i(eng.ufV("id", ident)) if ident is not None else None
        runs = []
        for known in ([False, True] if maps and ident is not None else [False]):
            s0 = st.fork()
            M = []
            if maps:
                own = ("k", SInt(own_id), meth["is_safe"](ident)) if known else None
                if own_id is not None:
                    s0.assume(z3.Int("other") != own_id)
                M = [eng.alloc(s0, DictCell((other, own) if known else (other,)))]
            runs += [(s, v, M) for s, v in eng.call(s0, clo, [W] + S + M, {})]
        for s, v, M in runs:
            if not eng.feasible(s):
                continue
            n += 1
            for m in M:
                for e in cell(s, m).segs:
                    ok = e[0] == "k" and (eng.same(s, e[1], other[1]) and eng.same(s, e[2], other[2]) or
                                          ident is not None and eng.same(s, e[1], SInt(own_id)) and valid(eng, s, eng.truth(s, e[2]) == meth["is_safe"](ident).t))
                    eng.oblige_bool(f"{name}#{n}: the verdicts that are remembered are those of their nodes", ok, str(e)[:300])
            if isinstance(v, Raise):
                eng.oblige_bool(f"{name}#{n} raises only for what is no node", kind == "text" and v.exc.cls is TypeError, exc_name(v.exc))
                continue
            rows = rows_of(eng, s, v)
            ok = bool(rows) and isinstance(rows[-1], Conc) and rows[-1].v == NEXT
            eng.oblige_bool(f"{name}#{n}: the loop goes on", ok, str(rows))
            rows = rows[:-1]
            eng.oblige_bool(f"{name}#{n}: {'one row' if kind == 'node' else 'no row'} is emitted", len(rows) == (kind == "node"), str(rows))
            for r in rows if kind == "node" else []:
                at = cell(s, r).attrs if isinstance(r, Ref) and isinstance(cell(s, r), ObjCell) else {}
                for f, want in (("level", level), ("key", key), ("val", meth["format"](ident)), ("is_self_safe", meth["is_self_safe"](ident)), ("is_safe", meth["is_safe"](ident)), ("is_last", last)):
                    if f == "is_last":
                        continue
                    eng.oblige_bool(f"{name}#{n}: {f} of the row is the node's", f in at and eng.same(s, at[f], want), show(eng, s, at.get(f)) if f in at else "missing")
            segs = eng.norm_segs(s, cell(s, W).segs)
            eng.oblige_bool(f"{name}#{n}: nothing is removed below the entry", bool(segs) and not isinstance(segs[0], Known) and segs[0].key == "W0" and all(isinstance(g, Known) for g in segs[1:]), str(segs))
            want = level.t + (1 if kind == "node" else 0)
            for g in segs[1:]:
                for y in g.vals:
                    t = eng.as_tuple(y) or ()
                    eng.oblige_bool(f"{name}#{n}: entries are added one level below their node", len(t) == 4 and valid(eng, s, eng.reify(s, t[2]) == V.I(want)), show(eng, s, y))
            if kind == "node":
                added = [y for g in segs[1:] for y in g.vals]
                safe, own = (eng.ufV(f"node.{k}", ident, res=z3.BoolSort()) for k in ("is_safe", "is_self_safe"))
                if not added:
                    seen = any(f"{k}" in str(m) and "id(self)" in str(m).replace("\n", "") for m in s.pc for k in sets)
                    eng.oblige_bool(f"{name}#{n}: what is below a node is left out only if there is nothing unsafe, the node itself is marked or it is shown elsewhere", seen or valid(eng, s, z3.Or(safe, z3.Not(own))), str(s.pc)[:500])
                for y in added:
                    d = (eng.as_tuple(y) or (None,))[0]
                    keys = {e[1].v: e[2] for e in cell(s, d).segs if e[0] == "k"} if isinstance(d, Ref) and isinstance(cell(s, d), DictCell) else {}
                    ok = {"content", "x"} <= set(keys) and eng.same(s, keys["x"], b) and eng.same(s, keys["content"], kt)
                    eng.oblige_bool(f"{name}#{n}: all children are queued", ok, show(eng, s, d) if d is not None else "")
                    if "key_types" not in keys:
                        eng.oblige_bool(f"{name}#{n}: key types are left out only if they are safe", valid(eng, s, eng.ufV("node.is_safe", a.t, res=z3.BoolSort())), str(s.pc)[:500])
        eng.oblige_bool(f"{name}: reachable", n > 0, kind="vacuity")
    return mk


def u_walk_start(eng):
    """the defaults with which visualize starts: key root, level 0"""
    import inspect
    vz, src, loop, wl, sets, maps = walk_parts()
    p = list(inspect.signature(vz.walk_tree).parameters.values())
    eng.oblige_bool("walk_tree starts with the node it is given, at level 0", p[2].default == 0 and p[0].default is inspect.Parameter.empty, str(p))
    k = [i for i, x in enumerate(src.body) if x is loop][0]
    eng.oblige_bool("walk_tree emits nothing but in its loop", not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for x in src.body[:k] + src.body[k + 1:] for y in ast.walk(x)))


def u_is_safe(eng):
    """is_safe() is True exactly when the unsafe set is empty (or trusted is True)"""
    from skops.io._audit import Node
    st = init_state(eng)
    setup(eng, st, "none")
    un = SVal(z3.Const("unsafe", V), ("set", "str"))
    for tv, given in ((SVal(z3.Const("T", V), ("list", "str")), "names"), (Conc(True), "True")):
        eng.contracts[Node.get_unsafe_set] = lambda e, s, a, k: iter([(s, un)])
        if given == "names":
            st.assume(z3.Not(V.is_B(tv.t)))
        x = eng.alloc(st, ObjCell(Node, {"trusted": tv}))
        n = 0
        for s, f in eng.getattr(st.fork(), x, "is_safe"):
            for s2, r in eng.call(s, f, [], {}):
                if not eng.feasible(s2):
                    continue
                n += 1
                empty = z3.Not(eng.truth(s2, un))
                ok = not isinstance(r, Raise) and (valid(eng, s2, eng.truth(s2, r) == empty) if given == "names" else valid(eng, s2, eng.truth(s2, r)))
                eng.oblige_bool(f"is_safe() with trusted {given}#{n}: no name of a node at or below it is missing", ok, str(r))
        eng.oblige_bool(f"is_safe() {given}: reachable", n > 0, kind="vacuity")


def u_format(cls):
    """the text of a node shows the name that is audited (and no other name), or the content of a json or bytes node"""
    def mk(eng):
        from skops.io import _general as g
        out, state, ctx, T, ev = instances(eng, cls, "T")
        n = 0
        content = issubclass(cls, (g.JsonNode, g.BytesNode))
        for s, v in out:
            names = audited_names(eng, s, v)
            for s1, f in eng.getattr(s.fork(), v, "format"):
                for s2, r in ([(s1, f)] if isinstance(f, Raise) else eng.call(s1, f, [], {})):
                    if isinstance(r, Raise) or not eng.feasible(s2):
                        continue
                    n += 1
                    if content:
                        continue
                    t = eng.str_of(r)
                    if t is None and isinstance(r, SVal):
                        t = V.s(r.t)
                    ok = t is not None and all(not eng.feasible(joint(s2, s3)) or valid(eng, joint(s2, s3), t == nm) for s3, nm in names)
                    eng.oblige_bool(f"{label(cls)}.format() shows the audited name #{n}", ok, f"{t} / {names[0][1] if names else None}"[:500])
        eng.oblige_bool(f"{label(cls)}.format(): {n} paths", n > 0 or not out)
    return mk


def u_visualize(eng):
    """visualize reads schema.json of the given archive, builds its tree with exactly the given trusted names, and hands
    the rows of this tree, show and the keyword arguments to the sink"""
    import skops.io._visualize as vz, skops.io._audit as au
    from contracts.auditproof import pipeline
    for given in ("bytes", "path"):
        st = init_state(eng)
        pipeline(eng, st)
        if vz.get_tree in eng.contracts or True:
            eng.contracts[vz.get_tree] = eng.contracts[au.get_tree]
        eng.policy.events.clear()
        walked = []

        def walk(e, s, a, k):
            x = a[0] if a else k["node"]
            extra = list(a[1:]) + [v for kk, v in k.items() if kk != "node"]
            walked.append(extra)
            yield s, SVal(e.ufV("rows", e.reify(s, x)), ("rows",))
        eng.contracts[vz.walk_tree] = walk
        src = SVal(z3.Const("src", V), ("path", None)) if given == "path" else SVal(z3.Const("src", V), ("bytes",))
        T = SVal(z3.Const("T", V), ("trusted",))
        sh = eng.sym("show", "str", st)
        sink = SVal(z3.Const("sink", V), ("sink",))
        color = eng.sym("tag", "str", st)
        n = ok_n = 0
        for s, v in eng.call(st.fork(), Conc(vz.visualize), [src], {"trusted": T, "show": sh, "sink": sink, "tag_unsafe": color}):
            if eng.feasible(s) and not isinstance(v, Raise):
                n += 1
        for kind, s, kw in eng.policy.events:
            if not eng.feasible(s):
                continue
            if kind == "get_tree":
                ok_n += 1
                stt = eng.reify(s, kw["state"])
                eng.oblige_bool(f"visualize({given}): the tree is built with the given trusted names", isinstance(kw["trusted"], SVal) and eng.same(s, kw["trusted"], T), str(kw["trusted"]))
                eng.oblige_bool(f"visualize({given}): the tree is that of schema.json", "schema.json" in str(stt), str(stt)[:300])
                p = cell(s, kw["ctx"]).attrs.get("protocol") if isinstance(kw["ctx"], Ref) else None
                eng.oblige_bool(f"visualize({given}): the protocol is the one of the archive", p is not None and valid(eng, s, eng.reify(s, p) == eng.ufV("val", stt, V.S(z3.StringVal("protocol")))), str(p))
                root = eng.ufV("tree", stt)
            elif kind == "call_unknown" and isinstance(kw["fn"], SVal) and kw["fn"].tag == ("sink",):
                a, k = kw["args"], kw["kwargs"]
                rows = a[0] if a else None
                ok = isinstance(rows, SVal) and rows.t.decl().name() == "rows" and rows.t.arg(0).decl().name() == "tree"
                eng.oblige_bool(f"visualize({given}): the sink gets the rows of the tree", ok and not any(walked[0]), show(eng, s, rows) if rows is not None else "nothing")
                s_ok = (len(a) > 1 and eng.same(s, a[1], sh)) or ("show" in k and eng.same(s, k["show"], sh))
                eng.oblige_bool(f"visualize({given}): the sink gets show and the keyword arguments", s_ok and "tag_unsafe" in k and eng.same(s, k["tag_unsafe"], color), str((a[1:], k)))
                ok_n += 100
        eng.oblige_bool(f"visualize({given}): the tree is built and the sink called", ok_n > 100 and n > 0, f"{ok_n} {n}")


def u_label(eng):
    """the label of a row carries the unsafe tag exactly when the node itself is not safe, and its own text"""
    import skops.io._visualize as vz
    st = init_state(eng)
    setup(eng, st, "none")
    val, safe, all_safe = eng.sym("val", "str", st), SBool(z3.Bool("self_safe")), SBool(z3.Bool("all_safe"))
    node = eng.alloc(st, ObjCell(vz.NodeInfo, {"level": SInt(z3.Int("level")), "key": eng.sym("key", "str", st), "val": val, "is_self_safe": safe, "is_safe": all_safe, "is_last": Conc(False)}))
    ts, tu = eng.sym("tag_safe", "str", st), eng.sym("tag_unsafe", "str", st)
    n = 0
    for s, v in eng.call(st.fork(), Conc(vz._get_node_label), [node], {"tag_safe": ts, "tag_unsafe": tu, "use_colors": Conc(False)}):
        if not eng.feasible(s):
            continue
        n += 1
        if isinstance(v, Raise):
            eng.oblige_bool(f"label#{n} does not raise", False, exc_name(v.exc))
            continue
        t = eng.str_of(v)
        tag = z3.If(safe.t, eng.str_of(ts), eng.str_of(tu))
        want = z3.If(z3.Length(tag) > 0, z3.Concat(eng.str_of(val), z3.StringVal(" "), tag), eng.str_of(val))
        eng.oblige_bool(f"label#{n} is the text and the tag of the node's own verdict", t is not None and valid(eng, s, t == want), str(t))
    eng.oblige_bool("label: reachable", n > 0, kind="vacuity")


def u_visible(eng):
    import skops.io._visualize as vz

    def spec(a, b, show):
        if show == "all":
            return True
        if show == "untrusted":
            return not b
        return a
    equiv(eng, "_check_visibility", vz._check_visibility, spec, lambda eng, st: ([SBool(z3.Bool("a")), SBool(z3.Bool("b")), eng.sym("show", "str", st)], {}))
