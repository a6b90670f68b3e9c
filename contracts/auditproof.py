"""Contracts of the functions around the nodes: name resolution, trusted names, the tree walk, loading."""
from __future__ import annotations
import ast
from contracts.nodeproof import *
from pyvc.harness import *
from pyvc.engine import Known, SeqConst, SeqVar


def u_resolution(fname):
    """gettype(m, c) and _import_obj(m, c) resolve exactly the module m and its attribute c, or raise"""
    def mk(eng):
        import skops.io._utils as us
        fn = getattr(us, fname, None)
        if fn is None:
            raise Unsupported(f"{fname} is gone")
        st = init_state(eng)
        eng.policy.events = []
        pol = eng.policy

        def imp(e, s, a, k):
            pol.event(e, s, "import", module=a[0])
            yield s.fork(), Raise(ExcV(ImportError, (), False))
            yield s, SVal(e.ufV("module", e.reify(s, a[0])), ("module", a[0]))
        eng.ext[importlib.import_module] = imp
        m, c = eng.sym("m", "str", st), eng.sym("c", "str", st)
        n = 0
        for s, v in eng.call(st.fork(), Conc(fn), [m, c], {}):
            if isinstance(v, Raise) or not eng.feasible(s):
                continue
            n += 1
            ok = isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "getattr" and isinstance(v.tag[1], SVal) and v.tag[1].tag[0] == "module" \
                and valid(eng, s, eng.reify(s, v.tag[1].tag[1]) == eng.reify(s, m)) and valid(eng, s, eng.reify(s, v.tag[2]) == eng.reify(s, c))
            eng.oblige_bool(f"{fname}(m, c) is attribute c of module m #{n}", ok, "" if ok else f"returns {show(eng, s, v)}")
        for kind, s, kw in pol.events:
            if kind == "import":
                ok = valid(eng, s, eng.reify(s, kw["module"]) == eng.reify(s, m))
            elif kind == "getattr_dyn":
                ok = valid(eng, s, eng.reify(s, kw["name"]) == eng.reify(s, c))
            elif kind in ("call_unknown", "open", "setattr_dyn", "live_write"):
                ok = kind == "call_unknown" and isinstance(kw["fn"], Conc) and harmless(kw["fn"].v)
            else:
                continue
            if not ok:
                eng.oblige_bool(f"{fname}: nothing else is resolved or called", False, describe(eng, s, kind, kw))
        eng.oblige_bool(f"{fname}: reachable", n > 0, kind="vacuity")
    return mk


def spec_paths(types):
    from skops.io._utils import get_type_name
    if not types:
        return []
    if not isinstance(types, (list, tuple)):
        types = [types]
    return [t if isinstance(t, str) else get_type_name(t) for t in types]


def u_type_paths(shape):
    """get_type_paths keeps strings, order and duplicates and replaces types by their names"""
    def mk(eng):
        import skops.io._utils as us

        def tn(e, s, a, k):
            x = e.reify(s, a[0])
            for s2, b in e.branch(s, e.ufV("nameless", x, res=z3.BoolSort())):
                if b:
                    yield s2, Raise(ExcV(AttributeError, (), False))
                else:
                    yield s2, SStr(V.s(e.ufV("typename", x)))
        eng.contracts[us.get_type_name] = tn

        def args(eng, st):
            if shape == "list":
                x = eng.sym("types", ("list", None), st)
            elif shape == "str":
                x = eng.sym("types", "str", st)
            elif shape == "none":
                x = Conc(None)
            elif shape == "tuple":
                x = Tup((eng.sym("a", "str", st), SVal(z3.Const("t", V), ("class",)), eng.sym("a2", "str", st)))
            else:
                x = Tup(())
            return [x], {}
        equiv(eng, f"get_type_paths({shape})", us.get_type_paths, spec_paths, args)
    return mk


def u_type_name(eng):
    """the name of a type is its module and its name, whatever else it has"""
    import skops.io._utils as us

    def spec(t):
        return us.get_module(t) + "." + t.__name__

    def gm(e, s, a, k):
        yield s, SStr(V.s(e.ufV("module_of", e.reify(s, a[0]))))
    eng.contracts[us.get_module] = gm
    eng.attr_overrides[("obj", "__name__")] = lambda e, s, v, n: iter([(s, SStr(V.s(e.ufV("name_of", v.t))))])
    equiv(eng, "get_type_name", us.get_type_name, spec, lambda eng, st: ([SVal(z3.Const("t", V), ("obj",))], {}))


def u_get_module(eng):
    """get_module of what knows its module: that module"""
    import skops.io._utils as us

    def spec(t):
        t.__name__
        return t.__module__
    st = init_state(eng)
    n = 0
    t = SVal(z3.Const("t", V), ("obj",))
    m = eng.sym("module", "str", st)
    eng.attr_overrides[("obj", "__module__")] = lambda e, s, v, n_: iter([(s, m)])
    for s, v in eng.call(st.fork(), Conc(us.get_module), [t], {}):
        if not eng.feasible(s) or isinstance(v, Raise):
            continue
        n += 1
        eng.oblige_bool("get_module: the module an object knows", eng.same(s, v, m), show(eng, s, v))
    eng.oblige_bool("get_module: reachable", n > 0, kind="vacuity")


def u_check_type(eng):
    import skops.io._audit as au

    def spec(module_name, type_name, trusted):
        return module_name + "." + type_name in trusted
    equiv(eng, "check_type", au.check_type, spec, lambda eng, st: ([eng.sym("m", "str", st), eng.sym("t", "str", st), eng.sym("T", ("list", "str"), st)], {}))


def u_get_tree(loader, protocol, expected, checked=None):
    """get_tree(state) for a state with that loader in an archive of that protocol; checked: also oblige that a new node is
    compared with the limits before it is returned"""
    def mk(eng):
        import skops.io._audit as au, skops.io._utils as us
        import skops.io._persist
        st = init_state(eng)
        built = []

        def rec(cls):
            def h(e, s, a, k):
                built.append(cls)
                v = dict(zip(("state", "load_context", "trusted"), a))
                v.update(k)
                yield s.fork(), Raise(ExcV(Exception, (), False))
                yield s, SVal(z3.Const(e.fresh("new"), V), ("newnode", cls, v.get("state"), v.get("load_context"), v.get("trusted")))
            return h
        for c in set(au.NODE_TYPE_MAPPING.values()):
            eng.contracts[c] = rec(c)
        # functions of the module that only look at the new node (u_nesting)
        nesting_contract(eng, checked)
        rest = SVal(z3.Const("rest", V), "json")
        sid = SVal(z3.Const("id", V), "json")
        state = eng.alloc(st, DictCell((("k", Conc("__loader__"), Conc(loader)), ("k", Conc("__module__"), eng.sym("m", "str", st)), ("k", Conc("__class__"), eng.sym("c", "str", st)), ("k", Conc("__id__"), sid))))
        memo = SVal(z3.Const("memo", V), ("dict", None, None))
        ctx = eng.alloc(st, ObjCell(us.LoadContext, {"src": SVal(z3.Const("zip", V), ("zip", Conc("a"), Conc("r"))), "protocol": Conc(protocol), "memo": memo}))
        T = SVal(z3.Const("T", V), ("trusted",))
        n = nm = 0
        for s, v in eng.call(st.fork(), Conc(au.get_tree), [state, ctx], {"trusted": T}):
            if not eng.feasible(s):
                continue
            n += 1
            name = f"get_tree({loader}, protocol {protocol})"
            if isinstance(v, Raise):
                if expected is None:
                    ok = v.exc.cls is TypeError
                    eng.oblige_bool(f"{name} raises TypeError #{n}", ok, exc_name(v.exc))
                    txt = eng.str_of(v.exc.args[0]) if v.exc.args else None
                    if txt is not None:
                        eng.oblige_bool(f"{name} names the loader #{n}", valid(eng, s, z3.Contains(txt, z3.StringVal(loader))), str(txt)[:200])
                else:
                    ok = not v.exc.exact if hasattr(v.exc, "exact") else True
                    eng.oblige_bool(f"{name} finds a loader #{n}", ok, f"raises {exc_name(v.exc)}")
                continue
            if isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "newnode":
                ok = expected is not None and v.tag[1] is expected and isinstance(v.tag[2], Ref) and v.tag[2].addr == state.addr and isinstance(v.tag[3], Ref) and v.tag[3].addr == ctx.addr and v.tag[4] is not None and eng.same(s, v.tag[4], T)
                if checked is not None:
                    eng.oblige_bool(f"{name}: the new node is within the limits #{n}", nesting_function() is not None and valid(eng, s, z3.Bool(f"checked!{v.t}")), "")
                eng.oblige_bool(f"{name} builds {label(expected) if expected else 'nothing'} from the state with the same trusted names #{n}", ok, f"builds {label(v.tag[1])} trusted={v.tag[4]}")
            else:
                nm += 1
                # the node that was memoized under this id
                t = eng.reify(s, v)
                ok = "memo" in str(t)
                eng.oblige_bool(f"{name} returns a new or a memoized node #{n}", ok, show(eng, s, v))
        eng.oblige_bool(f"get_tree({loader}, {protocol}): reachable", n > 0, kind="vacuity")
    return mk


def nesting_function():
    """the function of the module that compares a node with the recursion limit"""
    import types
    import skops.io._audit as au
    for f in vars(au).values():
        if isinstance(f, types.FunctionType) and f.__module__ == au.__name__ and "getrecursionlimit" in f.__code__.co_names and f.__code__.co_argcount == 1:
            return f
    return None


def nesting_contract(eng, checked=None):
    import skops.io._audit as au
    f = nesting_function()
    if f is None:
        return

    def h(e, s, a, k):
        yield s.fork(), Raise(ExcV(RecursionError, (), False))
        s = s.fork()
        if checked is not None:
            mark = z3.Bool(f"checked!{a[0].t}")
            checked.append(mark)
            s.assume(mark)
        yield s, Conc(None)
    eng.contracts[f] = h


def u_nesting(n_child):
    """_check_nesting(node): the node is at least one level above each of its children and as large as all of them with itself;
    it returns None only if both are within their limits and raises RecursionError otherwise; nothing else is written"""
    def mk(eng):
        import sys
        import skops.io._audit as au
        f = nesting_function()
        if f is None:
            raise Unsupported("no function checks how much nodes are nested")
        st = init_state(eng)
        eng.ext[sys.getrecursionlimit] = lambda e, s, a, k: iter([(s, SInt(z3.Int("limit")))])
        kids, refs = [], []
        for i in range(n_child):
            d, z = z3.Int(f"d{i}"), z3.Int(f"z{i}")
            st.assume(d >= 0, z >= 1)
            kids.append((d, z))
            refs.append(eng.alloc(st, ObjCell(au.Node, {"depth": SInt(d), "size": SInt(z)})))
        shapes = [("k", Conc("none"), Conc(None)), ("k", Conc("text"), Conc("x"))]
        if refs:
            shapes.append(("k", Conc("one"), refs[0]))
        if refs[1:]:
            shapes.append(("k", Conc("list"), eng.alloc(st, ListCell((Known(tuple(refs[1:2])),)))))
        if refs[2:]:
            shapes.append(("k", Conc("dict"), eng.alloc(st, DictCell(tuple(("k", Conc(f"k{i}"), r) for i, r in enumerate(refs[2:]))))))
        cd = eng.alloc(st, DictCell(tuple(shapes)))
        node = eng.alloc(st, ObjCell(au.Node, {"children": cd, "depth": Conc(0), "size": Conc(1)}))
        n = 0
        for s, v in eng.call(st.fork(), Conc(f), [node], {}):
            if not eng.feasible(s):
                continue
            n += 1
            at = cell(s, node).attrs
            total = z3.IntVal(1) + sum([z for d, z in kids], z3.IntVal(0))
            t = lambda x: z3.IntVal(x.v) if isinstance(x, Conc) else x.t
            limits = lambda: z3.And(t(at["depth"]) <= z3.Int("limit"), t(at["size"]) <= z3.IntVal(au.MAX_SIZE))
            eng.oblige_bool(f"_check_nesting/{n_child}#{n}: the size is the sum of those of the children and one", valid(eng, s, t(at["size"]) == total), str(at.get("size")))
            for d, z in kids:
                eng.oblige_bool(f"_check_nesting/{n_child}#{n}: the node is above each child", valid(eng, s, t(at["depth"]) >= d + 1), str(at.get("depth")))
            if isinstance(v, Raise):
                eng.oblige_bool(f"_check_nesting/{n_child}#{n} raises only beyond the limits", v.exc.cls is RecursionError and valid(eng, s, z3.Not(limits())), exc_name(v.exc))
            else:
                eng.oblige_bool(f"_check_nesting/{n_child}#{n} returns only within the limits", valid(eng, s, limits()), str(at)[:200])
            eng.oblige_bool(f"_check_nesting/{n_child}#{n} leaves the children alone", all(eng.same(s, cell(s, r).attrs["depth"], SInt(d)) and eng.same(s, cell(s, r).attrs["size"], SInt(z)) for r, (d, z) in zip(refs, kids)) and set(at) == {"children", "depth", "size"}, "")
        eng.oblige_bool(f"_check_nesting/{n_child}: reachable", n > 0, kind="vacuity")
    return mk


def expected_class(loader, protocol):
    """the class registered for the smallest protocol not below the archive's; newer archives use the current one"""
    from skops.io._audit import NODE_TYPE_MAPPING
    from skops.io._protocol import PROTOCOL
    ps = sorted(p for l, p in NODE_TYPE_MAPPING if l == loader)
    later = [p for p in ps if p >= protocol]
    if later:
        return NODE_TYPE_MAPPING[(loader, later[0])]
    if PROTOCOL in ps:
        return NODE_TYPE_MAPPING[(loader, PROTOCOL)]
    return None


def u_audit_tree(eng):
    """audit_tree raises UntrustedTypesFoundException(unsafe) exactly when the unsafe set is not empty"""
    import skops.io._audit as au
    from skops.io.exceptions import UntrustedTypesFoundException as UT
    st = init_state(eng)
    setup(eng, st, "none")
    un = SVal(z3.Const("unsafe", V), ("set", "str"))
    eng.attr_overrides[("node", "get_unsafe_set()")] = lambda e, s, v, a, k: iter([(s, un)])
    node = SVal(z3.Const("root", V), ("node", None))
    n = 0
    nonempty = eng.truth(st, un)
    for s, v in eng.call(st.fork(), Conc(au.audit_tree), [node], {}):
        if not eng.feasible(s):
            continue
        n += 1
        if isinstance(v, Raise):
            eng.oblige_bool(f"audit_tree#{n} raises only for unsafe types", v.exc.cls is UT and valid(eng, s, nonempty), exc_name(v.exc))
            ok = len(v.exc.args) == 1 and eng.same(s, v.exc.args[0], un)
            eng.oblige_bool(f"audit_tree#{n} names the unsafe types", ok, str(v.exc.args))
        else:
            eng.oblige_bool(f"audit_tree#{n} returns only without unsafe types", valid(eng, s, z3.Not(nonempty)), "returns on a path on which the set may be non-empty")
    eng.oblige_bool("audit_tree: both outcomes", n >= 2, kind="vacuity")


def pipeline(eng, st):
    """contracts for the units on load, loads, get_untrusted_types"""
    import skops.io._audit as au, skops.io._persist as ps, skops.io._utils as us
    setup(eng, st, "none")
    pol = eng.policy

    def audit(e, s, a, k):
        pol.event(e, s, "audit", node=a[0] if a else k["tree"])
        yield s.fork(), Raise(ExcV(Exception, (), False))
        s.ghost["audited"] = s.ghost.get("audited", ()) + (e.reify(s, a[0] if a else k["tree"]),)
        yield s, Conc(None)
    eng.contracts[au.audit_tree] = audit
    un = lambda e, v: SVal(e.ufV("unsafe", v.t), ("set", "str"))
    eng.attr_overrides[("node", "get_unsafe_set()")] = lambda e, s, v, a, k: (pol.event(e, s, "unsafe_set", node=v), iter([(s, un(e, v))]))[1]

    def tree(e, s, a, k):
        v = dict(zip(("state", "load_context", "trusted"), a))
        v.update(k)
        pol.event(e, s, "get_tree", state=v["state"], ctx=v["load_context"], trusted=v.get("trusted", Conc(None)))
        yield s.fork(), Raise(ExcV(Exception, (), False))
        root = SVal(e.ufV("tree", e.reify(s, v["state"])), ("node", v["state"]))
        yield s, root
    eng.contracts[au.get_tree] = tree
    for nm, f in (("get_tree", tree), ("audit_tree", audit)):
        o = getattr(ps, nm, None)
        if o is not None:
            eng.contracts[o] = f
    eng.ext[json.loads] = lambda e, s, a, k: iter([(s.fork(), Raise(ExcV(ValueError, (), False))), (s, SVal(e.ufV("json.loads", e.reify(s, a[0])), "json"))])
    return un


def u_load(which):
    """load/loads: read schema.json of the given archive, build its tree with exactly the given trusted names,
    audit this tree, and only after the audit passed construct it; True is rejected before anything happens"""
    def mk(eng):
        import skops.io._persist as ps
        for given in ("T", "True"):
            st = init_state(eng)
            pipeline(eng, st)
            eng.policy.events.clear()
            fn = getattr(ps, which)
            src = SVal(z3.Const("src", V), ("path", None)) if which == "load" else SVal(z3.Const("src", V), ("bytes",))
            T = SVal(z3.Const("T", V), ("trusted",)) if given == "T" else Conc(True)
            if given == "T":
                st = st.assume(z3.Not(V.is_B(T.t))) if hasattr(st, "assume") else st
            n = ok_n = 0
            for s, v in eng.call(st.fork(), Conc(fn), [src], {"trusted": T}):
                if not eng.feasible(s):
                    continue
                n += 1
                if given == "True":
                    ok = isinstance(v, Raise) and v.exc.cls is TypeError
                    eng.oblige_bool(f"{which}(trusted=True) raises TypeError #{n}", ok, str(v))
                    continue
                if isinstance(v, Raise):
                    continue
                ok_n += 1
                root = s.ghost.get("audited", ())
                b = v.t if isinstance(v, SVal) else None
                ok = b is not None and b.decl().name() == "built" and any(b.arg(0).eq(r) for r in root)
                eng.oblige_bool(f"{which}#{n} returns the object of the audited tree", ok, f"returns {show(eng, s, v)}, audited {root}")
            nb = 0
            for kind, s, kw in eng.policy.events:
                if not eng.feasible(s):
                    continue
                why = None
                if given == "True" and kind in ("open", "get_tree", "construct", "audit"):
                    why = f"{kind} although trusted is True"
                elif kind == "construct":
                    t = kw["node"].t
                    if not any(t.eq(r) for r in s.ghost.get("audited", ())):
                        why = "construct before the audit"
                elif kind == "get_tree":
                    if not (isinstance(kw["trusted"], SVal) and eng.same(s, kw["trusted"], T)):
                        why = f"the trusted names are not passed on: {kw['trusted']}"
                    stt = eng.reify(s, kw["state"])
                    if "schema.json" not in str(stt):
                        why = "the tree is not built from schema.json"
                    p = cell(s, kw["ctx"]).attrs.get("protocol") if isinstance(kw["ctx"], Ref) else None
                    if p is None or not valid(eng, s, eng.reify(s, p) == eng.ufV("val", stt, V.S(z3.StringVal("protocol")))):
                        why = why or "the protocol is not the one of the archive"
                elif kind == "open":
                    if not eng.same(s, fsmodel.strip_path(kw["file"]), src):
                        why = "another file is opened"
                elif kind in ("resolve", "import"):
                    why = "a name is resolved"
                elif kind == "call_unknown":
                    f = kw["fn"]
                    if isinstance(f, Conc) and not harmless(f.v):
                        why = f"{live_name(f.v)} is called"
                if why:
                    nb += 1
                    eng.oblige_bool(f"{which}: {why} #{nb}", False, describe(eng, s, kind, kw))
            if given == "T":
                eng.oblige_bool(f"{which}: tree, audit, construct in this order on all {n} paths", nb == 0 and ok_n > 0, "no successful path" if not ok_n else "")
            else:
                eng.oblige_bool(f"{which}(trusted=True): reachable", n > 0, kind="vacuity")
    return mk


def u_untrusted(eng):
    """get_untrusted_types: sorted(unsafe set of the tree built without trusted names), nothing is constructed"""
    import skops.io._persist as ps
    for given in ("data", "file"):
        st = init_state(eng)
        un = pipeline(eng, st)
        eng.policy.events.clear()
        src = SVal(z3.Const("src", V), ("path", None)) if given == "file" else SVal(z3.Const("src", V), ("bytes",))
        n = 0
        for s, v in eng.call(st.fork(), Conc(ps.get_untrusted_types), [], {given: src}):
            if not eng.feasible(s) or isinstance(v, Raise):
                continue
            n += 1
            roots = [SVal(eng.ufV("tree", eng.reify(s2, kw["state"])), ("node", None)) for k, s2, kw in eng.policy.events if k == "get_tree" and is_prefix(s2, s)]
            want = []
            for r in roots:
                want += [w for _, w in eng.call(s.fork(), Conc(sorted), [un(eng, r)], {})]
            ok = any(eng.same(s, v, w) for w in want)
            eng.oblige_bool(f"get_untrusted_types({given}) is the sorted unsafe set #{n}", ok, f"returns {show(eng, s, v)[:200]}")
        nb = 0
        for kind, s, kw in eng.policy.events:
            why = None
            if kind == "construct":
                why = "a node is constructed"
            elif kind in ("resolve", "import"):
                why = "a name is resolved"
            elif kind == "open" and not eng.same(s, fsmodel.strip_path(kw["file"]), src):
                why = "another file is opened"
            elif kind == "get_tree" and not (isinstance(kw["trusted"], Conc) and kw["trusted"].v in (None, (), False)) and not (isinstance(kw["trusted"], Ref) and live(eng, s, kw["trusted"]) == []):
                why = "names are trusted"
            elif kind == "call_unknown" and isinstance(kw["fn"], Conc) and not harmless(kw["fn"].v):
                why = f"{live_name(kw['fn'].v)} is called"
            if why and eng.feasible(s):
                nb += 1
                eng.oblige_bool(f"get_untrusted_types({given}): {why} #{nb}", False, describe(eng, s, kind, kw))
        eng.oblige_bool(f"get_untrusted_types({given}): only the tree is built", nb == 0 and n > 0, "no successful path" if not n else "")


def worklist_loop(fn):
    """(function ast, its while loop over a list variable, initial values of its variables)"""
    import inspect, textwrap
    src = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    loops = [x for x in src.body if isinstance(x, ast.While)]
    inits = {t.id: x.value for x in src.body if isinstance(x, (ast.Assign, ast.AnnAssign)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)}
    if len(loops) != 1 or not isinstance(loops[0].test, ast.Name) or loops[0].orelse:
        raise Unsupported(f"{fn.__name__} is not a worklist loop any more")
    return src, loops[0], inits


def step_function(loop, params):
    """the body of a loop as a function of the variables it changes (True: the loop goes on)"""
    step = ast.parse(f"def step({', '.join(params)}):\n    for _once in (0,):\n        pass\n    else:\n        return True\n    return False").body[0]
    step.body[0].body = loop.body
    ast.fix_missing_locations(step)
    return step


def u_worklist(eng):
    """one step of get_unsafe_set from an arbitrary worklist, visited set and result: an unvisited node is marked, its
    audited name is added exactly if it is not safe, and all nodes among its children are queued (nothing is dropped
    from the worklist); a type among the children is checked itself. By induction the result is the set of names of
    all unsafe nodes reachable from the root, and each node is expanded once, so that the loop ends."""
    from skops.io._audit import Node
    fn = Node.get_unsafe_set
    src, loop, inits = worklist_loop(fn)
    wl = loop.test.id
    sets = [k for k, v in inits.items() if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set" and not v.args]
    rets = [x.value.id for x in src.body if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)]
    if len(rets) != 1 or rets[0] not in sets or len(sets) != 2 or not (isinstance(inits.get(wl), ast.List) and [getattr(e, "id", None) for e in inits[wl].elts] == [src.args.args[0].arg]):
        raise Unsupported("get_unsafe_set keeps its state in another way")
    res, vis = rets[0], [k for k in sets if k != rets[0]][0]
    step = step_function(loop, [wl, vis, res])
    st = init_state(eng)
    state, ctx, T = setup(eng, st, "T")
    node = lambda n: SVal(z3.Const(n, V), ("node", None))
    n, a, b, c, d, e, f = (node(x) for x in "nabcdef")
    st.assume(*[V.is_O(x.t) for x in (n, a, b, c, d, e, f)])
    seq = lambda k, t: eng.seq_of(SVal(z3.Const(k, V), ("list", t)))
    children = eng.alloc(st, DictCell(tuple(("k", Conc(k), v) for k, v in (
        ("none", Conc(None)), ("list", eng.alloc(st, ListCell((Known((a,)), seq("CL", None), Known((b,)))))), ("node", c),
        ("dict", eng.alloc(st, DictCell((("k", Conc("x"), d), ("k", Conc("y"), e))))),
        ("bytes", Conc(io.BytesIO(b""))), ("text", eng.sym("text", "str", st)), ("none2", Conc(None)), ("node2", f)))))
    eng.attr_overrides[("node", "children")] = lambda e, s, v, nm: iter([(s, children)])
    audited = lambda v: V.s(eng.ufV("audited", v.t))
    eng.attr_overrides[("node", "_get_audited_name()")] = lambda e, s, v, a, k: iter([(s, SStr(audited(v)))])
    eng.attr_overrides[("node", "trusted")] = lambda e, s, v, nm: iter([(s, T)])
    eng.contracts[id] = lambda e, s, a, k: iter([(s, SInt(V.i(e.ufV("id", e.reify(s, a[0])))))])
    eng.ext[id] = eng.contracts[id]
    W = eng.alloc(st, ListCell((seq("W0", None), Known((n,)))))
    VS = eng.alloc(st, ListCell((seq("V0", "int"),), "set"))
    R = eng.alloc(st, ListCell((seq("R0", "str"),), "set"))
    known = lambda s, r: [x for g in eng.norm_segs(s, s.heap[r.addr].segs) if isinstance(g, Known) for x in g.vals]
    base = lambda s, r: [g.key for g in eng.norm_segs(s, s.heap[r.addr].segs) if not isinstance(g, Known)]
    cnt = 0
    clo = Closure(step, 0, fn.__globals__, (), {}, None, "step")
    for s, v in eng.call(st.fork(), clo, [W, VS, R], {}):
        if not eng.feasible(s):
            continue
        cnt += 1
        if isinstance(v, Raise):
            eng.oblige_bool(f"get_unsafe_set step#{cnt} does not raise", False, exc_name(v.exc))
            continue
        w, vs, r = known(s, W), known(s, VS), known(s, R)
        eng.oblige_bool(f"get_unsafe_set step#{cnt}: the loop goes on, nothing is dropped", isinstance(v, Conc) and v.v is True and base(s, W)[:1] == ["W0"] and base(s, VS) == ["V0"] and base(s, R) == ["R0"],
                        f"{v} {base(s, W)} {base(s, VS)} {base(s, R)}")
        safe = eng.ufV("node.is_self_safe", n.t, res=z3.BoolSort())
        ident = eng.ufV("id", n.t)
        if not w and not vs:
            mem = [m for m in s.pc if "V0" in str(m) and "id" in str(m)]
            eng.oblige_bool(f"get_unsafe_set step#{cnt}: only a visited node is skipped", bool(mem) and not r, f"{s.pc}")
            continue
        eng.oblige_bool(f"get_unsafe_set step#{cnt}: the node is marked as visited", len(vs) == 1 and valid(eng, s, eng.reify(s, vs[0]) == V.I(V.i(ident))), str(vs))
        have = [eng.reify(s, x) for x in w]
        eng.oblige_bool(f"get_unsafe_set step#{cnt}: all children in a list are queued", sorted(base(s, W)) == ["CL", "W0"], str(base(s, W)))
        for x, what in ((a, "first in a list"), (b, "last in a list"), (c, "a node"), (d, "first in a dict"), (e, "last in a dict"), (f, "a node after None")):
            eng.oblige_bool(f"get_unsafe_set step#{cnt}: the child ({what}) is queued", any(h.eq(x.t) for h in have), str(have))
        own = [x for x in r if valid(eng, s, eng.reify(s, x) == V.S(audited(n)))]
        eng.oblige_bool(f"get_unsafe_set step#{cnt}: the name of the node is reported exactly if it is not safe", (bool(own) and valid(eng, s, z3.Not(safe))) or (not r and valid(eng, s, safe)), f"{r} on {s.pc}")
        eng.oblige_bool(f"get_unsafe_set step#{cnt}: nothing else is reported", len(own) == len(r), str(r))
    for kind, s, kw in eng.policy.events:
        r = inert_violation(eng, s, kind, kw)
        if r and eng.feasible(s):
            eng.oblige_bool(f"get_unsafe_set is inert: {r}", False, describe(eng, s, kind, kw))
    eng.oblige_bool("get_unsafe_set step: reachable", cnt >= 3, str(cnt), kind="vacuity")
