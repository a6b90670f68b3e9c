"""C15 Parsing a document yields a card with the same outline and content."""
import itertools, json, re
from pyvc.engine import Closure, Conc, Known, SInt, SStr, Tup
from contracts.card_common import *

TRUSTED = ["json.loads", "PrettyTable renders its columns as a markdown table (replayed in the bounded layer)"]
ASSUMPTIONS = ["documents begin with a header (the parser refuses others)", "headers occur at the top level of the document",
               "backslashes in titles may be escaped as in markdown", "title text without no-break spaces, line breaks or to-do boxes: markdown escaping and the documented post-processing change those",
               "captions of tables and the alignment of columns are presentation, not content"]
EXPLANATION = ("proved for all elements, also when a nested element fails: every conversion of the markdown dispatch table leaves the indentation stack (the only "
               "instance state) as it found it and writes no other state, and returns the same text for the same element and stack; _add_section adds one empty section of the title "
               "below the parents under a name that is free there, _add_content appends to the section it is given; the step of generate keeps its invariants for every number of open "
               "headers (levels 1-6) and puts each header below the nearest preceding one of lower level, any other block once into the current section, unless its source is out of reach; "
               "bounded: generate() against a reference outline over exhaustive header-level sequences and random pandoc trees, conversion order, failing elements.")


# ------------------------------------------------------------- proof layer
class Frame_(Policy):
    """no writes to anything but fresh objects and the indentation stack"""
    def __init__(self):
        self.bad = []

    def event(self, eng, st, kind, **kw):
        if kind in ("live_write", "setattr", "setitem", "delitem", "mutate", "global_write"):
            tgt = kw.get("obj") or kw.get("target")
            self.bad.append((kind, str(kw)[:200]))


def _md_setup(eng, st):
    from skops.card import _markup as mm
    trace0 = SVal(z3.Const("trace0", V), ("list", "int"))
    tr = eng.alloc(st, ListCell((eng.seq_of(trace0),)))
    m = mm.Markdown()
    attrs = {k: Conc(v) for k, v in vars(m).items() if k != "_indent_trace"}
    attrs["_indent_trace"] = tr
    self_ = eng.alloc(st, ObjCell(mm.Markdown, attrs))

    def call(e, s, args, kw):
        item = args[1] if len(args) > 1 else kw["item"]
        cur = s.heap[args[0].addr].attrs["_indent_trace"]
        t = e.ufV("md", e.reify(s, item), e.reify_segs(s, s.heap[cur.addr].segs, "list"))
        bad = e.ufV("md.fails", e.reify(s, item), res=z3.BoolSort())
        for s1, b in e.branch(s, bad):
            yield s1, Raise(ExcV(ValueError)) if b else SStr(V.s(t))
    eng.contracts[mm.Markdown.__call__] = call

    def fmt(e, s, args, kw):
        c = s.heap[args[0].addr]
        yield s, SStr(V.s(e.ufV("table.format", e.reify(s, c.attrs["table"]))))
    eng.contracts[mm.TableSection.format] = fmt
    from skops.card import _model_card as mc
    eng.contracts[mc.TableSection.format] = fmt
    # static helpers have no access to the instance: their result depends on their arguments (each has a frame unit of its own)
    for n, f in static_helpers(mm):
        def helper(e, s, args, kw, n=n, f=f):
            import inspect
            ts = [e.reify(s, x) for x in inspect.signature(f).bind(*args, **kw).arguments.values()]
            for s1, b in e.branch(s, e.ufV(f"helper.{n}.fails", *ts, res=z3.BoolSort())):
                yield s1, Raise(ExcV(ValueError)) if b else e.typed(e.ufV(f"helper.{n}", *ts), "json", s1)
        eng.contracts[f] = helper
    return mm, self_, tr


def static_helpers(mm):
    conv = {getattr(f, "__name__", None) for f in mm.Markdown().mapping.values()}
    return [(n, f.__func__) for n, f in sorted(vars(mm.Markdown).items()) if isinstance(f, staticmethod) and n not in conv]


def u_helper_frame(fn):
    """a static helper writes nothing but fresh objects: neither the document nor global state"""
    def mk(eng):
        import inspect
        st = init_state(eng)
        pol = eng.policy = Frame_()
        args = [eng.sym(p.name, {"int": "int", "str": "str", int: "int", str: "str"}.get(p.annotation, "json"), st) for p in inspect.signature(fn).parameters.values()]
        ends = [0, 0]
        for s, v in eng.call_closure(st.fork(), eng.closure_of(fn), args, {}):
            if eng.feasible(s):
                ends[isinstance(v, Raise)] += 1
        eng.oblige_bool(f"{fn.__name__}.no writes", not pol.bad, str(pol.bad[:3]))
        eng.oblige_bool(f"{fn.__name__}#returns", ends[0] > 0, str(ends), kind="vacuity")
    return mk


def u_frame(attr):
    def mk(eng):
        st = init_state(eng)
        pol = eng.policy = Frame_()
        mm, self_, tr = _md_setup(eng, st)
        f = inspect_static(mm.Markdown, attr)
        item = eng.sym("item", "json", st)
        before = st.heap[tr.addr].segs
        attrs0 = st.heap[self_.addr].attrs
        args = [item] if isinstance(f, staticmethod) else [self_, item]
        fn = f.__func__ if isinstance(f, staticmethod) else f
        n = 0
        for s, v in eng.call_closure(st.fork(), eng.closure_of(fn), args, {}):
            if not eng.feasible(s):
                continue
            n += 1
            ok = eng.same_segs(s, s.heap[tr.addr].segs, before) and all(s.heap[self_.addr].attrs.get(k) is x for k, x in attrs0.items())
            kind = "exceptional" if isinstance(v, Raise) else "normal"
            eng.oblige_bool(f"{attr}#{n}.stack restored ({kind} exit)", ok, "" if ok else f"stack after {kind} exit: {[show_seg(eng, s, x, 0) for x in s.heap[tr.addr].segs]}")
        eng.oblige_bool(f"{attr}.no other writes", not pol.bad, str(pol.bad[:3]))
        eng.oblige_bool(f"{attr}#reachable", n > 0, kind="vacuity")
    return mk


def inspect_static(cls, name):
    for k in cls.__mro__:
        if name in vars(k):
            return vars(k)[name]
    raise AttributeError(name)


def u_dispatch(eng):
    """Markdown.__call__: strings are themselves; otherwise the registered conversion of the type, or ValueError"""
    st = init_state(eng)
    from skops.card import _markup as mm
    m = mm.Markdown()
    bad = []
    for k, f in m.mapping.items():
        own = getattr(f, "__self__", None)
        fn = getattr(f, "__func__", f)
        ok = callable(f) and (own is m or own is None) and fn.__module__ == mm.__name__
        eng.oblige_bool(f"mapping[{k}] is a conversion of this instance", ok)
    for k in SUPPORTED:
        eng.oblige_bool(f"mapping has {k}", k in m.mapping)


SUPPORTED = ["Space", "Plain", "Str", "Strong", "Emph", "Strikeout", "RawInline", "RawBlock", "SoftBreak", "LineBreak", "Para", "Header", "Image", "Figure",
             "CodeBlock", "Code", "Table", "Div", "Link", "BulletList", "OrderedList", "Quoted", "BlockQuote"]


def spec_add_content(parser, content, section):
    if section is None:
        raise ValueError()
    if not section.content:
        section.content = content
    elif isinstance(section.content, str):
        section.content = section.content + "\n\n" + content
    else:
        raise ValueError()


def u_add_content(eng):
    from skops.card import _parser as pp, _model_card as mc
    st = init_state(eng)
    sec = eng.alloc(st, ObjCell(mc.Section, {"title": eng.sym("title", "str", st), "content": eng.sym("content", "str", st)}))
    ps = eng.alloc(st, ObjCell(pp.PandocParser, {}))
    c = eng.sym("new", "str", st)
    for label, target in (("section", sec), ("none", Conc(None))):
        r1 = list(eng.call_closure(st.fork(), eng.closure_of(pp.PandocParser._add_content), [ps, c, target], {}))
        r2 = list(eng.call_closure(st.fork(), eng.closure_of(spec_add_content), [ps, c, target], {}))
        n = 0
        for s1, v1 in r1:
            for s2, v2 in r2:
                s = joint(s1, s2)
                if not eng.feasible(s):
                    continue
                n += 1
                ok = isinstance(v1, Raise) == isinstance(v2, Raise)
                if label == "section":
                    a1, a2 = s1.heap[sec.addr].attrs, s2.heap[sec.addr].attrs
                    ok = ok and a1.keys() == a2.keys() and all(eng.same(s, a1[k], a2[k]) for k in a1)
                eng.oblige_bool(f"_add_content[{label}]#{n}", ok, "section content differs from specification")
        eng.oblige_bool(f"_add_content[{label}]#reachable", n > 0, kind="vacuity")


# ------------------------------------------------------------------ the loop of generate
def loop_body(fn):
    """the body of the only loop over the blocks as a function of the item and the variables that live across
    iterations, extracted from the source; (function, names of these variables, their initial values as source)"""
    import ast, inspect, textwrap
    f = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    loops = [n for n in f.body if isinstance(n, ast.For)]
    if len(loops) != 1 or loops[0].orelse or not isinstance(loops[0].target, ast.Name):
        raise Unsupported("generate is not one loop over the blocks")
    loop = loops[0]
    k = f.body.index(loop)
    init = {}
    for n in f.body[:k]:
        tgt = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else None
        if isinstance(tgt, ast.Name) and n.value is not None:
            init[tgt.id] = n.value
        elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            raise Unsupported("statements before the loop")
    used = {n.id for x in loop.body for n in ast.walk(x) if isinstance(n, ast.Name)}
    live = [v for v in init if v in used]
    class Jump(ast.NodeTransformer):
        """a continue of the loop ends the step"""
        def skip(self, n):
            if any(isinstance(x, ast.Return) for x in ast.walk(n)):
                raise Unsupported("a return in the loop")
            return n
        visit_For = visit_While = skip

        def visit_Break(self, n):
            raise Unsupported("the loop may end early")
        visit_Return = visit_Break

        def visit_FunctionDef(self, n):
            return n

        def visit_Continue(self, n):
            return ast.parse("return (" + "".join(v + ", " for v in live) + ")").body[0]
    loop.body = [Jump().visit(x) for x in loop.body]
    iterated = ast.unparse(loop.iter)
    for v, e in init.items():
        iterated = re.sub(rf"\b{v}\b", lambda m: ast.unparse(e), iterated)
    ret = ast.parse("return (" + "".join(v + ", " for v in live) + ")").body[0]
    args = ast.arguments(posonlyargs=[], args=[ast.arg("self"), ast.arg(loop.target.id)] + [ast.arg(v) for v in live], kwonlyargs=[], kw_defaults=[], defaults=[])
    body = ast.FunctionDef(name="generate_step", args=args, body=loop.body + [ret], decorator_list=[], type_params=[])
    after = [ast.unparse(n) for n in f.body[k + 1:]]
    return ast.fix_missing_locations(body), live, {v: ast.unparse(init[v]) for v in live}, iterated, after


def u_add_section(eng, fn=None):
    """_add_section: one new, empty section of the given title below the parents, under a name that no section there has
    (so none is replaced); nothing else is written, and the name and that section are returned"""
    from skops.card import _parser as pp
    from contracts import c09
    st = init_state(eng)
    mc, root, card = c09._setup(eng, st)
    ps = eng.alloc(st, ObjCell(pp.PandocParser, {}))
    title, parents = eng.sym("section_name", "str", st), eng.sym("parents", ("list", "str"), st)
    loc = eng.ufV("tree.descend", eng.tree_split(eng, st)[0], root.t, eng.reify(st, parents))
    n = 0
    for s, r in c09._cb(eng, st, fn or pp.PandocParser._add_section, [ps, title, card, parents]):
        if not eng.feasible(s):
            continue
        n += 1
        tag = f"_add_section#{n}"
        if isinstance(r, Raise):
            eng.oblige_bool(f"{tag}: returns", False, str(r))
            continue
        if not (isinstance(r, Tup) and len(r.items) == 2):
            raise Unsupported("result is not a pair")
        ev = []
        for g in eng.norm_segs(s, s.heap[s.ghost["tree"]].segs):
            if not isinstance(g, Known):
                raise Unsupported("writes in a loop")
            ev += [tuple(e.items) for e in g.vals]
        kinds = [e[0].v if isinstance(e[0], Conc) else "?" for e in ev]
        sets = [e for e, k in zip(ev, kinds) if k == "set"]
        if set(kinds) - {"set", "descend"}:
            raise Unsupported(f"writes {kinds}")
        eng.oblige_bool(f"{tag}: one section is written", len(sets) == 1, str(ev)[:400])
        ok = all(eng.same(s, e[1], parents) for e, k in zip(ev, kinds) if k == "descend")
        eng.oblige_bool(f"{tag}: no sections but the parents are created", ok, str(ev)[:400])
        if len(sets) != 1:
            continue
        _, where, name, new = sets[0]
        eng.oblige_bool(f"{tag}: it is directly below the parents", eng.same(s, where, SVal(loc, ("sdict",))), str(where)[:300])
        free = False
        for pre in (ev[:i] for i in range(len(ev))):                       # at some point before the write
            s0 = st.fork()
            for e in pre:
                eng.tree_push(eng, s0, *e)
            has = eng.ufV("tree.has", eng.tree_split(eng, s0)[0], loc, eng.reify(s, name), res=z3.BoolSort())
            free = free or eng.prover.valid(list(s.pc), z3.Not(has)) == "valid"
        eng.oblige_bool(f"{tag}: no section there has its name", free, str(s.pc[-3:])[:300])
        eng.oblige_bool(f"{tag}: its name is returned", eng.same(s, r.items[0], name), str(r.items[0])[:300])
        if not (isinstance(new, Ref) and isinstance(s.heap.get(new.addr), ObjCell) and isinstance(r.items[1], (Ref, Conc))):
            raise Unsupported("the section written is not a new object")
        got = s.heap[new.addr].attrs
        eng.oblige_bool(f"{tag}: the title is the header's, the content empty", eng.same(s, got["title"], title) and eng.same(s, got["content"], Conc("")), str(got)[:300])
        eng.oblige_bool(f"{tag}: the section written is the one returned", _is(new, r.items[1]), f"{new} {r.items[1]}"[:300])
    eng.oblige_bool("_add_section: reachable", n > 0, kind="vacuity")


def u_generate(eng, fn=None, sizes=range(7)):
    """one step of generate from any reachable state. The levels of the current section and its parents increase
    strictly within 1-6 (invariant), so there are at most six of them and every length is covered. A header of level L
    pops exactly those of level >= L; what remains are its parents, and the last of them is the nearest preceding header of
    lower level (by the second invariant: every header is followed by an open one of no higher level, or is open). Other blocks add their converted text to the current section, once, and keep the state."""
    import skops.card._parser as pp, skops.card._model_card as mc
    import itertools as it
    body, live, init, iterated, after = loop_body(fn or pp.PandocParser.generate)
    roles = {}
    for v, e in init.items():
        role = {"None": "section", "[]": "trace", "list()": "trace"}.get(e, "card" if e.startswith("Card(") else None)
        if role is None or role in roles:
            raise Unsupported(f"variable {v} = {e}")
        roles[role] = v
    if set(roles) != {"section", "trace", "card"}:
        raise Unsupported(f"variables {init}")
    eng.oblige_bool("generate: the blocks of the document are visited in order", iterated.replace("'", '"') == 'json.loads(self.source)["blocks"]', iterated)
    eng.oblige_bool("generate: starts with an empty card without a template", re.sub(r"\s", "", init[roles["card"]]) in ("Card(None,template=None)", "Card(model=None,template=None)"), init[roles["card"]])
    eng.oblige_bool("generate: the card is returned", after == [f"return {roles['card']}"], str(after))
    eng.unroll_while = 8
    for n in sizes:
        for kind in ("Header", "Para"):
            st = init_state(eng)
            lv = [z3.Int(f"level{i}") for i in range(n)]
            L = z3.Int("L")
            for i, x in enumerate(lv):
                st.assume(x >= 1, x <= 6)
                if i:
                    st.assume(lv[i - 1] < x)
            st.assume(L >= 1, L <= 6)
            names = [SStr(z3.String(f"name{i}")) for i in range(n)]
            trace = eng.alloc(st, ListCell((Known(tuple(Tup((SInt(l), nm)) for l, nm in zip(lv, names))),) if n else ()))
            card = eng.alloc(st, ObjCell(mc.Card, {}))
            cur = eng.alloc(st, ObjCell(mc.Section, {"title": SStr(z3.String("title")), "content": SStr(z3.String("content"))})) if n else Conc(None)
            new = eng.alloc(st, ObjCell(mc.Section, {"title": SStr(z3.String("newtitle")), "content": Conc("")}))
            c = Tup((SInt(L), Conc(None), eng.sym("inlines", "json", st))) if kind == "Header" else eng.sym("inlines", "json", st)
            item = eng.alloc(st, DictCell((("k", Conc("t"), Conc(kind)), ("k", Conc("c"), c))))
            text = z3.String("converted")
            newname = SStr(z3.String("newname"))

            def bind(fn, a, k):
                import inspect
                b = inspect.signature(fn).bind(*a, **k)
                return b.arguments

            def post_(e, s, a, k):
                x = bind(pp.PandocParser._post_process, a, k)["res"]
                yield s, SStr(V.s(e.ufV("post_process", e.reify(s, x))))

            def add_section(e, s, a, k):
                b = bind(pp.PandocParser._add_section, a, k)
                s = s.fork()
                s.ghost = {**s.ghost, "calls": s.ghost.get("calls", ()) + (("section", b),)}
                yield s, Tup((newname, new))

            def add_content(e, s, a, k):
                b = bind(pp.PandocParser._add_content, a, k)
                s = s.fork()
                s.ghost = {**s.ghost, "calls": s.ghost.get("calls", ()) + (("content", b),)}
                yield s, Conc(None)

            def conv(e, s, a, k):
                from skops.card import _markup as mm
                x = list(bind(mm.Markdown.__call__, a, k).values())[1]
                if not _is(x, item):
                    raise Unsupported("something else than the block is converted")
                yield s, SStr(text)
            for nm, h in (("_post_process", post_), ("_add_section", add_section), ("_add_content", add_content)):
                eng.contracts[getattr(pp.PandocParser, nm)] = h
            from skops.card import _markup as mm
            eng.contracts[mm.Markdown.__call__] = conv
            m = eng.alloc(st, ObjCell(mm.Markdown, {}))
            ps = eng.alloc(st, ObjCell(pp.PandocParser, {"mapping": m}))
            val = {"section": cur, "trace": trace, "card": card}
            inv = {v: k for k, v in roles.items()}
            pos = 0
            cnt = 0
            for s, r in eng.call(st.fork(), Closure(body, 0, pp.PandocParser.generate.__globals__, (), {}, None, "generate_step"), [ps, item] + [val[inv[v]] for v in live], {}):
                if not eng.feasible(s):
                    continue
                cnt += 1
                tag = f"generate[{kind}, {n} parents]#{cnt}"
                if isinstance(r, Raise):
                    eng.oblige_bool(f"{tag}: returns", False, str(r))
                    continue
                out = {inv[v]: x for v, x in zip(live, r.items)}
                calls = s.ghost.get("calls", ())
                tr = _known(eng, s, out["trace"])
                if tr is None or not all(isinstance(x, Tup) and [type(y) for y in x.items] == [SInt, SStr] for x in tr):
                    raise Unsupported("the trace is not a list of known length of pairs (level, name)")
                want_text = SStr(V.s(eng.ufV("post_process", eng.reify(s, SStr(text)))))
                if kind == "Para":
                    ok = len(calls) == 1 and calls[0][0] == "content" and eng.same(s, calls[0][1]["content"], want_text) and _is(calls[0][1]["section"], cur)
                    eng.oblige_bool(f"{tag}: its text is added to the current section, once", ok, str(calls)[:300])
                    same = len(tr) == n and all(eng.same(s, a, b) for a, b in zip(tr, [Tup((SInt(l), nm)) for l, nm in zip(lv, names)]))
                    eng.oblige_bool(f"{tag}: the current section and its parents stay", same and _is(out["section"], cur) and _is(out["card"], card), str(tr)[:300])
                    continue
                keep = len(tr) - 1
                # exactly the parents of lower level are kept
                ok = 0 <= keep <= n and eng.prover.valid(list(s.pc), z3.And([x < L for x in lv[:keep]] + [x >= L for x in lv[keep:]])) == "valid"
                ok = ok and all(eng.same(s, a, b) for a, b in zip(tr, [Tup((SInt(l), nm)) for l, nm in zip(lv, names)][:keep]))
                eng.oblige_bool(f"{tag}: the parents are the open headers of lower level", ok, str(tr)[:300])
                # ghost: idx[i] is the place of the i-th open header among the m headers so far, lev their levels. Invariant: every
                # header so far is followed by (or is) an open one of no higher level. j stands for any header.
                lev, idx, j, m_ = z3.Function("lev", z3.IntSort(), z3.IntSort()), [z3.Int(f"idx{i}") for i in range(n)], z3.Int("j"), z3.Int("m")
                inv_ = [m_ >= n, *(lev(x) == l for x, l in zip(idx, lv)), *(z3.And(x >= 0, x < m_) for x in idx), *(a < b for a, b in zip(idx, idx[1:]))]
                hyp = list(s.pc) + inv_ + [z3.Implies(z3.And(j >= 0, j < m_), z3.Or([z3.And(x >= j, l <= lev(j)) for x, l in zip(idx, lv)] or [z3.BoolVal(False)])), lev(m_) == L]
                if 0 <= keep <= n:
                    nearest = z3.Implies(z3.And(j >= 0, j < m_, lev(j) < L), j <= idx[keep - 1] if keep else z3.BoolVal(False))
                    nearest = z3.And(nearest, *([lev(idx[keep - 1]) < L, idx[keep - 1] < m_] if keep else []))
                    eng.oblige_bool(f"{tag}: the parent is the nearest header before it of lower level", eng.prover.valid(hyp, nearest) == "valid")
                    open_ = list(zip(idx[:keep], lv[:keep])) + [(m_, L)]
                    again = z3.Implies(z3.And(j >= 0, j < m_ + 1), z3.Or([z3.And(x >= j, l <= lev(j)) for x, l in open_]))
                    eng.oblige_bool(f"{tag}: every header is followed by an open one of no higher level", eng.prover.valid(hyp, again) == "valid")
                eng.oblige_bool(f"{tag}: the header becomes the last open one", keep >= 0 and eng.same(s, tr[-1], Tup((SInt(L), newname))), str(tr)[:300])
                eng.oblige_bool(f"{tag}: the levels stay increasing", keep >= 0 and all(eng.prover.valid(list(s.pc), x < L) == "valid" for x in lv[:keep]))
                pn = _known(eng, s, calls[0][1].get("parent_names")) if len(calls) == 1 and calls[0][0] == "section" else None
                ok = pn is not None and len(pn) == keep and all(eng.same(s, a, b) for a, b in zip(pn, names)) and eng.same(s, calls[0][1]["section_name"], want_text) and _is(calls[0][1]["card"], card)
                eng.oblige_bool(f"{tag}: one section of its title is added below them", ok, str(calls)[:400])
                eng.oblige_bool(f"{tag}: it is the current section", _is(out["section"], new) and _is(out["card"], card), str(out)[:200])
            eng.oblige_bool(f"generate[{kind}, {n} parents]: reachable", cnt > 0, kind="vacuity")


def _is(a, b):
    if isinstance(a, Conc) or isinstance(b, Conc):
        return isinstance(a, Conc) and isinstance(b, Conc) and a.v is b.v
    return getattr(a, "addr", None) == getattr(b, "addr", 0)


def _known(eng, s, v):
    """items of a list or tuple of known length"""
    if v is None:
        return None
    if isinstance(v, Tup):
        return list(v.items)
    c = s.heap.get(getattr(v, "addr", None)) if hasattr(s.heap, "get") else None
    if not isinstance(c, ListCell):
        return None
    out = []
    for g in eng.norm_segs(s, c.segs):
        if not isinstance(g, Known):
            return None
        out += list(g.vals)
    return out


def prove(P):
    from skops.card import _markup as mm
    P.unit("Markdown dispatch table", "Markdown.__call__", u_dispatch)
    for n, f in sorted(vars(mm.Markdown).items()):
        fn = f.__func__ if isinstance(f, staticmethod) else f
        if n.startswith("_") and not n.startswith("__") and callable(fn):
            args = fn.__code__.co_varnames[:fn.__code__.co_argcount + fn.__code__.co_kwonlyargcount] if hasattr(fn, "__code__") else ()
            if len([a for a in args if a != "self"]) == 1 and n in {getattr(g, "__name__", None) for g in mm.Markdown().mapping.values()}:
                P.unit(f"Markdown.{n} frame", f"Markdown.{n}", u_frame(n))
    for n, f in static_helpers(mm):
        P.unit(f"Markdown.{n} frame", f"Markdown.{n}", u_helper_frame(f))
    P.unit("PandocParser._add_content == spec", "PandocParser._add_content", u_add_content)
    P.unit("PandocParser._add_section", "PandocParser._add_section", u_add_section)
    P.unit("PandocParser.generate step", "PandocParser.generate", u_generate)


def wrong_add_section(self, section_name, card, parent_names):
    sections = card._select(parent_names)
    sections[section_name] = _new_section(title=section_name, content="")
    return section_name, sections[section_name]


def wrong_generate(self):
    section = None
    section_trace = []
    card = Card(None, template=None)
    for item in json.loads(self.source)["blocks"]:
        if item["t"] == "Header":
            content, level = self._parse_header(item)
            res = self._post_process(content)
            while section_trace and section_trace[-1][0] > level:
                section_trace.pop()
            name, section = self._add_section(section_name=res, card=card, parent_names=[name for _, name in section_trace])
            section_trace.append((level, name))
        else:
            res = self._post_process(self.mapping(item))
            self._add_content(res, section=section)
    return card


def guards(P):
    from skops.card import _model_card as mc
    globals()["_new_section"] = mc.Section
    P.unit("guard: a section of the same name is replaced", "PandocParser._add_section", lambda eng: u_add_section(eng, wrong_add_section))
    P.unit("guard: siblings are nested", "PandocParser.generate", lambda eng: u_generate(eng, wrong_generate, (1, 2)))


# ------------------------------------------------------------------ bounded
class Gen:
    """pandoc JSON elements whose words are unique tokens; ``toks`` of an element in reading order"""
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def tok(self):
        self.n += 1
        return f"w{self.n}x"

    def el(self, t, c=None):
        return {"t": t, "c": c} if c is not None else {"t": t}

    def inline(self, depth=2):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.45:
            return self.el("Str", self.tok() + rng.choice(["", "", "é", "#", "*", "日", "<", "/", "\\", "-", "☒"]))
        if r < 0.70:
            return self.el(rng.choice(["Strong", "Emph", "Strikeout"]), self.inlines(depth - 1))
        if r < 0.76:
            return self.el("Code", [["", [], []], self.tok()])
        if r < 0.82:
            return self.el("Quoted", [{"t": rng.choice(["DoubleQuote", "SingleQuote"])}, self.inlines(depth - 1)])
        if r < 0.88:
            return self.el("Link", [["", [], []], self.inlines(depth - 1), [f"http://{self.tok()}", ""]])
        if r < 0.92:
            return self.el("RawInline", ["html", f"<b>{self.tok()}</b>"])
        if r < 0.96:
            return self.el("Image", [["", [], []], self.inlines(0), [f"{self.tok()}.png", "fig:"]])
        return self.el("Str", self.tok())

    def inlines(self, depth=2, breaks=True):
        out = []
        for i in range(self.rng.randint(1, 4)):
            if i:
                out.append(self.el(self.rng.choice(["Space", "Space", "Space", "SoftBreak", "LineBreak"] if breaks else ["Space"])))
            out.append(self.inline(depth))
        return out

    def cell_inlines(self):
        out = []
        for i in range(self.rng.randint(1, 2)):
            if i:
                out.append(self.el("Space"))
            out.append(self.el("Str", self.tok()) if self.rng.random() < 0.7 else self.el("Strong", [self.el("Str", self.tok())]))
        return out

    def cell(self):
        r = self.rng.random()
        return [] if r < 0.12 else [self.el("Plain", self.cell_inlines())] + ([self.el("Para", self.cell_inlines())] if r > 0.94 else [])

    def table(self, new):
        rng = self.rng
        ncol = rng.randint(1, 3)
        row = lambda: [self.cell() for _ in range(ncol)]
        head = row() if rng.random() < 0.8 else [[] for _ in range(ncol)]
        body = [row() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if not new:
            return self.el("Table", [[], [{"t": "AlignDefault"}] * ncol, [0] * ncol, head, body]), head, body
        a = ["", [], []]
        spans = rng.random() < 0.4

        def mks(rows):
            """rows of one part of the table; of the cells covered by another one only their empty positions remain in rows"""
            size = {}
            for _ in range(rng.randint(1, 3) if spans and rows else 0):
                i, j = rng.randrange(len(rows)), rng.randrange(ncol)
                h, w = rng.randint(1, len(rows) - i), rng.randint(1, ncol - j)
                area = {(y, x) for y in range(i, i + h) for x in range(j, j + w)}
                if not any(area & v[0] for v in size.values()):
                    size[i, j] = area, h, w
            gone = {c for k, v in size.items() for c in v[0] if c != k}
            for y, x in gone:
                rows[y][x] = []
            return [[a, [[a, {"t": "AlignDefault"}, *(size[y, x][1:] if (y, x) in size else (1, 1)), c] for x, c in enumerate(r) if (y, x) not in gone]] for y, r in enumerate(rows)]
        heads = bool(any(head))
        extra = [row() for _ in range(rng.choice([0, 0, 0, 1]))] if heads else []
        inter = [row() for _ in range(rng.choice([0, 0, 0, 1]))]
        k = rng.randint(0, len(body)) if rng.random() < 0.3 else len(body)
        foot = [row() for _ in range(rng.choice([0, 0, 0, 1]))]
        bodies = [[a, 0, mks(inter), mks(body[:k])]]
        if k < len(body):
            bodies.append([a, 0, [], mks(body[k:])])
        t = self.el("Table", [a, [None, []], [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]] * ncol,
                              [a, mks([head] + extra if heads else [])], bodies, [a, mks(foot)]])
        return t, head, extra + inter + body + foot

    def block(self, depth=2):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < 0.3:
            return self.el("Para", self.inlines())
        if r < 0.36:
            return self.el("CodeBlock", [["", rng.choice([[], ["python"]]), []], "\n".join(self.tok() for _ in range(rng.randint(1, 3)))])
        if r < 0.42:
            return self.el("RawBlock", ["html", f"<p>{self.tok()}</p>"])
        if r < 0.58:
            return self.el("BulletList", [self.item(depth) for _ in range(rng.randint(1, 3))])
        if r < 0.72:
            return self.el("OrderedList", [[rng.choice([1, 1, 3, 0]), {"t": "Decimal"}, {"t": "Period"}], [self.item(depth) for _ in range(rng.randint(1, 3))]])
        if r < 0.80:
            return self.el("BlockQuote", [self.block(depth - 1) for _ in range(rng.randint(1, 2))])
        if r < 0.88:
            return self.el("Div", [["", rng.choice([[], ["c1", "c2"]]), rng.choice([[], [["hidden", ""]], [["k", "v"]]])], [self.block(depth - 1) for _ in range(rng.randint(1, 2))]])
        if r < 0.93:
            return self.el("Figure", [["", [], []], [None, [self.el("Plain", self.inlines(0, False))]],
                                      [self.el("Plain", [self.el("Image", [["", [], []], self.inlines(0, False), [f"{self.tok()}.png", ""]])])]])
        return self.table(rng.random() < 0.5)[0]

    def item(self, depth):
        out = [self.el("Plain", self.inlines(1))]
        while self.rng.random() < 0.35:
            out.append(self.block(depth - 1))
        return out

    def header(self, level, title=None):
        """(element, expected title) - the title is plain words"""
        rng = self.rng
        words = title if title is not None else [self.title_word() for _ in range(rng.randint(1, 3))]
        cs = []
        for i, w in enumerate(words):
            if i:
                cs.append(self.el("Space"))
            cs.append(self.el("Str", w))
        txt = " ".join(words)
        if title is None and rng.random() < 0.15:
            w = self.tok()
            k, (pre, post) = rng.choice([("Code", ("`", "`")), ("Strong", ("**", "**")), ("Emph", ("_", "_")), ("Link", ("[", "](u)"))])
            cs += [self.el("Space"), {"Code": lambda: self.el("Code", [["", [], []], w]), "Link": lambda: self.el("Link", [["", [], []], [self.el("Str", w)], ["u", ""]])}.get(k, lambda: self.el(k, [self.el("Str", w)]))()]
            txt += " " + pre + w + post
        return self.el("Header", [level, ["id", [], []], cs]), txt

    def title_word(self):
        return self.rng.choice(["Input/Output", "a/b/c", "/lead", "trail/", "/", "A", "A", "B", "Überschrift", "x", "(2)", "Model", "1.", "C#", "select", "{}", "%s", "C\\D", "a\\/b", "e\\"])


def tokens(x, out):
    """unique words of an element in reading order (captions of figures are repeated by pandoc)"""
    if isinstance(x, dict) and x.get("t") == "Figure":
        tokens(x["c"][2], out)
    elif isinstance(x, dict) and x.get("t") == "Table":
        tokens(x["c"][3:], out)
    elif isinstance(x, dict):
        tokens(x.get("c"), out)
    elif isinstance(x, list):
        for y in x:
            tokens(y, out)
    elif isinstance(x, str):
        out += re.findall(r"w\d+x", x)
    return out


def post(t):
    return t.replace("\xa0", " ").replace("- ☒", "- [x]").replace("- ☐", "- [ ]")


def ref_parse(blocks):
    """[(title, [blocks], children)] nested by the nearest preceding header of lower level"""
    root, stack = [], []
    for b, title in blocks:
        if title is None:
            stack[-1][1][1].append(b)
            continue
        level = b["c"][0]
        node = (title, [], [])
        par = None
        for lv, n in reversed(stack):
            if lv < level:
                par = n
                break
        stack.append((level, node))
        (root if par is None else par[2]).append(node)
    return root


def md(b):
    from skops.card._markup import Markdown
    return Markdown()(b)


def ref_dump(nodes, conv):
    return [(t, [post(conv(b)) for b in bs], ref_dump(ch, conv)) for t, bs, ch in nodes]


def sec_dump(d):
    return [(s.title, s.content, sec_dump(s.subsections)) for s in d.values()]


def outline(nodes, depth=1):
    out = []
    for t, bs, ch in nodes:
        out.append((depth, t))
        out += outline(ch, depth + 1)
    return out


def same_title(t, t2):
    return t2 == t or t2 == t.replace("\\", "\\\\")


def same_tree(ref, got):
    if len(ref) != len(got):
        return False
    for (t, bs, ch), (t2, c2, ch2) in zip(ref, got):
        want = "\n\n".join(bs)
        if not same_title(t, t2) or (c2 or "").strip() != want.strip() or not same_tree(ch, ch2):
            return False
    return True


def parse(blocks):
    from skops.card._parser import PandocParser
    return PandocParser(json.dumps({"pandoc-api-version": [1, 23], "meta": {}, "blocks": [b for b, _ in blocks]})).generate()


def check_doc(B, blocks, group):
    rep = {"blocks": [b for b, _ in blocks]}
    card = parse(blocks)
    ref = ref_parse(blocks)
    if hasattr(card, "_data"):
        got = sec_dump(card._data)
        want = ref_dump(ref, md)
        B.check(same_tree(want, got), group + "-tree", lambda: f"sections {got} instead of {want}", rep)
    text = card.render()
    # rendering has the outline of the document, each word once and in order
    heads = [(len(m.group(1)), m.group(2)) for m in re.finditer(r"^(#+) (.*)$", text, re.M)]
    B.check(len(heads) == len(outline(ref)) and all(a[0] == b[0] and same_title(b[1], a[1]) for a, b in zip(heads, outline(ref))), group + "-outline", lambda: f"rendered outline {heads} instead of {outline(ref)}", rep)
    toks = []
    for b, t in blocks:
        tokens(b, toks)
    seen = re.findall(r"w\d+x", text)
    B.check(seen == toks, group + "-content", lambda: f"words {toks} rendered as {seen}", rep)
    toc = card.get_toc()
    want = "\n".join("  " * (d - 1) + "- " + t for d, t in outline(ref))
    B.check(toc in (want, want.replace("\\", "\\\\")), group + "-toc", lambda: f"toc {toc!r} instead of {want!r}", rep)
    return card


def md_rows(text):
    lines = [l for l in text.split("\n") if l.startswith("|")]
    rows = [[c.strip(" ") for c in l[1:-1].split("|")] for l in lines]
    return rows[0], rows[2:]


def bounded(B):
    from skops.card._markup import Markdown
    from contracts.card_common import esc, expressible
    rng = B.rng
    B.rule("documents: all header-level sequences over levels 1-4 up to length 5 (6 thorough) with a block after each header; titles all equal / distinct with slashes")
    L = 6 if B.thorough else 5
    for n in range(1, L + 1):
        for levels in itertools.product((1, 2, 3, 4) if n <= 4 or B.thorough else (1, 2, 4), repeat=n):
            for mode in ("distinct", "equal"):
                if mode == "equal" and n > 4:
                    continue
                g = Gen(rng)
                blocks = []
                for i, l in enumerate(levels):
                    blocks.append(g.header(l, [f"h/{i}"] if mode == "distinct" else ["same"]))
                    blocks.append((g.el("Para", [g.el("Str", g.tok())]), None))
                check_doc(B, blocks, "levels")
                B.case("header levels", (levels, mode), levels)
    B.exhaustive.append(f"header levels up to length {L}")
    B.rule("repeated titles that look like numbered ones: every sequence of up to 4 of them on one level")
    for n in range(2, 5):
        for titles in itertools.product(("A", "A (1)", "A (2)", "A (3)"), repeat=n):
            g = Gen(rng)
            blocks = []
            for t in titles:
                blocks.append(g.header(1, [t]))
                blocks.append((g.el("Para", [g.el("Str", g.tok())]), None))
            check_doc(B, blocks, "repeated titles")
            B.case("repeated titles", titles, titles)
    B.rule("deep outlines: every rising chain of levels within 1-6 of length at least 4, followed by any two levels of 1-6")
    for n in (4, 5, 6):
        for chain in itertools.combinations(range(1, 7), n):
            for tail in itertools.product(range(1, 7), repeat=2):
                g = Gen(rng)
                blocks = []
                for i, l in enumerate(chain + tail):
                    blocks.append(g.header(l, [f"h{i}"]))
                    blocks.append((g.el("Para", [g.el("Str", g.tok())]), None))
                check_doc(B, blocks, "levels")
                B.case("header levels", (chain, tail), chain + tail)
    B.rule("random pandoc trees: nested inlines, lists, quotes, divs, figures, raw html, old and new tables, headers with slashes, repeated titles, skipped levels, up to level 6")
    for i in range(B.n(400, 6000)):
        if B.time_left() < 20:
            break
        g = Gen(rng)
        blocks = [g.header(rng.randint(1, 6))]
        for _ in range(rng.randint(1, 10)):
            if rng.random() < 0.35:
                blocks.append(g.header(rng.randint(1, 6)))
            else:
                blocks.append((g.block(rng.randint(0, 3)), None))
                if rng.random() < 0.15:
                    # the same block again, possibly after another one
                    if rng.random() < 0.4:
                        blocks.append((g.block(0), None))
                        blocks.append(blocks[-2])
                    else:
                        blocks.append(blocks[-1])
        card = check_doc(B, blocks, "doc")
        # sections are reachable through their escaped titles where those are unique
        def walk(nodes, path):
            names = [t for t, _, _ in nodes]
            for t, bs, ch in nodes:
                if names.count(t) == 1 and expressible(t) and "\\" not in t:
                    p = path + [esc(t)]
                    try:
                        ok = card.select("/".join(p)).title == t
                    except Exception as ex:
                        ok = False
                    B.check(ok, "select", lambda: f"section {p} is not found", {"blocks": [b for b, _ in blocks]})
                    walk(ch, p)
        walk(ref_parse(blocks), [])
        B.case("documents", json.dumps([b for b, _ in blocks])[:4000], outline(ref_parse(blocks)))
    B.rule("conversion histories: every element converted by one instance in random order, with failing elements in between, equals its conversion by a fresh instance; the element is not modified")
    BAD = [{"t": "Unknown", "c": []}, {"t": "Image", "c": [["", [], []], [], ["x", "fig:"]]}, {"t": "Quoted", "c": [{"t": "Triple"}, []]}, {"t": "Math"}]
    for i in range(B.n(250, 4000)):
        if B.time_left() < 10:
            break
        g = Gen(rng)
        els = [g.block(rng.randint(1, 3)) if rng.random() < 0.8 else g.inline(2) for _ in range(rng.randint(2, 6))]
        fresh = [md(json.loads(json.dumps(e))) for e in els]
        m = Markdown()
        hist = []
        for _ in range(2 * len(els)):
            if rng.random() < 0.3:
                bad = rng.choice(BAD)
                for _ in range(rng.randint(0, 3)):
                    w = rng.choice(["BulletList", "OrderedList", "Div", "BlockQuote", "Strong"])
                    bad = {"BulletList": lambda: {"t": w, "c": [[g.el("Plain", [g.el("Str", "a")]), bad]]}, "OrderedList": lambda: {"t": w, "c": [[1, {"t": "Decimal"}, {"t": "Period"}], [[bad]]]},
                           "Div": lambda: {"t": w, "c": [["", [], []], [bad]]}, "BlockQuote": lambda: {"t": w, "c": [bad]}, "Strong": lambda: {"t": w, "c": [bad]}}[w]()
                hist.append(("failing", bad))
                try:
                    m(bad)
                    B.check(False, "unsupported-accepted", "an unsupported element was converted", {"element": bad})
                except Exception:
                    pass
                continue
            j = rng.randrange(len(els))
            copy_ = json.dumps(els[j])
            hist.append(("convert", els[j]))
            try:
                out = m(els[j])
            except Exception as ex:
                out = ("exc", repr(ex))
            B.check(out == fresh[j], "history", lambda: f"conversion after history gives {out!r} instead of {fresh[j]!r}", {"history": hist})
            B.check(json.dumps(els[j]) == copy_, "mutated", "conversion modified its input", {"history": hist})
            B.check(re.findall(r"w\d+x", str(out)) == tokens(els[j], []), "words", lambda: f"words {tokens(els[j], [])} converted to {out!r}", {"element": els[j]})
        B.case("histories", json.dumps(hist)[:3000], hist[:1])
    B.rule("tables in old and new layout (there also cells that span rows and columns): header and rows read back from the markdown")
    for i in range(B.n(300, 3000)):
        if B.time_left() < 5:
            break
        g = Gen(rng)
        t, head, body = g.table(rng.random() < 0.5)
        conv = lambda c: "".join(md(p) for p in c)
        text = md(t)
        rows = md_rows(text)
        want = ([conv(c) for c in head], [[conv(c) for c in r] for r in body])
        B.check(rows == want, "table", lambda: f"table {want} rendered as {text!r}", {"table": t})
        B.case("tables", json.dumps(t)[:2000], text)
    B.rule("nested lists: the markdown is parsed back (CommonMark indentation rules) into the same items, nesting and numbers, whatever was converted before")
    shared = Markdown()
    for i in range(B.n(300, 3000)):
        if B.time_left() < 5:
            break
        g = Gen(rng)
        t, want = rand_list(g, rng.randint(1, 4))
        for m in (Markdown(), shared):
            text = m(t)
            got = read_list(text)
            B.check(got == want, "list", lambda: f"list {want} rendered as {text!r}, read back as {got}", {"element": t})
        B.case("lists", json.dumps(t)[:2000], text)
    B.rule("inline elements: text within the delimiters of its kind, link and image targets kept")
    for i in range(B.n(100, 1000)):
        g = Gen(rng)
        t1, t2, u = g.tok(), g.tok(), g.tok() + "?a=b_c"
        txt = [g.el("Str", t1), g.el("Space"), g.el("Str", t2)]
        a = ["", [], []]
        both = t1 + " " + t2
        for el, pat in ((g.el("Strong", txt), r"(\*\*|__)" + both + r"\1"), (g.el("Emph", txt), r"([*_])" + both + r"\1"), (g.el("Strikeout", txt), "~~" + both + "~~"),
                        (g.el("Code", [a, both]), "(`+) ?" + both + r" ?\1"), (g.el("Link", [a, txt, [u, ""]]), r"\[" + both + r"\]\(" + re.escape(u) + r"\)"),
                        (g.el("Image", [a, txt, [u, "fig:"]]), r"!\[" + both + r"\]\(" + re.escape(u) + r"\)"), (g.el("RawInline", ["html", f"<i>{both}</i>"]), f"<i>{both}</i>"),
                        (g.el("Quoted", [{"t": "DoubleQuote"}, txt]), '"' + both + '"'), (g.el("Quoted", [{"t": "SingleQuote"}, txt]), "'" + both + "'"),
                        (g.el("CodeBlock", [["", ["python"], []], t1 + "\n  " + t2]), "```python\n" + t1 + "\n  " + t2 + "\n```"),
                        (g.el("Div", [["i1", ["c1", "c2"], [["k", "v"], ["hidden", ""]]], [g.el("Para", txt)]]), '<div id="i1" class="c1 c2" k="v" hidden>\\s*' + both + r"\s*</div>"),
                        (g.el("BlockQuote", [g.el("Para", [g.el("Str", t1), g.el("SoftBreak"), g.el("Str", t2)])]), "> ?" + t1 + "\n> ?" + t2)):
            out = md(el)
            B.check(re.fullmatch(pat, out) is not None, "inline", lambda: f"{el} rendered as {out!r}", {"element": el})
        ws = [g.tok() for _ in range(6)]
        st = lambda w: g.el("Str", w)
        para = lambda *w: g.el("Para", [x for i, y in enumerate(w) for x in ([g.el("SoftBreak")] if i else []) + [st(y)]])
        back = rng.choice(["a\\\\b\\\\c", "\\\\\\\\", "\\\\x\\\\\\\\y\\\\"]).replace("\\\\", "\\")
        B.check(md(st(back)) == back.replace("\\", "\\\\"), "backslash", lambda: f"{back!r} rendered as {md(st(back))!r}", {"element": st(back)})
        cls = rng.choice([[], ["python"], ["python", "numberLines"], ["c", "c", "d"]])
        code = rng.choice(["a\n\nb", "  a\n", "", "a\\b", "# x", "\n x"]) + ws[0]
        e = g.el("CodeBlock", [["", cls, []], code])
        out = md(e)
        first, _, rest = out.partition("\n")
        B.check(re.findall(r"\w+", first) == cls and first.startswith("```") and rest == code + "\n```", "code", lambda: f"{e} rendered as {out!r}", {"element": e})
        kvs = rng.choice([[], [["hidden", ""]], [["k", "v"], ["hidden", ""]], [["data-a", "data-a"]], [["k", "a b"], ["k2", "0"], ["K", "v"]]])
        ident, dcls = rng.choice(["", "i1", "0"]), rng.choice([[], ["c1"], ["c1", "c2"], ["c1", "c1"]])
        e = g.el("Div", [[ident, dcls, kvs], [para(ws[0]), para(ws[1])]])
        out = md(e)
        want = ([("id", ident)] if ident else []) + ([("class", " ".join(dcls))] if dcls else []) + [tuple(x) for x in kvs]
        B.check(div_attrs(out) == sorted(((k.lower(), v) for k, v in want)), "div", lambda: f"{e} rendered as {out!r}", {"element": e})
        # every line of a quotation is quoted
        inner = [para(*ws[:3]), g.el("BulletList", [[g.el("Plain", [st(w)])] for w in ws[3:5]]), g.el("CodeBlock", [["", [], []], "x\ny\n" + ws[5]])]
        e = g.el("BlockQuote", inner[:rng.randint(1, 3)])
        out = md(e)
        B.check(all(l.startswith(">") for l in out.split("\n")), "quote", lambda: f"{e} rendered as {out!r}", {"element": e})
        # lines of an item start in the column of its text
        mk = lambda kind, items: g.el("BulletList", items) if kind else g.el("OrderedList", [[1, {"t": "Decimal"}, {"t": "Period"}], items])
        lines = lambda *w: g.el("Plain", [x for i, y in enumerate(w) for x in ([g.el("SoftBreak")] if i else []) + [st(y)]])
        kinds = [rng.random() < 0.5 for _ in range(3)]
        e = mk(kinds[0], [[lines(ws[0], ws[1]), mk(kinds[1], [[lines(ws[2], ws[3]), mk(kinds[2], [[lines(ws[4], ws[5])]])]])]])
        out = md(e).split("\n")
        cols = [re.search(r"w\d+x", l).start() if re.search(r"w\d+x", l) else -1 for l in out]
        B.check(len(out) == 6 and cols[0] == cols[1] and cols[2] == cols[3] and cols[4] == cols[5] and [w for l in out for w in re.findall(r"w\d+x", l)] == ws, "indent", lambda: f"{e} rendered as {out}", {"element": e})
        B.case("inline", both)


def div_attrs(text):
    """attributes of the first tag, by the HTML parser"""
    from html.parser import HTMLParser
    found = []

    class H(HTMLParser):
        def handle_starttag(self, tag, attrs):
            found.append((tag, sorted((k, v or "") for k, v in attrs)))
    H().feed(text)
    return found[0][1] if found and found[0][0] == "div" else None


def rand_list(g, depth):
    """(element, [(number or None, word, [nested lists])])"""
    rng = g.rng
    ordered, start = rng.random() < 0.45, rng.choice([1, 1, 2, 7, 0])
    items, want = [], []
    for i in range(rng.randint(1, 3)):
        w = g.tok()
        item, subs = [g.el("Plain", [g.el("Str", w)])], []
        if depth > 1 and rng.random() < 0.6:
            e, s = rand_list(g, depth - 1)
            item.append(e)
            subs.append(s)
        items.append(item)
        want.append((start + i if ordered else None, w, subs))
    el = g.el("OrderedList", [[start, {"t": "Decimal"}, {"t": "Period"}], items]) if ordered else g.el("BulletList", items)
    return el, want


def read_list(text):
    """parse nested tight lists: an item belongs to the innermost list whose item content starts at or before its marker"""
    root = []
    stack = [(0, root)]                 # (content column, list that items at this column join)
    for line in text.split("\n"):
        m = re.fullmatch(r"( *)([-*+]|(\d+)[.)])( +)(\S+)", line)
        if m is None:
            return ("not a list item", line)
        col = len(m.group(1))
        while len(stack) > 1 and col < stack[-1][0]:
            stack.pop()
        if col - stack[-1][0] > 3:
            return ("indented code", line)
        lists = stack[-1][1]
        num = int(m.group(3)) if m.group(3) else None
        item = (num, m.group(5), [])
        if len(stack) == 1:
            lists.append(item)
        else:
            if not lists:
                lists.append([])
            lists[-1].append(item)
        stack.append((col + len(m.group(2)) + len(m.group(4)), item[2]))
    return root
