"""C09 The model card is an ordered section tree with stable addressing."""
import itertools
from contracts.card_common import *

TRUSTED = ["dict: insertion order, overwriting keeps the position (CPython dict)"]
ASSUMPTIONS = ["section dicts form a tree: no dict or section object is reachable under two paths (the public builders only ever store fresh sections)",
               "split_subsection_names is checked by the bounded layer (exhaustive over a small alphabet), its contract used in the proofs is only: a non-empty list of strings determined by the key"]
EXPLANATION = ("proved for all trees, names and values: _select, _add_single, add, select, delete, Section.select perform exactly the reads, writes and "
               "exceptions of the specification (operation traces compared, so nothing else is touched); bounded: path grammar exhaustive to length 6, random operation sequences vs. tree model.")


# ---- executable specification of the tree operations ----------------------
def spec_descend(root, names, create=True):
    here = root
    for name in names:
        if name in here:
            here = here[name].subsections
        elif create:
            fresh = _Section(name, "")
            here[name] = fresh
            here = fresh.subsections
        else:
            raise KeyError(name)
    return here


def spec_add_single(card, key, val, folded=False):
    names = _split(key)
    here = _descend(card, names[:-1])
    title = names[-1]
    new = val if not isinstance(val, str) else _Section(title, val, folded=folded)
    old = here.get(title)
    if old is not None:
        if new.subsections and not (new.subsections == old.subsections):
            raise ValueError(title)
        new.subsections = old.subsections
    here[title] = new
    return new


def spec_add(card, folded=False, **kwargs):
    for key, val in kwargs.items():
        _add_single(card, key, val, folded)
    return card


def spec_select(card, key):
    if key == "":
        raise KeyError(key)
    names = _split(key)
    if names[-1] == "":
        raise KeyError(key)
    return _descend(card, names[:-1], False)[names[-1]]


def spec_delete_str(card, key):
    if key == "":
        raise KeyError(key)
    names = _split(key)
    if names[-1] == "":
        raise KeyError(key)
    del _descend(card, names[:-1], False)[names[-1]]


def spec_delete_list(card, key):
    if not key:
        raise KeyError(key)
    if key[-1] == "":
        raise KeyError(key)
    del _descend(card, key[:-1], False)[key[-1]]


def spec_section_select(section, key):
    names = _split(key)
    if not all(name != "" for name in names):
        raise KeyError(key)
    here = section
    for name in names:
        here = here.subsections[name]
    return here


def wrong_descend(root, names, create=True):
    here = root
    for name in names:
        if name in here:
            here = here[name].subsections
        else:
            fresh = _Section(name, "")
            here[name] = fresh
            here = fresh.subsections
    return here


def wrong_add_single(card, key, val, folded=False):     # loses subsections of an overwritten section
    names = _split(key)
    here = _descend(card, names[:-1])
    new = _Section(names[-1], val, folded=folded)
    here[names[-1]] = new
    return new


# placeholders resolved to the code's own names by _setup
_Section = _split = _descend = _add_single = None


def _setup(eng, st, contracts=("split", "descend")):
    from skops.card import _model_card as mc
    from pyvc import treemodel
    g = globals()
    g["_Section"], g["_split"], g["_descend"], g["_add_single"] = mc.Section, mc.split_subsection_names, mc.Card._select, mc.Card._add_single
    treemodel.install(eng, st, mc.Section)

    def lemma(e, s, used, t):
        s.assume(e.ufV("len", t, res=z3.IntSort()) >= 1)
    eng.contracts[mc.split_subsection_names] = uf_contract("split", [("key", NODEF)], ("list", "str"), lemma)
    if "descend" in contracts:
        def descend(e, s, args, kw):
            a = dict(zip(("self", "subsection_names", "create"), args)); a.update(kw)
            names, create = a["subsection_names"], a.get("create", Conc(True))
            root = s.heap[a["self"].addr].attrs["_data"]
            ver, recent = e.tree_split(e, s)
            if recent:
                raise Unsupported("descend after writes")
            nt = e.reify(s, names)
            loc = e.ufV("tree.descend", ver, root.t, nt)
            miss = e.ufV("tree.missing", ver, root.t, nt, res=z3.BoolSort())
            # empty path: the root itself (first iteration of the loop never starts)
            n = e.ufV("len", nt, res=z3.IntSort())
            s.assume(z3.Implies(n == 0, z3.And(loc == root.t, z3.Not(miss))))
            for s1, c in e.branch(s, e.truth(s, create)):
                if c:
                    e.tree_push(e, s1, Conc("descend"), names)
                    yield s1, SVal(loc, ("sdict",))
                else:
                    for s2, m in e.branch(s1, miss):
                        yield s2, Raise(ExcV(KeyError)) if m else SVal(loc, ("sdict",))
        eng.contracts[mc.Card._select] = descend
    root = SVal(z3.Const("root", V), ("sdict",))
    card = eng.alloc(st, ObjCell(mc.Card, {"_data": root}))
    return mc, root, card


def _cmp(eng, name, r1, r2):
    from pyvc import treemodel
    n = 0
    for s1, v1 in r1:
        for s2, v2 in r2:
            s = joint(s1, s2)
            if not eng.feasible(s):
                continue
            n += 1
            e1, e2 = isinstance(v1, Raise), isinstance(v2, Raise)
            if e1 or e2:
                ok = e1 and e2 and v1.exc.cls is not None and v2.exc.cls is not None and issubclass(v1.exc.cls, v2.exc.cls)
                why = f"code {'raises ' + exc_name(v1.exc) if e1 else 'returns'}, specification {'raises ' + exc_name(v2.exc) if e2 else 'returns'}"
            else:
                ok = eng.same(s, v1, v2)
                why = f"result: code {show(eng, s, v1)}, specification {show(eng, s, v2)}"
            if ok and s.ghost["_exit_conflict"]:
                ok, why = False, "loops leave under different conditions"
            eng.oblige_bool(f"{name}#p{n}.outcome", ok, "" if ok else why)
            t1, t2 = Ref(s1.ghost["tree"]), Ref(s2.ghost["tree"])
            a, b = s1.heap[t1.addr].segs, s2.heap[t2.addr].segs
            ok = eng.same_segs(s, a, b)
            eng.oblige_bool(f"{name}#p{n}.writes", ok, "" if ok else f"writes: code {[show_seg(eng, s1, x, 0) for x in a]} || specification {[show_seg(eng, s2, x, 0) for x in b]}")
    eng.oblige_bool(f"{name}#reachable", n > 0, kind="vacuity")


def _cb(eng, st, fn, args, kwargs=None):
    """run the body of fn (its own contract is for its callers)"""
    return list(eng.call_closure(st.fork(), eng.closure_of(fn), args, kwargs or {}))


def u_select(create, spec=None):
    def mk(eng):
        st = init_state(eng)
        mc, root, card = _setup(eng, st, ("split",))
        names = eng.sym("names", ("list", "str"), st)
        r1 = _cb(eng, st, mc.Card._select, [card, names], {"create": Conc(create)})
        r2 = _cb(eng, st, spec or spec_descend, [root, names], {"create": Conc(create)})
        _cmp(eng, f"_select[create={create}]", r1, r2)
    return mk


def u_add_single(kind, spec=None):
    def mk(eng):
        st = init_state(eng)
        mc, root, card = _setup(eng, st)
        key, folded = eng.sym("key", "str", st), eng.sym("folded", "bool", st)
        def val(s):
            if kind == "str":
                return eng.sym("val", "str", s)
            cls = {"Section": mc.Section, "TableSection": mc.TableSection, "PlotSection": mc.PlotSection}[kind]
            return eng.alloc(s, ObjCell(cls, {"title": eng.sym("v.title", "str", s), "content": eng.sym("v.content", "str", s), "visible": eng.sym("v.vis", "bool", s),
                                              "folded": eng.sym("v.fold", "bool", s), "subsections": SVal(z3.Const("v.subs", V), ("sdict",))}))
        v = val(st)
        r1 = _cb(eng, st, mc.Card._add_single, [card, key, v], {"folded": folded})
        r2 = _cb(eng, st, spec or spec_add_single, [card, key, v], {"folded": folded})
        # the section handed in is updated in place: give each run its own copy
        _cmp(eng, f"_add_single[{kind}]", r1, r2)
    return mk


def u_method(name, fn, spec, args, pre=None):
    def mk(eng):
        st = init_state(eng)
        mc, root, card = _setup(eng, st)
        a = [eng.sym(n, ty, st) for n, ty in args]
        r1 = _cb(eng, st, fn(mc), [card] + a)
        r2 = _cb(eng, st, spec, [card] + a)
        _cmp(eng, name, r1, r2)
    return mk


def u_section_select(eng):
    st = init_state(eng)
    mc, root, card = _setup(eng, st)
    sec = SVal(z3.Const("sec", V), ("sec",))
    key = eng.sym("key", "str", st)
    r1 = _cb(eng, st, mc.Section.select, [sec, key])
    r2 = _cb(eng, st, spec_section_select, [sec, key])
    _cmp(eng, "Section.select", r1, r2)


def u_add(eng):
    st = init_state(eng)
    mc, root, card = _setup(eng, st)

    def add_single(e, s, args, kw):
        a = dict(zip(("self", "key", "val", "folded"), args)); a.update(kw)
        e.tree_push(e, s, Conc("add"), a["key"], a["val"], a.get("folded", Conc(False)))
        yield s, SVal(z3.Const(e.fresh("added"), V), ("inst", "Section"))
    eng.contracts[mc.Card._add_single] = add_single
    items = SVal(z3.Const("kwargs", V), ("dict", "str", None))
    folded = eng.sym("folded", "bool", st)
    kw = {"folded": folded, "**": [("s", eng.items_of(items))]}
    r1 = _cb(eng, st, mc.Card.add, [card], kw)
    r2 = _cb(eng, st, spec_add, [card], kw)
    _cmp(eng, "add", r1, r2)


def prove(P):
    P.unit("Card._select(create) == spec", "Card._select", u_select(True))
    P.unit("Card._select(no create) == spec", "Card._select", u_select(False))
    for k in ("str", "Section", "TableSection", "PlotSection"):
        P.unit(f"Card._add_single({k}) == spec", "Card._add_single", u_add_single(k))
    P.unit("Card.add == spec", "Card.add", u_add)
    P.unit("Card.select == spec", "Card.select", u_method("select", lambda mc: mc.Card.select, spec_select, [("key", "str")]))
    P.unit("Card.delete(str) == spec", "Card.delete", u_method("delete", lambda mc: mc.Card.delete, spec_delete_str, [("key", "str")]))
    P.unit("Card.delete(list) == spec", "Card.delete", u_method("delete", lambda mc: mc.Card.delete, spec_delete_list, [("key", ("list", "str"))]))
    P.unit("Section.select == spec", "Section.select", u_section_select)


def guards(P):
    P.unit("guard: lookup creates", "Card._select", u_select(False, wrong_descend))
    P.unit("guard: overwrite drops subsections", "Card._add_single", u_add_single("str", wrong_add_single))


# ------------------------------------------------------------------ bounded
def spec_split(key):
    parts, cur, i = [], "", 0
    while i < len(key):
        if key.startswith("\\/", i):
            cur += "\\/"
            i += 2
        elif key[i] == "/":
            parts.append(cur)
            cur = ""
            i += 1
        else:
            cur += key[i]
            i += 1
    parts.append(cur)
    return ["/".join(p.strip().split("\\/")) for p in parts]


def _try(f):
    try:
        return ("ok", f())
    except Exception as ex:
        return ("exc", type(ex).__name__)


def _flags(d):
    return [(k, n.visible, _flags(n.subsections if hasattr(n, "subsections") else n.subs)) for k, n in d.items()]


def _ops(B, rng, nops, i):
    from skops.card import Card
    from skops.card._model_card import Section, TableSection, PlotSection
    card, ref, hist = Card(None, template=None), RefCard(), []
    objs = {}
    for j in range(nops):
        known = ref.paths()
        r = rng.random()
        before = card_dump(card)
        if known and rng.random() < 0.1:
            # a section that is hidden stays hidden while others are added, selected or deleted
            p = list(rng.choice(known))
            card.select(path_str(rng, p)).visible = ref.find(p).visible = False
            hist.append(("hide", p))
        rep = {"history": list(hist)}
        if r < 0.5 or not known:
            n = rng.choice([1, 1, 1, 2, 3])
            items = {}
            fo = rng.random() < 0.2
            for _ in range(n):
                p = rand_path(rng, known, 4)
                items[path_str(rng, p)] = (p, rng.choice(["", "c", "multi\nline"]) + f"#{j}")
            hist.append(("add", {k: c for k, (p, c) in items.items()}, fo))
            kind = rng.random()
            if kind < 0.7:
                o = _try(lambda: card.add(folded=fo, **{k: c for k, (p, c) in items.items()}))
                for k, (p, c) in items.items():
                    ref.add(p, c, fo)
            elif kind < 0.8:
                # sections are taken as they are
                hist[-1] = ("add sections", list(items), fo)
                secs = {k: Section(title=p[-1], content=c, folded=fo) for k, (p, c) in items.items()}
                o = _try(lambda: card.add(**secs))
                for k, (p, c) in items.items():
                    ref.add(p, c, fo).kind = ("same", secs[k])
            elif kind < 0.9:
                hist[-1] = ("add_table", list(items), fo)
                o = _try(lambda: card.add_table(description="d%d" % j, folded=fo, **{k: {"x": [j]} for k in items}))
                for k, (p, c) in items.items():
                    ref.add(p, "d%d" % j, fo).kind = ("table", {"x": [j]})
            else:
                hist[-1] = ("add_plot", list(items), fo)
                o = _try(lambda: card.add_plot(description="d%d" % j, folded=fo, **{k: f"p{j}.png" for k in items}))
                for k, (p, c) in items.items():
                    ref.add(p, "d%d" % j, fo).kind = ("plot", f"p{j}.png")
            if not B.check(o[0] == "ok" and o[1] is card, "add", lambda: f"add returned {o}", {"history": hist}):
                return
        elif r < 0.65:
            p = list(rng.choice(known))
            if rng.random() < 0.4:
                p = p + [rand_title(rng)] if rng.random() < 0.5 else p[:-1] + [rand_title(rng)]
            form = rng.choice(["str", "list", "tuple"])
            key = path_str(rng, p) if form == "str" else (list(p) if form == "list" else tuple(p))
            hist.append(("delete", key))
            exists = ref.find(p) is not None
            o = _try(lambda: card.delete(key))
            ref.delete(p)
            B.check(o == (("ok", None) if exists else ("exc", "KeyError")), "delete", lambda: f"delete of {'existing' if exists else 'missing'} {key!r}: {o}", {"history": hist})
        elif r < 0.75:
            # bad names
            base = esc_path(rng.choice(known)) if rng.random() < 0.8 else "zz"
            bad = rng.choice(["", "/", base + "/", "/" + base, base + "//" + base, " ", base + "/ ", "no such/x", base + "/no such", base + "/\t"])
            form = rng.choice(["select", "delete", "deletel", "chain"])
            hist.append((form, bad))
            if form == "select":
                o = _try(lambda: card.select(bad))
            elif form == "delete":
                o = _try(lambda: card.delete(bad))
            elif form == "deletel":
                lst = rng.choice([[], [""], list(rng.choice(known)) + [""], ["", "x"], list(rng.choice(known)) + ["no such", "y"], ["no such"]])
                hist[-1] = (form, lst)
                o = _try(lambda: card.delete(lst))
            else:
                sec = card.select(esc_path(rng.choice(known)))
                sub = rng.choice(["", "/", "no such", " ", "no such/x"])
                hist[-1] = (form, sub)
                o = _try(lambda: sec.select(sub))
            B.check(o == ("exc", "KeyError"), "missing", lambda: f"{hist[-1]}: expected KeyError, got {o}", {"history": hist})
            B.check(card_dump(card) == before, "missing-changes", lambda: f"{hist[-1]} raised but changed the card", {"history": hist})
        else:
            p = list(rng.choice(known))
            cut = rng.randint(1, len(p))
            hist.append(("select", p[:cut], p[cut:]))
            def sel():
                s = card.select(path_str(rng, p[:cut]))
                if p[cut:]:
                    if rng.random() < 0.5:
                        s = s.select(path_str(rng, p[cut:]))
                    else:
                        for t in p[cut:]:
                            s = s.select(path_str(rng, [t]))
                return s
            o = _try(sel)
            n = ref.find(p)
            ok = o[0] == "ok" and (o[1].title, o[1].content, o[1].folded, list(o[1].subsections)) == (n.title, n.content, n.folded, list(n.subs))
            B.check(ok, "select", lambda: f"select {p!r} gives {o}, last added: {(n.title, n.content, n.folded, list(n.subs))}", {"history": hist})
            if ok:
                # what was added there last, not only its text
                k, x = getattr(n, "kind", ("text", None))
                sec = o[1]
                fine = {"text": lambda: type(sec) is Section, "same": lambda: sec is x, "table": lambda: isinstance(sec, TableSection) and dict(sec.table) == x,
                        "plot": lambda: isinstance(sec, PlotSection) and sec.path == x}[k]()
                B.check(fine, "select-kind", lambda: f"select {p!r} gives {sec!r} of {type(sec)}, last added: {k} {x}", {"history": hist})
            o2 = _try(lambda: card.select("/".join(esc(t) for t in p)))
            B.check(o[0] == "ok" and o2[0] == "ok" and o2[1] is o[1], "select-same", "chained and direct select differ", {"history": hist})
        d = card_dump(card)
        vis = _flags(card._data) if hasattr(card, "_data") else None
        want = _flags(ref.subs)
        B.check(vis is None or vis == want, "hidden", lambda: f"after {hist[-1]!r} the hidden sections are {vis!r}, expected {want!r}", {"history": hist})
        if not B.check(d == ref.dump(), "tree", lambda: f"after {hist[-1]!r} the card is {d!r}, expected {ref.dump()!r}", {"history": hist}):
            return
    B.case("histories", repr(hist), hist if i < 2 else None)


def esc_path(p):
    return "/".join(esc(t) for t in p)


def bounded(B):
    from skops.card import _model_card as mc
    B.rule("path grammar: every string over {a,space,/,\\,\\x1f} up to length 6 (7 thorough) compared with an automaton; random operation sequences (add/add_table/add_plot/select/chained select/delete/bad names) compared step by step with a tree model; distinct = distinct keys/histories")
    f = getattr(mc, "split_subsection_names", None)
    if f is not None:
        for L in range(0, 8 if B.thorough else 7):
            for t in itertools.product("a /\\\x1f", repeat=L):
                k = "".join(t)
                o = _try(lambda: f(k))
                w = spec_split(k)
                B.case("paths", k, k if L == 6 and k.count("\\/") == 2 else None)
                if o != ("ok", w):
                    B.fail("split", f"split_subsection_names({k!r}) = {o}, expected {w!r}", {"key": k})
        B.exhaustive.append("all strings over 5 characters up to length " + ("7" if B.thorough else "6"))
    # the same grammar through the public API
    from skops.card import Card
    rng = B.rng
    for i in range(B.n(3000)):
        k = "".join(rng.choice("ab /\\é\t") for _ in range(rng.randint(1, 9)))
        parts = spec_split(k)
        if any(x == "" for x in parts):
            continue
        B.case("api paths", k)
        card = Card(None, template=None)
        card.add(**{k: "content"})
        want = []
        cur = want
        for n, x in enumerate(parts):
            nxt = []
            cur.append((x, x, "content" if n == len(parts) - 1 else "", False, nxt))
            cur = nxt
        d = card_dump(card)
        B.check(d == want, "add-path", lambda: f"add({k!r}) gives {d!r}", {"key": k})
        o = _try(lambda: card.select(k))
        B.check(o[0] == "ok" and o[1].content == "content", "select-path", lambda: f"select({k!r}) -> {o}", {"key": k})
        o = _try(lambda: card.delete(parts if i % 2 else k))
        B.check(o == ("ok", None), "delete-path", lambda: f"delete({k!r}) -> {o}", {"key": k})
        if len(parts) == 1:
            B.check(card_dump(card) == [], "delete-path", "not deleted", {"key": k})
    for i in range(B.n(1500, 20000)):
        if B.time_left() < 5:
            break
        _ops(B, rng, rng.randint(1, 25), i)
    # a plot/table replaced by text and vice versa keeps position and subsections
    card = Card(None, template=None)
    card.add(**{"A": "a", "B": "b", "B/c": "c", "D": "d"})
    card.add_table(**{"B": {"x": [1]}})
    card.add_plot(**{"A": "x.png"})
    B.check([k for k in card._data] == ["A", "B", "D"] and list(card.select("B").subsections) == ["c"], "replace", lambda: card_dump(card), {"ops": "add A,B,B/c,D; add_table B; add_plot A"})
    # an empty part is no name, even when there are sections without a title
    for path in ("A/", "A//b", "A/ /b", "A/ "):
        for q in ("", "/", "/b", " /b", " "):
            card = Card(None, template=None)
            card.add(**{"A": "a", "A/c": "c"})
            if _try(lambda: card.add(**{path: "x"}))[0] != "ok":
                continue
            o = _try(lambda: card.select("A").select(q))
            B.check(o == ("exc", "KeyError"), "empty-part", lambda: f"after add({path!r}), select('A').select({q!r}) gives {o}", {"path": path, "select": q})
            if not q.strip().strip("/"):
                for f in (card.select, card.delete):
                    o = _try(lambda: f("A/" + q))
                    B.check(o == ("exc", "KeyError"), "empty-part", lambda: f"after add({path!r}), {f.__name__}('A/{q}') gives {o}", {"path": path, "select": q})
    # templates are section trees too
    from sklearn.linear_model import LogisticRegression
    c1 = Card(LogisticRegression(), model_diagram=False)
    B.check(c1.select("Model description/Training Procedure").title == "Training Procedure", "template", "default template addressing", {})
