"""C10 Rendering shows exactly the visible tree, in order; save and TOC agree with it."""
import os, pathlib
from contracts.card_common import *

TRUSTED = ["Section.format is a pure function of the section (checked for the three section classes in C14)",
           "file objects: write(x) appends x; open(path, 'w', encoding='utf-8') encodes as UTF-8"]
ASSUMPTIONS = ["section trees are finite and acyclic (structural induction over subsections)",
               "titles are single-line strings"]
EXPLANATION = ("proved for all trees: code == specification for content, card, render, save, TOC walk, TOC text; the headings of both walks are "
               "maps over the same specification node list, so TOC and rendering list the same sections. bounded: random edit histories.")


# ---- specification (executable) -----------------------------------------
def spec_nodes(data, depth):
    for section in data.values():
        if section.visible:
            yield (section, depth)
            if section.subsections and not section.folded:
                yield from spec_nodes(section.subsections, depth + 1)


def spec_content(data, depth=1):
    for section, d in spec_nodes(data, depth):
        yield "#" * d + " " + section.title
        yield section.format()


def spec_toc(data, level=0):
    for section, d in spec_nodes(data, level):
        yield section.title, d


def spec_card_lines(data):
    for line in spec_content(data, 1):
        if line:
            yield "\n" + line
    yield ""


def spec_render(data):
    return "\n".join(spec_card_lines(data))


def spec_get_toc(data):
    return "\n".join(["  " * d + "- " + t for t, d in spec_toc(data, 0)])


# wrong specifications: must be refuted (vacuity guards)
def wrong_nodes(data, depth):
    for section in data.values():
        if section.visible:
            yield (section, depth)
            if section.subsections:
                yield from spec_nodes(section.subsections, depth + 1)


def wrong_content(data, depth=1):
    for section, d in wrong_nodes(data, depth):
        yield "#" * d + " " + section.title
        yield section.format()


def _setup(eng):
    mc = section_schema(eng)
    nodes_ty = ("list", ("tuple", (("inst", "Section"), "int")))
    eng.contracts[spec_nodes] = uf_contract("nodes", [("data", NODEF), ("depth", NODEF)], nodes_ty, empty_lemma)
    return mc


def _rec(eng, spec_map, params, drop_self=True):
    """induction hypothesis: a recursive call returns spec_map over the node list of its argument"""
    def h(e, st, args, kwargs):
        vals = list(args)[1:] if drop_self else list(args)
        d = dict(zip([p for p, _ in params], vals))
        d.update(kwargs)
        for p, dv in params:
            d.setdefault(p, Conc(dv))
        e.event(st, "rec", args=d)
        yield from e.call(st, Conc(spec_map), [d["data"], d[params[1][0]]], {})
    return h


def _body(eng, fn, args, st, kwargs=None):
    return list(eng.call_closure(st.fork(), eng.closure_of(fn), args, kwargs or {}))


def _compare(eng, name, r1, r2):
    n = 0
    for s1, v1 in r1:
        for s2, v2 in r2:
            s = joint(s1, s2)
            if not eng.feasible(s):
                continue
            n += 1
            ok = not s.ghost["_exit_conflict"] and not isinstance(v1, Raise) and not isinstance(v2, Raise) and eng.same(s, v1, v2)
            eng.oblige_bool(f"{name}#p{n}", ok, "" if ok else f"code: {v1 if isinstance(v1, Raise) else show(eng, s, v1)} || spec: {v2 if isinstance(v2, Raise) else show(eng, s, v2)}")
    eng.oblige_bool(f"{name}#reachable", n > 0, kind="vacuity")


def u_content(dest, spec=None):
    def mk(eng):
        mc = _setup(eng)
        import shutil
        f = mc.Card._generate_content
        eng.contracts[f] = _rec(eng, spec_content, [("data", NODEF), ("depth", 1), ("destination_path", None)])
        eng.ext[shutil.copy] = lambda e, st, a, k: iter([(st, Conc(None))])
        st = init_state(eng)
        data, d = eng.sym("data", SECDICT, st), eng.sym("depth", "int", st)
        card = eng.alloc(st, ObjCell(mc.Card, {"_data": data}))
        kw = {"destination_path": Conc(None) if not dest else SVal(z3.Const("dest", V), ("path",))}
        if dest:
            st.assume(z3.Not(V.is_none(z3.Const("dest", V))))
        r1 = _body(eng, f, [card, data, d], st, kw)
        # specification with the node list unfolded once
        r2 = _body_spec_content(eng, data, d, st, spec or spec_content)
        _compare(eng, f"_generate_content{'/copy' if dest else ''}", r1, r2)
    return mk


def _body_spec_content(eng, data, d, st, spec):
    # top-level node list is unfolded (definition of spec_nodes); deeper levels stay symbolic
    h = eng.contracts.pop(spec_nodes)
    first = [True]

    def once(e, s, args, kwargs):
        if first[0]:
            first[0] = False
            yield from e.call_closure(s, e.closure_of(spec_nodes), args, kwargs)
            first[0] = False
        else:
            yield from h(e, s, args, kwargs)
    eng.contracts[spec_nodes] = once
    r = list(eng.call_closure(st.fork(), eng.closure_of(spec), [data, d], {}))
    eng.contracts[spec_nodes] = h
    return r


def u_toc_walk(eng):
    mc = _setup(eng)
    f = mc.Card._iterate_key_section_content
    eng.contracts[f] = _rec(eng, spec_toc, [("data", NODEF), ("level", 0)])
    st = init_state(eng)
    data, d = eng.sym("data", SECDICT, st), eng.sym("level", "int", st)
    card = eng.alloc(st, ObjCell(mc.Card, {"_data": data}))
    r1 = _body(eng, f, [card, data, d], st)
    r2 = _body_spec_content(eng, data, d, st, spec_toc)
    _compare(eng, "_iterate_key_section_content", r1, r2)


def _callers(eng):
    """callers of the two walks see only their contracts"""
    mc = _setup(eng)
    eng.contracts[mc.Card._generate_content] = _rec(eng, spec_content, [("data", NODEF), ("depth", 1), ("destination_path", None)])
    eng.contracts[mc.Card._iterate_key_section_content] = _rec(eng, spec_toc, [("data", NODEF), ("level", 0)])
    st = init_state(eng)
    data = eng.sym("data", SECDICT, st)
    card = eng.alloc(st, ObjCell(mc.Card, {"_data": data}))
    return mc, st, data, card


def u_caller(attr, spec):
    def mk(eng):
        mc, st, data, card = _callers(eng)
        r1 = list(eng.call(st.fork(), Conc(getattr(mc.Card, attr)), [card], {}))
        r2 = list(eng.call(st.fork(), Conc(spec), [data], {}))
        _compare(eng, attr, r1, r2)
    return mk


def u_save(eng):
    from pyvc import fsmodel
    mc, st, data, card = _callers(eng)
    fsmodel.install(eng, st)
    path = SVal(z3.Const("path", V), None)
    for copyf in (False, True):
        s0 = st.fork()
        r1 = list(eng.call(s0, Conc(mc.Card.save), [card, path], {"copy_files": Conc(copyf)}))
        r2 = list(eng.call(st.fork(), Conc(spec_render), [data], {}))
        n = 0
        for s1, v1 in r1:
            for s2, v2 in r2:
                s = joint(s1, s2)
                if not eng.feasible(s):
                    continue
                n += 1
                ops = fsmodel.trace(s1)
                eng.oblige_bool(f"save#{copyf}.{n}.returns", not isinstance(v1, Raise))
                w = fsmodel.final_text(eng, s1, path)
                ok = w is not None and w[0] == "text" and w[2] == "utf-8" and eng.same(s, w[1], v2)
                eng.oblige_bool(f"save#{copyf}.{n}.content", ok, "" if ok else f"file operations {fsmodel.show_trace(eng, s1)}; specification: the file holds exactly render() as utf-8")
        eng.oblige_bool(f"save#{copyf}.reachable", n > 0, kind="vacuity")


def prove(P):
    P.unit("Card._generate_content == spec", "Card._generate_content", u_content(False))
    P.unit("Card._generate_content == spec (copying files)", "Card._generate_content", u_content(True))
    P.unit("Card._iterate_key_section_content == spec", "Card._iterate_key_section_content", u_toc_walk)
    P.unit("Card._generate_card == spec", "Card._generate_card", u_caller("_generate_card", spec_card_lines))
    P.unit("Card.render == spec", "Card.render", u_caller("render", spec_render))
    P.unit("Card.get_toc == spec", "Card.get_toc", u_caller("get_toc", spec_get_toc))
    P.unit("Card.save == spec", "Card.save", u_save)


def guards(P):
    P.unit("guard: content without folding", "Card._generate_content", u_content(False, wrong_content))


# ------------------------------------------------------------------ bounded
CONTENTS = ["", "text", "line 1\nline 2", "ünïcode 日本 😀", "# not a heading?", "| a |\n| - |", "<b>x</b>", "tail \\", "\t", "\xa0"]


def build(rng, nops):
    from skops.card import Card
    card, ref = Card(None, template=None), RefCard()
    hist = []
    for i in range(nops):
        known = ref.paths()
        r = rng.random()
        if r < 0.6 or not known:
            p = rand_path(rng, known)
            c = rng.choice(CONTENTS) + (f" m{i}" if rng.random() < 0.8 else "")
            fo = rng.random() < 0.2
            if rng.random() < 0.15:
                card.add_plot(description=c, folded=fo, **{path_str(rng, p): f"p{i}.png"})
                ref.add(p, c, fo).plot = f"![{p[-1]}](p{i}.png)"
                hist.append(("add_plot", p, c, fo, f"p{i}.png"))
            else:
                card.add(folded=fo, **{path_str(rng, p): c})
                ref.add(p, c, fo)
                hist.append(("add", p, c, fo))
        elif r < 0.72:
            p = list(rng.choice(known))
            card.delete(p)
            ref.delete(p)
            hist.append(("delete", p))
        else:
            p = list(rng.choice(known))
            fl = rng.choice(["visible", "folded", "visible", "folded", "title"])
            val = rng.random() < 0.5 if fl != "title" else rng.choice([f"t{i}", f" t{i}", f"t{i} ", f"t{i}\t", "#"])
            setattr(card.select("/".join(esc(t) for t in p)), fl, val)
            setattr(ref.find(p), fl, val)
            hist.append(("flag", p, fl, val))
    return card, ref, hist


def expected_render(ref):
    lines = []
    for depth, n in ref.headings():
        lines.append("#" * depth + " " + n.title)
        plot = getattr(n, "plot", None)
        if plot is None:
            lines.append(wrap(n.content, n.folded))
        else:
            lines.append((n.content + "\n\n" if n.content else "") + wrap(plot, n.folded))
    return lines


def squeeze(text):
    # \x1f etc. must not be treated as line separators: split on '\n' only
    return [l for l in text.split("\n") if l.strip(" ")]


def check_card(B, card, ref, hist, tag):
    exp = expected_render(ref)
    got = card.render()
    e = squeeze("\n".join(exp))
    g = squeeze(got)
    rep = {"history": hist}
    B.check(g == e, "render", lambda: f"render() shows {g!r}, the visible tree is {e!r}", rep)
    toc = card.get_toc()
    heads = ref.headings()
    want = [(d - 1, n.title) for d, n in heads]
    lines = toc.split("\n") if toc else []
    unit = next((len(l) - len(l.lstrip(" ")) for (d, _), l in zip(want, lines) if d == 1), 2) or 2
    have = [((len(l) - len(l.lstrip(" "))) / unit, l.lstrip(" ")[2:]) if l.lstrip(" ")[:2] in ("- ", "-") else (None, l) for l in lines]
    B.check(have == [(float(d), t) for d, t in want], "toc", lambda: f"get_toc() lists {have!r}, rendered headings are {want!r}", rep)
    p = "card-" + tag + ".md"
    for q in (p, pathlib.Path(p)):
        if os.path.exists(p):
            os.remove(p)
        card.save(q)
        with open(p, "rb") as f:
            b = f.read()
        B.check(b == got.encode("utf-8"), "save", lambda: f"save wrote {b!r}, render() is {got!r}", rep)
    B.check(card.render() == got and card.get_toc() == toc, "stable", "rendering changed the card", rep)


def bounded(B):
    from skops.card import Card
    B.rule("random edit histories (add/delete/flag, <= 25 operations, nested and unicode titles) and random visible/folded assignments; "
           "render/save/get_toc compared with an independent tree model; distinct = distinct histories")
    rng = B.rng
    # all flag assignments of a fixed 3-level tree
    shape = [["A"], ["A", "x"], ["A", "x", "q"], ["A", "y"], ["B"], ["B", "z"]]
    for mask in range(4 ** len(shape) if B.thorough else 1024):
        m = mask if B.thorough else rng.randrange(4 ** len(shape))
        card, ref, hist = Card(None, template=None), RefCard(), []
        for i, p in enumerate(shape):
            c = f"c{i}"
            card.add(**{"/".join(p): c}); ref.add(p, c)
            vis, fo = not (m >> (2 * i)) & 1, bool((m >> (2 * i + 1)) & 1)
            s = card.select("/".join(p)); s.visible, s.folded = vis, fo
            n = ref.find(p); n.visible, n.folded = vis, fo
            hist.append(("add", p, c, "visible", vis, "folded", fo))
        B.case("flags", m, hist)
        check_card(B, card, ref, hist, "f")
    for i in range(B.n(1500, 20000)):
        if B.time_left() < 5:
            break
        card, ref, hist = build(rng, rng.randint(1, 25))
        B.case("histories", repr(hist), hist if i < 3 else None)
        check_card(B, card, ref, hist, "h")
    # what UTF-8 cannot express is not replaced by something else
    for t, c in (("A", "x\ud800y"), ("A\udfff", "x")):
        card = Card(None, template=None)
        card.add(**{t: c})
        got = card.render()
        try:
            card.save("surrogate.md")
        except Exception:
            continue
        B.check(open("surrogate.md", "rb").read() == got.encode("utf-8", "surrogatepass"), "save-surrogate", lambda: f"save wrote {open('surrogate.md', 'rb').read()!r}, render() is {got!r}", {"title": t, "content": c})
    # deep chain
    card, ref = Card(None, template=None), RefCard()
    p = [f"l{i}" for i in range(40)]
    card.add(**{"/".join(p): "deep"}); ref.add(p, "deep")
    check_card(B, card, ref, [("add", p, "deep")], "d")
    # plots and tables inside the tree: content in front of the formatted element, hidden when invisible
    card = Card(None, template=None)
    card.add(**{"A": "intro"})
    card.add_table(description="desc", **{"A/T": {"c": [1, 2]}})
    card.add_plot(description="pd", **{"A/P": "p.png"})
    ren = card.render()
    B.check([l for l in squeeze(ren) if l.startswith("#")] == ["# A", "## T", "## P"], "render-special", lambda: ren, {"card": "A, A/T table, A/P plot"})
    card.select("A/T").visible = False
    ren = card.render()
    B.check("## T" not in ren and "desc" not in ren and "## P" in ren, "render-special", lambda: ren, {"card": "A/T invisible"})
    card.select("A").folded = True
    ren = card.render()
    B.check("## P" not in ren and "p.png" not in ren and "<details>" in ren, "render-special", lambda: ren, {"card": "A folded"})
    B.case("special", "special")
