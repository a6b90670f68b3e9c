"""C14 Card content builders put the right content under the right heading."""
import itertools, re
from contracts.card_common import *

TRUSTED = ["PrettyTable renders its columns as a markdown table (replayed in the bounded layer)", "pandas.DataFrame.items yields (name, column)",
           "sklearn get_params / estimator_html_repr"]
ASSUMPTIONS = ["cell text without '|' or surrounding blanks in the bounded layer (markdown tables cannot express them)"]
EXPLANATION = ("proved for all arguments: format methods and builders equal their specifications, builders hand exactly the specified sections, in order, to _add_single "
               "(so several items in one call are the same as one at a time); bounded: rendered tables parsed back, accumulation of metrics, hyper-parameters, alt texts.")


# ---- specification ---------------------------------------------------------
def spec_wrap(text, folded):
    if folded:
        return "<details>\n<summary> Click to expand </summary>\n\n" + text + "\n\n</details>"
    return text


def spec_section_format(section):
    return spec_wrap(section.content, section.folded)


def spec_plot_format(section):
    alt = section.alt_text if section.alt_text else section.path
    body = spec_wrap(f"![{alt}]({section.path})", section.folded)
    return section.content + "\n\n" + body if section.content else body


def spec_table_format(section):
    table = _PrettyTable()
    table.set_style(_MARKDOWN)
    for name, column in section.table.items():
        table.add_column(_br(str(name)), [_br(str(x)) for x in column])
    body = spec_wrap(table.get_string(), section.folded)
    return section.content + "\n\n" + body if section.content else body


def spec_add_plot(card, *, description=None, alt_text=None, folded=False, **kwargs):
    for name, path in kwargs.items():
        heading = _split(name)[-1]
        _add_single(card, name, _PlotSection(heading, description if description else "", alt_text=alt_text if alt_text else heading, path=path, folded=folded))
    return card


def spec_add_table(card, *, description=None, folded=False, **kwargs):
    for name, table in kwargs.items():
        _add_single(card, name, _TableSection(_split(name)[-1], description if description else "", table=table, folded=folded))
    return card


def spec_add_metrics(card, section="Model description/Evaluation Results", description=None, **kwargs):
    card._metrics.update(kwargs)
    if card._metrics:
        table = {"Metric": list(card._metrics.keys()), "Value": list(card._metrics.values())}
    else:
        table = {"Metric": [], "Value": []}
    _add_single(card, section, _TableSection(_split(section)[-1], description if description else "", table=table))
    return card


def spec_add_hyperparams(card, section="Model description/Training Procedure/Hyperparameters", description=None):
    params = _get_model(card).get_params(deep=True)
    table = {"Hyperparameter": list(params.keys()), "Value": list(params.values())}
    _add_single(card, section, _TableSection(_split(section)[-1], description if description else "", table=table, folded=True))
    return card


def wrong_add_plot(card, *, description=None, alt_text=None, folded=False, **kwargs):
    for name, path in kwargs.items():
        heading = _split(name)[0]
        _add_single(card, name, _PlotSection(heading, description if description else "", alt_text=alt_text if alt_text else heading, path=path, folded=folded))
    return card


def wrong_plot_format(section):
    body = spec_wrap(f"![{section.alt_text}]({section.path})", section.folded)
    return section.content + "\n\n" + body if section.content else body


_PrettyTable = _MARKDOWN = _br = _split = _add_single = _PlotSection = _TableSection = _get_model = None
DICT = ("dict", None, None)


def _setup(eng, st):
    from skops.card import _model_card as mc
    from pyvc.ext import pure
    import prettytable
    g = globals()
    g.update(_PrettyTable=prettytable.PrettyTable, _MARKDOWN=prettytable.TableStyle.MARKDOWN, _split=mc.split_subsection_names,
             _add_single=mc.Card._add_single, _PlotSection=mc.PlotSection, _TableSection=mc.TableSection, _get_model=mc.Card.get_model)
    br = getattr(mc, "_replace_line_breaks", None)
    def brc(e, s, a, k):
        yield s, SStr(V.s(e.ufV("br", e.reify(s, a[0]))))
    if br is not None:
        eng.contracts[br] = brc
    eng.contracts[spec_br] = brc
    g["_br"] = spec_br

    def lemma(e, s, used, t):
        s.assume(e.ufV("len", t, res=z3.IntSort()) >= 1)
    eng.contracts[mc.split_subsection_names] = uf_contract("split", [("key", NODEF)], ("list", "str"), lemma)
    tr = eng.alloc(st, ListCell(()))
    st.ghost["adds"] = tr.addr
    eng.loop_roles[tr.addr] = "adds"

    def add_single(e, s, args, kw):
        a = dict(zip(("self", "key", "val", "folded"), args)); a.update(kw)
        v = a["val"]
        if isinstance(v, Ref) and isinstance(s.heap[v.addr], ObjCell):
            c = s.heap[v.addr]
            frozen = Tup((Conc(c.cls),) + tuple(Tup((Conc(n), _frz(e, s, y))) for n, y in sorted(c.attrs.items())))
            s.heap[v.addr] = ObjCell(c.cls, {**c.attrs, "__stored__": Conc(True)})
        else:
            frozen = v
        ad = s.ghost["adds"]
        s.heap[ad] = ListCell(s.heap[ad].segs + (Known((Tup((a["key"], frozen, a.get("folded", Conc(False)))),)),))
        yield s, v
    eng.contracts[mc.Card._add_single] = add_single
    eng.contracts[mc.Card.get_model] = uf_contract("model", [], ("model",), drop_self=True)
    eng.attr_overrides[("model", "get_params")] = lambda e, s, v, n: iter([(s, BoundM("get_params", v))])
    eng.ext_tags = set(eng.ext_tags) | {"model", "ptable"}
    def params(e, s, v, a, kw):
        deep = kw.get("deep", a[0] if a else Conc(True))
        yield s, SVal(e.ufV("get_params", v.t, e.reify(s, deep)), ("dict", "str", None))
    eng.attr_overrides[("model", "get_params()")] = params
    # PrettyTable: ghost list of operations, rendered by an uninterpreted function of them
    def ptable(e, s, a, kw):
        r = e.alloc(s, ListCell(()))
        e.loop_roles[r.addr] = "columns"
        yield s, SVal(z3.Const(f"ptable@{r.addr}", V), ("ptable", r.addr))
    eng.ext[prettytable.PrettyTable] = ptable
    def pop(name):
        def h(e, s, v, a, kw):
            ad = v.tag[1]
            vals = [SVal(e.reify(s, x), None) if isinstance(x, Ref) else x for x in a]
            s.heap[ad] = ListCell(s.heap[ad].segs + (Known((Tup((Conc(name),) + tuple(vals) + tuple(Tup((Conc(k), x)) for k, x in sorted(kw.items()))),)),))
            yield s, Conc(None)
        return h
    for n in ("add_column", "set_style", "add_row", "add_rows"):
        eng.attr_overrides[("ptable", n + "()")] = pop(n)
    def getstr(e, s, v, a, kw):
        yield s, SStr(V.s(e.ufV("ptable.str", e.reify_segs(s, s.heap[v.tag[1]].segs, "list"))))
    eng.attr_overrides[("ptable", "get_string()")] = getstr
    card = eng.alloc(st, ObjCell(mc.Card, {"_metrics": eng.alloc(st, DictCell((("s", eng.items_of(SVal(z3.Const("metrics", V), ("dict", "str", None)))),)))}))
    return mc, card


def _frz(e, s, y):
    if isinstance(y, Ref):
        c = s.heap[y.addr]
        if isinstance(c, ObjCell):
            raise Unsupported("stored section refers to an object")
        if isinstance(c, DictCell) and not c.segs:
            return Tup((Conc("empty dict"),))
        return SVal(e.reify(s, y), None)
    return y


def spec_br(text):
    return re.sub(r"\r\n|\r|\n", "<br />", text)


def _sec(eng, st, mc, cls, extra):
    return eng.alloc(st, ObjCell(cls, {"title": eng.sym("title", "str", st), "content": eng.sym("content", "str", st), "visible": eng.sym("vis", "bool", st),
                                       "folded": eng.sym("folded", "bool", st), "subsections": SVal(z3.Const("subs", V), ("dict", "str", None)), **extra}))


def _cmp(eng, name, r1, r2):
    n = 0
    for s1, v1 in r1:
        for s2, v2 in r2:
            s = joint(s1, s2)
            if not eng.feasible(s):
                continue
            n += 1
            e1, e2 = isinstance(v1, Raise), isinstance(v2, Raise)
            ok = (e1 == e2) and (v1.exc.cls is v2.exc.cls if e1 else eng.same(s, v1, v2)) and not s.ghost["_exit_conflict"]
            eng.oblige_bool(f"{name}#p{n}.result", ok, "" if ok else f"code {v1 if e1 else show(eng, s, v1)} || specification {v2 if e2 else show(eng, s, v2)}")
            if "adds" in s1.ghost:
                a, b = s1.heap[s1.ghost["adds"]].segs, s2.heap[s2.ghost["adds"]].segs
                ok = eng.same_segs(s, a, b)
                eng.oblige_bool(f"{name}#p{n}.sections", ok, "" if ok else f"sections added: code {[show_seg(eng, s1, x, 0) for x in a]} || specification {[show_seg(eng, s2, x, 0) for x in b]}")
    eng.oblige_bool(f"{name}#reachable", n > 0, kind="vacuity")


def u_format(cls, spec):
    def mk(eng):
        st = init_state(eng)
        mc, card = _setup(eng, st)
        k = getattr(mc, cls)
        extra = {"PlotSection": lambda: {"path": eng.sym("path", "str", st), "alt_text": eng.sym("alt", "str", st)},
                 "TableSection": lambda: {"table": SVal(z3.Const("table", V), ("dict", None, ("list", None))), "_is_pandas_df": eng.sym("ispd", "bool", st)},
                 "Section": dict}[cls]()
        sec = _sec(eng, st, mc, k, extra)
        r1 = list(eng.call_closure(st.fork(), eng.closure_of(k.format), [sec], {}))
        r2 = list(eng.call_closure(st.fork(), eng.closure_of(spec), [sec], {}))
        _cmp(eng, f"{cls}.format", r1, r2)
    return mk


def u_builder(attr, spec, kw, star=None):
    def mk(eng):
        st = init_state(eng)
        mc, card = _setup(eng, st)
        kwargs = {}
        for n, ty in kw.items():
            kwargs[n] = eng.sym(n, ty, st) if ty != "optstr" else SVal(z3.Const(n, V), None)
            if ty == "optstr":
                t = z3.Const(n, V)
                st.assume(z3.Or(V.is_none(t), V.is_S(t)))
        if star is not None:
            kwargs["**"] = [("s", eng.items_of(SVal(z3.Const("kwargs", V), ("dict", "str", star))))]
        r1 = list(eng.call_closure(st.fork(), eng.closure_of(getattr(mc.Card, attr)), [card], dict(kwargs)))
        r2 = list(eng.call_closure(st.fork(), eng.closure_of(spec), [card], dict(kwargs)))
        _cmp(eng, attr, r1, r2)
    return mk


def u_model_plot(eng):
    st = init_state(eng)
    mc, card = _setup(eng, st)
    from pyvc.ext import pure
    eng.ext[mc.estimator_html_repr] = pure("html", None)
    section, desc = eng.sym("section", "str", st), SVal(z3.Const("description", V), None)
    st.assume(z3.Or(V.is_none(desc.t), V.is_S(desc.t)))
    n = 0
    for s, v in eng.call_closure(st.fork(), eng.closure_of(mc.Card.add_model_plot), [card], {"section": section, "description": desc}):
        if not eng.feasible(s):
            continue
        n += 1
        segs = eng.norm_segs(s, s.heap[s.ghost["adds"]].segs)
        adds = segs[0].vals if len(segs) == 1 and isinstance(segs[0], Known) else ()
        ok = not isinstance(v, Raise) and len(adds) == 1
        eng.oblige_bool(f"add_model_plot#{n}.one section", ok, "" if ok else f"{v} {len(adds)} sections added")
        if not ok:
            continue
        key, frozen, _ = adds[0].items
        names = eng.ufV("spec.split", eng.reify(s, section))
        d = {p.items[0].v: p.items[1] for p in frozen.items[1:]}
        want = V.S(V.s(eng.ufV("at", names, eng.ufV("len", names, res=z3.IntSort()) - 1)))
        eng.oblige(f"add_model_plot#{n}.key", s, eng.reify(s, key) == eng.reify(s, section), "section is added under another path")
        eng.oblige(f"add_model_plot#{n}.title", s, eng.reify(s, d["title"]) == want, "heading is not the last part of the path")
        c, ds = eng.str_of(d["content"]), V.s(desc.t)
        if c is None:
            c = V.s(eng.reify(s, d["content"]))
        eng.oblige(f"add_model_plot#{n}.description", s, z3.Implies(z3.And(V.is_S(desc.t), ds != z3.StringVal("")), z3.PrefixOf(ds, c)), "description does not precede the plot")
    eng.oblige_bool("add_model_plot#reachable", n > 0, kind="vacuity")


def prove(P):
    P.unit("Card.add_model_plot post", "Card.add_model_plot", u_model_plot)
    for cls, spec in (("Section", spec_section_format), ("PlotSection", spec_plot_format), ("TableSection", spec_table_format)):
        P.unit(f"{cls}.format == spec", f"{cls}.format", u_format(cls, spec))
    P.unit("Card.add_plot == spec", "Card.add_plot", u_builder("add_plot", spec_add_plot, {"description": "optstr", "alt_text": "optstr", "folded": "bool"}, "str"))
    P.unit("Card.add_table == spec", "Card.add_table", u_builder("add_table", spec_add_table, {"description": "optstr", "folded": "bool"}, ("dict", None, None)))
    P.unit("Card.add_metrics == spec", "Card.add_metrics", u_builder("add_metrics", spec_add_metrics, {"section": "str", "description": "optstr"}, "none2"))
    P.unit("Card.add_hyperparams == spec", "Card.add_hyperparams", u_builder("add_hyperparams", spec_add_hyperparams, {"section": "str", "description": "optstr"}))


def guards(P):
    P.unit("guard: heading from the first path part", "Card.add_plot", u_builder("add_plot", wrong_add_plot, {"description": "optstr", "alt_text": "optstr", "folded": "bool"}, "str"))
    P.unit("guard: no alt text fallback", "PlotSection.format", u_format("PlotSection", wrong_plot_format))


# ------------------------------------------------------------------ bounded
def cell(x):
    return re.sub("\r\n|\r|\n", "<br />", str(x))


def md_table(text):
    """(header, rows) of the single markdown table in text"""
    lines = [l for l in text.split("\n") if l.startswith("|")]
    rows = [[c.strip(" ") for c in l[1:-1].split("|")] for l in lines]
    if len(rows) < 2 or not all(re.fullmatch(r":?-*:?", c) for c in rows[1]):
        return None
    return rows[0], rows[2:]


WORDS = ["a", "b c", "Größe", "x\ny", "l1\r\nl2", "\n", "end\n", "r\rs", "", "1.0", "<b>", "* star", "日本", "-", "---", "a\n\nb", "None", "0.10"]


def rand_val(rng):
    import numpy as np
    r = rng.random()
    if r < 0.4:
        return rng.choice(WORDS)
    if r < 0.5:
        return rng.randint(-10**6, 10**20)
    if r < 0.65:
        return rng.choice([0.1, 1e-10, 1e300, -0.0, float("nan"), float("inf"), 1 / 3, 100.0])
    if r < 0.8:
        return rng.choice([None, True, False, (1, 2), [1, "x\ny"], {"k": "v"}, b"x"])
    return rng.choice([np.float64(0.25), np.int64(3), np.float32(0.1), np.array([1, 2]), np.bool_(True)])


def fresh_card(model=None):
    from skops.card import Card
    return Card(model, template=None)


def check_tables(B, rng, i):
    import pandas as pd
    ncol, nrow = rng.randint(1, 4), rng.choice([0, 1, 1, 2, 3, 5])
    names = []
    while len(names) < ncol:
        c = rng.choice(["col", "Überschrift", "x\ny", "c 1", 0, 3, 1.5, "mean_test", "A", "b\r\nc", ("t", 1), None, True])
        if cell(c) not in map(cell, names) and c not in names:
            names.append(c)
    # constructing a column as an object Series keeps every value as it is
    table = {n: [rand_val(rng) for _ in range(nrow)] for n in names}
    if nrow == 0 and all(len(cell(n)) < 2 for n in names):
        return
    desc, folded = rng.choice([None, "", "Some description"]), rng.random() < 0.3
    path = rand_path(rng, [], 3)
    key = path_str(rng, path)
    B.case("tables", repr((table, desc, folded, key)), (table, key))
    rep = {"table": repr(table), "path": key, "description": desc, "folded": folded}
    head, rows = [cell(n).strip(" ") for n in names], [[cell(table[n][j]).strip(" ") for n in names] for j in range(nrow)]
    outs = {}
    sources = {"dict": table}
    if all(isinstance(n, (str, int, float)) for n in names):
        df = pd.DataFrame({j: pd.Series(v, dtype=object) for j, v in enumerate(table.values())})
        df.columns = pd.Index(names, dtype=object)
        sources["DataFrame"] = df
    sources["tuples"] = {k: tuple(v) for k, v in table.items()}
    for kind, src in sources.items():
        card = fresh_card()
        r = card.add_table(description=desc, folded=folded, **{key: src})
        sec = card.select(key)
        txt = sec.format()
        t = md_table(txt)
        B.check(t is not None and t[0] == head and t[1] == rows, "table", lambda: f"{kind}: table shows {t!r}, entries are {(head, rows)!r}", {**rep, "kind": kind})
        B.check(r is card and sec.title == path[-1] and sec.content == (desc or ""), "table-section", lambda: f"{kind}: section title {sec.title!r} content {sec.content!r}", {**rep, "kind": kind})
        B.check(("<details>" in txt) == folded and txt.startswith(desc or ""), "table-fold", lambda: txt, {**rep, "kind": kind})
        B.check(card.render().rstrip("\n").endswith(txt.rstrip("\n")) and f"{'#' * len(path)} {path[-1]}" in card.render(), "table-render", lambda: card.render(), rep)
        outs[kind] = txt
    B.check(len(set(outs.values())) == 1, "table-kinds", lambda: f"dict and DataFrame render differently: {outs}", rep)


def check_metrics(B, rng, i):
    card = fresh_card()
    want, hist = {}, []
    sections = ["Metrics"] if rng.random() < 0.7 else ["Metrics", "A/B metrics/Sub", "x\\/y"]
    for j in range(rng.randint(1, 6)):
        kw = {rng.choice(["acc", "f1", "roc auc", "m/1", "Größe", "l\nm", "mse"]): rng.choice([0, 1, 0.5, "0.9 ± 0.1", -1.25, rng.random(), None, "a\nb"]) for _ in range(rng.randint(0 if want else 1, 3))}
        sec = rng.choice(sections)
        desc = rng.choice([None, "", "how"])
        hist.append((sec, desc, kw))
        r = card.add_metrics(sec, description=desc, **kw)
        want.update(kw)
        s = card.select(sec)
        t = md_table(s.format())
        exp = [[cell(k).strip(" "), cell(v).strip(" ")] for k, v in want.items()]
        B.check(t == (["Metric", "Value"], exp), "metrics", lambda: f"metrics table shows {t!r}, accumulated metrics are {exp!r}", {"calls": hist})
        B.check(r is card and s.title == spec_split_last(sec) and s.content == (desc or ""), "metrics-section", lambda: f"title {s.title!r} content {s.content!r}", {"calls": hist})
    B.case("metrics", repr(hist), hist)
    other = fresh_card()
    other.add_metrics("M", only=1)
    B.check(md_table(other.select("M").format()) == (["Metric", "Value"], [["only", "1"]]), "metrics-shared", "metrics of another card appear", {"calls": hist})


def spec_split_last(key):
    from contracts.c09 import spec_split
    return spec_split(key)[-1]


def check_plots(B, rng, i):
    n = rng.randint(1, 4)
    items, known = {}, []
    for _ in range(n):
        p = rand_path(rng, known, 3)
        if p in known:
            continue
        known.append(p)
        items[path_str(rng, p)] = (p, rng.choice(["p.png", "dir/q.png", "ü b.png"]) + str(len(items)))
    alt = rng.choice([None, None, "alt text", ""])
    desc, folded = rng.choice([None, "desc"]), rng.random() < 0.3
    import pathlib
    conv = rng.choice([str, pathlib.Path])
    rep = {"plots": repr(items), "alt_text": alt, "description": desc, "folded": folded}
    B.case("plots", repr((items, alt, desc, folded)), items)
    one, many = fresh_card(), fresh_card()
    many.add_plot(description=desc, alt_text=alt, folded=folded, **{k: conv(f) for k, (p, f) in items.items()})
    for k, (p, f) in items.items():
        one.add_plot(description=desc, alt_text=alt, folded=folded, **{k: conv(f)})
    B.check(one.render() == many.render() and one.get_toc() == many.get_toc(), "plots-at-once", lambda: f"one by one: {one.render()!r}; at once: {many.render()!r}", rep)
    for k, (p, f) in items.items():
        s = many.select(k)
        txt = s.format()
        body = f"![{alt or p[-1]}]({f})"
        want = wrap(body, folded)
        want = f"{desc}\n\n{want}" if desc else want
        B.check(txt == want and s.title == p[-1], "plot", lambda: f"{k!r}: {txt!r} titled {s.title!r}, expected {want!r}", rep)
    # tables at once
    many, one = fresh_card(), fresh_card()
    many.add_table(description=desc, folded=folded, **{k: {"c": [f]} for k, (p, f) in items.items()})
    for k, (p, f) in items.items():
        one.add_table(description=desc, folded=folded, **{k: {"c": [f]}})
    B.check(one.render() == many.render(), "tables-at-once", lambda: f"{one.render()!r} vs {many.render()!r}", rep)
    many, one = fresh_card(), fresh_card()
    many.add(folded=folded, **{k: f for k, (p, f) in items.items()})
    for k, (p, f) in items.items():
        one.add(folded=folded, **{k: f})
    B.check(one.render() == many.render(), "add-at-once", lambda: f"{one.render()!r} vs {many.render()!r}", rep)
    kw = {f"m{j}": j for j in range(rng.randint(1, 4))}
    many, one = fresh_card(), fresh_card()
    many.add_metrics("M", **kw)
    for k in kw:
        one.add_metrics("M", **{k: kw[k]})
    B.check(one.render() == many.render(), "metrics-at-once", lambda: f"{one.render()!r} vs {many.render()!r}", rep)


def models():
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler, FunctionTransformer
    from sklearn.compose import ColumnTransformer
    from sklearn.model_selection import GridSearchCV
    from sklearn.ensemble import VotingClassifier, BaggingClassifier
    import numpy as np
    yield LogisticRegression(C=3.5)
    yield make_pipeline(StandardScaler(), LogisticRegression(max_iter=7))
    yield GridSearchCV(make_pipeline(StandardScaler(), Ridge()), {"ridge__alpha": [1, 2]})
    yield ColumnTransformer([("a", StandardScaler(), [0]), ("b", "passthrough", [1])])
    yield VotingClassifier([("x", LogisticRegression()), ("y", LogisticRegression(penalty=None))])
    yield BaggingClassifier(LogisticRegression())
    deep = StandardScaler()
    for _ in range(5):
        deep = make_pipeline(deep)
    yield deep
    yield FunctionTransformer(np.log1p, kw_args={"a": "x\ny"})


def check_models(B):
    for m in models():
        for sec in ("H", "A/B/My params", "x \\/ y"):
            for desc in (None, "words"):
                card = fresh_card(m)
                B.case("hyperparams", repr((m, sec, desc)))
                r = card.add_hyperparams(sec, description=desc)
                s = card.select(sec)
                t = md_table(s.format())
                want = [[cell(k).strip(" "), cell(v).strip(" ")] for k, v in m.get_params(deep=True).items()]
                got = None if t is None else t[1]
                if any("|" in x for w in want for x in w):
                    continue
                norm = lambda rows: [[re.sub(" +", " ", x) for x in w] for w in rows]
                B.check(t is not None and t[0] == ["Hyperparameter", "Value"] and norm(got) == norm(want), "hyperparams", lambda: f"{got!r} vs get_params {want!r}", {"model": repr(m), "section": sec})
                B.check(r is card and s.title == spec_split_last(sec) and s.content == (desc or "") and s.folded, "hyperparams-section", lambda: f"title {s.title!r}, content {s.content!r}", {"model": repr(m), "section": sec})
                r = card.add_model_plot("P/" + sec, description=desc)
                s = card.select("P/" + sec)
                B.check(r is card and s.title == spec_split_last(sec), "model-plot", lambda: f"title {s.title!r}", {"section": sec})
                c = s.format()
                B.check("<div" in c and type(m).__name__ in c and (not desc or c.startswith(desc + "\n\n")), "model-plot", lambda: c[:300], {"section": sec})


def check_replaced(B):
    """the parameters of the model in the file, also when the file is replaced"""
    import pickle
    import skops.io as sio
    from skops.card import Card
    from sklearn.linear_model import LogisticRegression
    for kind in ("pkl", "skops"):
        f = "replaced." + kind
        card = None
        for n, c in enumerate((1.0, 2.0, 3.5, 3.5, 1.0)):
            m = LogisticRegression(C=c)
            with open(f, "wb") as fh:
                fh.write(pickle.dumps(m) if kind == "pkl" else sio.dumps(m))
            card = card or Card(f, template=None, trusted=[])
            card.add_hyperparams("H")
            t = md_table(card.select("H").format())
            got = dict(map(tuple, t[1])).get("C") if t else None
            B.case("replaced", (kind, n))
            B.check(got == str(c), "replaced", lambda: f"after the model file is replaced (version {n}), add_hyperparams lists C={got}, get_params gives {c}", {"file": kind, "version": n})


def bounded(B):
    B.rule("random tables (dict / tuple columns / DataFrame, odd column names, values with line breaks) parsed back from the rendered markdown; random add_metrics call sequences against an ordered dict; plots/tables/metrics several at once vs one by one; 7 estimators x sections for hyper-parameters and model plot; distinct = distinct inputs")
    rng = B.rng
    for i in range(B.n(1200, 12000)):
        if B.time_left() < 10:
            break
        check_tables(B, rng, i)
        if i % 3 == 0:
            check_metrics(B, rng, i)
            check_plots(B, rng, i)
    check_models(B)
    check_replaced(B)
