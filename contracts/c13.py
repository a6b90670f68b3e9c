"""C13 visualize is total and agrees with the audit."""
from __future__ import annotations
import io, os, sys, warnings
from contracts import archives as A, load_common as L
from contracts.vizproof import *

LEVEL = "proof"
NOTE = "rows, verdicts, text and order of walk_tree under contract for every node class; that printing completes and the shape of the printed tree are bounded"
TRUSTED = ["rich: Tree/Console print what they are given", "a generator function runs its body when it is consumed"]
ASSUMPTIONS = ["walk_tree is verified as one step of its loop from an arbitrary worklist (loop invariant: levels do not decrease towards the top); containers in the step have a few known entries",
               "_traverse_tree and pretty_print_tree (moving up rows below invisible ones, drawing) are covered by the bounded layer only: all trees of rows up to a size"]
EXPLANATION = ("For every node class a step of walk_tree emits exactly one row with the node's level, text, is_self_safe() and is_safe(), and queues children one level deeper only, so that rows form a tree in "
               "preorder. is_safe() is proved to be emptiness of get_unsafe_set (whose step is under contract), is_self_safe() the membership of the audited name, format() the audited name; visualize builds "
               "the tree with exactly the given trusted names, as get_untrusted_types does without. Hence a row that shows an untrusted name is unsafe and the root is fully safe iff nothing is missing.")
BUDGET = {"quick": 150, "thorough": 900}


def prove(P):
    from skops.io import _audit
    reg = registry()
    P.unit("walk_tree start", "_visualize.walk_tree", u_walk_start, policy=NodePolicy())
    for k in ("none", "dict", "list", "tuple", "empty", "text"):
        P.unit(f"walk_tree step {k}", "_visualize.walk_tree", u_walk_step(k), policy=NodePolicy())
    for cls in reg:
        P.unit(f"walk_tree step {label(cls)}", "_visualize.walk_tree", u_walk_step("node", cls), policy=NodePolicy())
        P.unit(f"format {label(cls)}", f"{label(cls)}.format", u_format(cls), policy=NodePolicy())
        P.unit(f"verdict {label(cls)}", f"{label(cls)}.is_self_safe", unit_verdict(cls), policy=NodePolicy())
    P.unit("is_safe", "_audit.Node.is_safe", u_is_safe, policy=NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", u_worklist, policy=NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", u_untrusted, policy=NodePolicy())
    P.unit("visualize", "_visualize.visualize", u_visualize, policy=NodePolicy())
    P.unit("_get_node_label", "_visualize._get_node_label", u_label, policy=NodePolicy())
    P.unit("_check_visibility", "_visualize._check_visibility", u_visible, policy=NodePolicy())


def guards(P):
    import skops.io._visualize as vz
    from skops.io._audit import Node

    class Hides(Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.trusted = self._get_trusted(trusted, [])
            self.children = {}

        def format(self):
            return "builtins.list"
    P.unit("guard: another name is shown", "guard", u_format(Hides), policy=NodePolicy())


# ------------------------------------------------------------------ bounded
PRE = " \u2502\u251c\u2514\u2500"


def plain_text(s):
    return "".join(c if c.isprintable() else c.encode("unicode_escape").decode("ascii") for c in s)


def squash(s):
    # (rich escapes by backslashes)
    return "".join(s.replace("\\", "").split())


def parse_lines(txt):
    """[(depth, text)] of a rendered tree"""
    out = []
    for line in txt.split("\n"):
        if not line.strip():
            continue
        i = 0
        while i + 4 <= len(line) and line[i:i + 4].strip(PRE) == "" and line[i:i + 4] in ("    ", "\u2502   ", "\u251c\u2500\u2500 ", "\u2514\u2500\u2500 "):
            i += 4
            if line[i - 3] == "\u2500":
                break
        out.append((i // 4, line[i:].rstrip()))
    return out


class norich:
    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items() if k == "rich" or k.startswith("rich.")}
        for k in list(self.old):
            del sys.modules[k]
        for k in ("rich", "rich.console", "rich.markup", "rich.tree"):
            sys.modules[k] = None

    def __exit__(self, *a):
        for k in ("rich", "rich.console", "rich.markup", "rich.tree"):
            sys.modules.pop(k, None)
        sys.modules.update(self.old)


def check_rows(rows, missing):
    """what is wrong with a sequence of rows for an archive in which the names `missing` are not trusted"""
    if not rows:
        return "no row"
    if rows[0].level != 0:
        return f"the first row has level {rows[0].level}"
    for i, r in enumerate(rows):
        if i and (r.level > rows[i - 1].level + 1 or r.level <= 0):
            return f"row {i} has level {r.level} after {rows[i - 1].level}"
        # (a name of the default families may be trusted for one kind of node and not for another)
        bad = r.val in missing and not L.family(r.val)
        if bad and r.is_self_safe:
            return f"row {i} shows the untrusted name {r.val} as safe"
        if bad and r.is_safe:
            return f"row {i} shows the untrusted name {r.val} as fully safe"
        if r.is_safe and not r.is_self_safe:
            return f"row {i} ({r.val}) is fully safe but not safe itself"
    stack = []
    for i, r in enumerate(rows):
        while stack and stack[-1].level >= r.level:
            stack.pop()
        if not r.is_self_safe or not r.is_safe:
            for p in stack:
                if p.is_safe:
                    return f"row ({p.level}, {p.key}, {p.val}) is fully safe although {r.val} beneath it is not"
        stack.append(r)
    if missing and all(r.is_self_safe for r in rows):
        return f"no row is marked as unsafe while {sorted(missing)[:5]} are not trusted"
    if bool(rows[0].is_safe) != (not missing):
        return f"the root is {'' if rows[0].is_safe else 'not '}fully safe while {sorted(missing)[:5]} are not trusted"
    return None


def expected(rows, show, tags=("", "[UNSAFE]")):
    out = []
    for i, r in enumerate(rows):
        if i and ((show == "untrusted" and r.is_safe) or (show == "trusted" and not r.is_self_safe)):
            continue
        tag = tags[0] if r.is_self_safe else tags[1]
        out.append((r.level, plain_text(f"{r.key}: {r.val}") + (f" {tag}" if tag else "")))
    return out


def check_text(txt, rows, show, tags=("", "[UNSAFE]")):
    want = expected(rows, show, tags)
    if any("\u2500" in t or "\u2502" in t for _, t in want):
        return None
    lines = parse_lines(txt)
    if squash("".join(t for _, t in lines)) != squash("".join(t for _, t in want)):
        k = next((i for i, (a, b) in enumerate(zip(lines, want)) if squash(a[1]) != squash(b[1])), min(len(lines), len(want)))
        return f"shows {lines[k:k + 2]} where {want[k:k + 2]} is expected ({len(lines)} lines for {len(want)} rows)"
    if len(lines) == len(want):
        for i, ((d, t), (l, _)) in enumerate(zip(lines, want)):
            if show == "all" and d != l:
                return f"row {i} ({t}) is shown at depth {d} instead of {l}"
            if i and (d > lines[i - 1][0] + 1 or d < 1) or not i and d:
                return f"row {i} ({t}) is shown at depth {d} after {lines[i - 1][0]}"
    return None


COLORS = {"36": "safe", "35": "child", "38;5;214": "unsafe"}


def check_colors(txt, rows, show):
    import re
    vis = [r for i, r in enumerate(rows) if not i or not ((show == "untrusted" and r.is_safe) or (show == "trusted" and not r.is_self_safe))]
    want = ["safe" if r.is_safe else "child" if r.is_self_safe else "unsafe" for r in vis]
    # tags and numbers are highlighted separately: the first style of a line's label counts
    got = []
    for line in txt.split("\n"):
        c = [COLORS[m] for m in re.findall("\x1b\\[(?:1;)?(36|35|38;5;214)m", line)]
        if c:
            got.append(c[0])
    if len(got) == len(want) and got != want:
        return f"colours {got[:8]} instead of {want[:8]}"
    if "unsafe" not in got and "child" not in got and not rows[0].is_safe:
        return "everything is shown in the colour of what is safe"
    return None


def trusts(U, rng):
    yield None
    yield []
    yield list(U)
    if U:
        yield U[1:]
        yield [rng.choice(U)]
        yield tuple(U[:-1])
        yield [U[0] + "x"] + U[1:]
    yield ["builtins.list", "os.system"]


def probe(item):
    import random, zlib
    import skops.io as sio
    from contextlib import redirect_stdout
    lab, state, members, proto, mc = item
    dumped = isinstance(state, bytes)
    a = state if dumped else A.pack(state, members, proto)
    rng = random.Random(zlib.crc32(lab.encode("utf8", "replace")))
    out, n = [], 0
    os.environ.update(COLUMNS="4000", TERM="xterm-256color")
    try:
        U = sio.get_untrusted_types(data=a)
    except Exception as ex:
        U = ex
    ts = list(trusts(U, rng)) if isinstance(U, list) else [None, [], ["os.system"]]
    shows = ["all", "untrusted", "trusted"]
    for k, T in enumerate(ts if dumped else ts[:1] + rng.sample(ts[1:], min(len(ts) - 1, 2))):
        missing = set(U) - set(T or ()) if isinstance(U, list) else None
        got = []
        try:
            sio.visualize(a, trusted=T, show=shows[k % 3], sink=lambda rows, show, **kw: got.append((list(rows), show, kw)), foo=1)
        except Exception as ex:
            if dumped:
                out.append(("total", f"visualize(trusted={T}, show={shows[k % 3]}) raises {ex!r}"))
            continue
        n += 1
        rows, show, kw = got[0]
        if len(got) != 1 or show != shows[k % 3] or kw != {"foo": 1}:
            out.append(("sink", f"the sink got show={show} {kw}"))
        if missing is None:
            out.append(("audit", f"visualize completes although get_untrusted_types raises {U!r}"))
            continue
        w = check_rows(rows, missing)
        if w:
            out.append(("rows", f"trusted={T}: {w}"))
        for show in (shows if dumped else [rng.choice(shows)]):
            for how in ("rich", "plain", "colour", "narrow"):
                if how == "colour" and (len(rows) > 60 or k):
                    continue
                kw = {} if rng.random() < 0.7 else {"tag_safe": "<ok>", "tag_unsafe": "<BAD>"}
                buf = io.StringIO()
                try:
                    with redirect_stdout(buf):
                        if how == "narrow":
                            os.environ["COLUMNS"] = "80"
                            try:
                                sio.visualize(a, trusted=T, show=show, **kw)
                            finally:
                                os.environ["COLUMNS"] = "4000"
                        elif how == "rich":
                            sio.visualize(a, trusted=T, show=show, **kw)
                        elif how == "plain":
                            with norich():
                                sio.visualize(a, trusted=T, show=show, **kw)
                        else:
                            os.environ["FORCE_COLOR"] = "1"
                            try:
                                sio.visualize(a, trusted=T, show=show, tag_unsafe="", tag_safe="")
                            finally:
                                del os.environ["FORCE_COLOR"]
                except Exception as ex:
                    if dumped:
                        out.append(("total", f"visualize(trusted={T}, show={show}), {how}: raises {ex!r}"))
                    elif isinstance(ex, (ValueError, KeyError, AttributeError, TypeError)):
                        out.append(("print", f"visualize(trusted={T}, show={show}), {how}: the rows can be listed but printing raises {ex!r}"))
                    continue
                n += 1
                if how == "narrow":
                    # (cells may be wrapped)
                    txt = "".join(c for c in squash(buf.getvalue()) if c not in PRE)
                    w = missing and show != "trusted" and kw.get("tag_unsafe", "[UNSAFE]") not in txt and "nothing is marked as unsafe"
                    if w:
                        out.append(("text", f"visualize(trusted={T}, show={show}), 80 columns: {w} although {sorted(missing)[:4]} are not trusted"))
                    continue
                w = check_colors(buf.getvalue(), rows, show) if how == "colour" else check_text(buf.getvalue(), rows, show, (kw.get("tag_safe", ""), kw.get("tag_unsafe", "[UNSAFE]")))
                if w:
                    out.append(("text", f"visualize(trusted={T}, show={show}), {how}: {w}"))
    return n, out


def level_seqs(n):
    if n == 1:
        yield (0,)
        return
    for s in level_seqs(n - 1):
        for l in range(1, s[-1] + 2):
            yield s + (l,)


def abstract(B):
    """all trees of rows up to a size, through the printing sinks"""
    import itertools
    import skops.io._visualize as vz
    from contextlib import redirect_stdout
    os.environ.update(COLUMNS="4000")
    N = B.n(5, 7)
    for how in ("plain", "rich"):
        for n in range(1, N + (how == "plain")):
            for seq in level_seqs(n):
                for safe in itertools.product((True, False), repeat=n):
                    rows = []
                    for i, l in enumerate(seq):
                        j = i + 1
                        while j < n and seq[j] > l:
                            j += 1
                        last = j >= n or seq[j] < l
                        rows.append(vz.NodeInfo(l, f"k{i}", f"v{i}", safe[i], all(safe[i:j]), last))
                    for show in ("all", "untrusted", "trusted"):
                        buf = io.StringIO()
                        try:
                            with redirect_stdout(buf):
                                if how == "plain":
                                    with norich():
                                        vz.pretty_print_tree(iter(rows), show)
                                else:
                                    vz.pretty_print_tree(iter(rows), show)
                            w = check_text(buf.getvalue(), rows, show)
                        except Exception as ex:
                            w = f"raises {ex!r}"
                        B.case(f"abstract {how}", f"{seq}{safe}{show}")
                        B.check(not w, "abstract", lambda: f"rows {rows} show={show} {how}: {w}", {"rows": [vars(r) for r in rows], "show": show, "sink": how})
    B.exhaustive.append(f"all trees of at most {N} rows with every assignment of verdicts, 3 show modes (plain sink; rich sink one row less)")


def dumped_items(B):
    import skops.io as sio
    from contracts import corpus, objects as O
    evil = ["[/red]", "[bold", "a\nb", "back\\", "[UNSAFE]", "\ud800", "\x1b[31m", "root: x", "", " ", "\u202e", "[link=http://x]y[/link]", "\r", "\u251c\u2500\u2500 x", "\\[", "[@click=x]"]
    for e in evil:
        yield f"key {e!r}", {e: [O.Plain(), 1], "z": e}
        yield f"value {e!r}", [e, {"k": e}, O.Plain()]
        p = O.Plain()
        p.__dict__[e] = 1
        yield f"attr {e!r}", p
    for e in evil[:4]:
        yield f"bytes {e!r}", [e.encode("utf8", "replace"), bytearray(e.encode("utf8", "replace"))]
    for k in corpus.KEYS:
        yield f"corpus {k}", corpus.make(k)
    for i, f in enumerate(O.exotic_makers()):
        try:
            yield f"exotic {i}", f(B.rng)
        except Exception:
            pass
    for n in (1, 5, 30, 60):
        x = O.Plain()
        for i in range(n):
            x = [[x], (x, 1), {"a": x}, {1: x}][i % 4]
        yield f"{n} deep", x
    yield "wide", [1] * 400 + [O.Plain()]
    for i in range(B.n(150, 4000)):
        yield f"generated {i}", O.any_value(B.rng, 3)


def bounded(B):
    import skops.io as sio
    warnings.simplefilter("ignore")
    B.rule("the rows that visualize hands to its sink, and the text printed with and without rich and with colours, are checked against get_untrusted_types for several trusted lists (none, all, all but one, "
           "near misses) and the 3 show modes: archives of dump (corpus, generated objects, keys and strings with markup, control characters and line breaks, deep and wide objects), archives of every kind with names in every slot, nested, cached, wide, deep")
    A.install_canaries(os.getcwd())
    abstract(B)
    xs = []
    for lab, o in dumped_items(B):
        try:
            xs.append((lab, sio.dumps(o), {}, None, None))
        except Exception:
            pass
    gs = [("dumped", xs, 10 ** 6)]
    slots, nest = list(A.slot_archives(A.POOL[:6])), list(A.nest_archives(A.POOL[:3]))
    B.rng.shuffle(slots)
    B.rng.shuffle(nest)
    st = list(A.string_archives())
    B.rng.shuffle(st)
    gs += [("big", list(A.big_archives()), 10 ** 6), ("slots", slots, 1200), ("nested", nest, 1500), ("cached", list(A.cached_archives()), 10 ** 6), ("alias", list(A.alias_archives())[::4], 10 ** 6), ("strings", st, 500)]
    for g, xs, n in gs:
        for item, (stt, r) in A.isolated(probe, xs if B.thorough else xs[:n], setup=warm, timeout=60):
            rep = {"archive": {"state": item[1], "protocol": item[3], "members": sorted(item[2])}, "label": item[0]}
            if stt == "crash":
                B.case(g + "-crash", item[0], item[0] + r)
                if g == "dumped":
                    B.fail("total", f"visualize of {item[0]}: {r}", rep)
            elif stt == "exc":
                B.fail("probe", f"{item[0]}: {r}", rep)
            else:
                for i in range(r[0]):
                    B.case(g, item[0] + f"#{i}", item[0])
                for k, v in r[1]:
                    B.fail(k, f"{item[0]}: {v}", rep)
        if B.time_left() < 0:
            break


def warm():
    import skops.io as sio
    from contextlib import redirect_stdout
    with redirect_stdout(io.StringIO()):
        sio.visualize(A.pack(A.L(A.J(1))))
