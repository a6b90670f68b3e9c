"""Frame conditions (C20): a call leaves nothing behind.

The functions are executed symbolically as in the units of the other properties; here the only obligation is the frame
condition of each unit: nothing that outlives the call (module variables, class attributes, default arguments, objects
of the modules) is written. New containers (contexts, cards, parsers) share no state that one of them can fill."""
from __future__ import annotations
import types
from pyvc.harness import *
from contracts.nodeproof import cell

WRITES = ("live_write", "global_write")


class FrameProofs:
    """the units of another module, with their frame conditions as the only obligations"""

    def __init__(self, P, tag):
        self.P, self.tag = P, tag

    def __getattr__(self, name):
        return getattr(self.P, name)

    def unit(self, name, fn, mk, policy=None):
        def mk2(eng):
            writes, orig = [], eng.event

            def event(st, kind, **kw):
                if kind in WRITES:
                    o = kw.get("obj")
                    what = repr(o.v)[:80] if isinstance(o, Conc) else str(o)[:80]
                    writes.append(f"{kind}: {kw.get('name')} of {what}" if o is not None else f"{kind}: {kw.get('name')}")
                return orig(st, kind, **kw)
            eng.event = event
            n0 = len(eng.obls)
            eng.oblige_bool, keep = (lambda *a, **k: None), eng.oblige_bool
            try:
                mk(eng)
            finally:
                eng.oblige_bool = keep
            del eng.obls[n0:]
            eng.oblige_bool(f"{name}: nothing that outlives the call is written", not writes, "; ".join(sorted(set(writes))[:5]))
        return self.P.unit(f"frame {self.tag}: {name}", fn, mk2, policy)


def u_twice(label, two, filled):
    """two(): makes two objects; no container of one is a container of the other; those in filled are empty at first"""
    def mk(eng):
        writes, orig = [], eng.event

        def event(st, kind, **kw):
            if kind in WRITES:
                writes.append(f"{kind} {kw.get('name')} {str(kw.get('obj'))[:80]}")
            return orig(st, kind, **kw)
        eng.event = event
        st = init_state(eng)
        n = 0
        for s, r in eng.run(two, [], {}, st):
            if not eng.feasible(s):
                continue
            if isinstance(r, Raise) or not isinstance(r, Tup):
                eng.oblige_bool(f"{label}: can be made", False, str(r)[:200])
                continue
            n += 1
            a, b = (cell(s, x) for x in r.items)
            shared = [k for k, x in a.attrs.items() if isinstance(x, Ref) and isinstance(b.attrs.get(k), Ref) and x.addr == b.attrs[k].addr]
            livev = [k for k, x in a.attrs.items() if isinstance(x, Conc) and isinstance(x.v, (dict, list, set, bytearray))]
            eng.oblige_bool(f"{label}: nothing is shared #{n}", not shared and not livev, f"shared by two: {shared + livev}")
            for f in filled:
                m = a.attrs.get(f)
                c = cell(s, m) if isinstance(m, Ref) else None
                ok = isinstance(c, (DictCell, ListCell)) and not c.segs
                eng.oblige_bool(f"{label}: {f} is its own, empty at first #{n}", ok, show(eng, s, m) if m is not None else "no such attribute")
        eng.oblige_bool(f"{label}: nothing outside is written", not writes, "; ".join(writes[:3]))
        eng.oblige_bool(f"{label}: reachable", n > 0, kind="vacuity")
    return mk


def two_cards():
    from skops.card import Card
    return Card("one", template=None), Card("two", template=None)


def two_parsers():
    from skops.card._markup import Markdown
    return Markdown(), Markdown()


def two_sections():
    from skops.card._model_card import Section
    return Section(title="a", content=""), Section(title="b", content="")


def two_saves():
    from skops.io._utils import SaveContext
    return SaveContext("z1"), SaveContext("z2")


def two_loads():
    from skops.io._utils import LoadContext
    return LoadContext("z1", 2), LoadContext("z2", 2)


def instances(P):
    P.unit("two cards", "Card.__init__", u_twice("two cards", two_cards, ("_data", "_metrics")))
    P.unit("two sections", "Section", u_twice("two sections", two_sections, ("subsections",)))
    P.unit("two parsers", "Markdown.__init__", u_twice("two parsers", two_parsers, ()))
    P.unit("two dumps", "SaveContext", u_twice("two dumps", two_saves, ("memo",)))
    P.unit("two loads", "LoadContext", u_twice("two loads", two_loads, ("memo",)))


def prove(P):
    import importlib
    instances(P)
    for mod in ("saveproof", "idproof", "rtproof", "c08", "c13", "c09", "c10", "c14", "c15", "c03"):
        m = importlib.import_module("contracts." + mod)
        m.prove(FrameProofs(P, mod))


CACHE = {}


def guards(G):
    class Shared:
        items = []

        def __init__(self):
            self.subsections = self.items

    def remembers(x):
        CACHE["last"] = x
        return x

    def u(eng):
        for s, r in eng.run(remembers, [SVal(z3.Const("x", V), None)], {}, init_state(eng)):
            eng.oblige_bool("runs", True)
    FrameProofs(G, "guard").unit("guard: a module variable is written", "guard", u)
    G.unit("guard: a class attribute is shared", "guard", u_twice("guard", lambda: (Shared(), Shared()), ("subsections",)))
