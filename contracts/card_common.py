"""Declared shapes (preconditions) and executable specifications for the model card."""
import copy, random
from pyvc.harness import *

SECDICT = ("dict", "str", ("inst", "Section"))


def section_schema(eng):
    from skops.card import _model_card as mc
    eng.schemas["Section"] = Schema("Section", mc.Section,
        {"title": "str", "content": "str", "subsections": SECDICT, "visible": "bool", "folded": "bool", "path": None},
        {"format": "str"})
    return mc


def empty_lemma(eng, st, used, t):
    """structural-recursion lemma: nothing below an empty dict of subsections"""
    st.assume(z3.Implies(eng.ufV("len", eng.reify(st, used[0]), res=z3.IntSort()) == 0,
                         eng.ufV("len", t, res=z3.IntSort()) == 0))


# ------------------------------------------------------------ bounded part
def wrap(text, folded):
    return f"<details>\n<summary> Click to expand </summary>\n\n{text}\n\n</details>" if folded else text


TITLES = ["A", "B", "Intro", "Model description", "x y", "Überschrift", "日本", "a/b", "/lead", "trail/", "C++", "a\\b", "x\x1fy", "#h", "0", "None", "a\\/b"]


def esc(title):
    """path notation of one title (titles that the notation can express)"""
    return title.replace("/", "\\/")


def expressible(title):
    # a backslash before a slash, or at the end of a non-last part, is not expressible
    return "\\/" not in title and not title.endswith("\\") and title == title.strip() and title != ""


def rand_title(rng):
    while True:
        t = rng.choice(TITLES) if rng.random() < 0.7 else "".join(rng.choice("ab/ \\é\x1f.-") for _ in range(rng.randint(1, 6)))
        if expressible(t):
            return t


def rand_path(rng, known, depth=3):
    """list of titles"""
    if known and rng.random() < 0.6:
        base = list(rng.choice(known))
        r = rng.random()
        if r < 0.4:
            return base
        if r < 0.7:
            return base[: rng.randint(1, len(base))]
        return base + [rand_title(rng)]
    return [rand_title(rng) for _ in range(rng.randint(1, depth))]


def path_str(rng, titles):
    out = []
    for t in titles:
        pad = rng.choice(["", "", " ", "  ", "\t"])
        out.append(pad + esc(t) + rng.choice(["", "", " "]))
    return "/".join(out)


class Node:
    """reference model: insertion-ordered tree"""
    def __init__(self, title, content="", folded=False, visible=True):
        self.title, self.content, self.folded, self.visible, self.subs = title, content, folded, visible, {}


class RefCard:
    def __init__(self):
        self.subs = {}

    def add(self, titles, content, folded=False):
        d = self.subs
        for t in titles[:-1]:
            if t not in d:
                d[t] = Node(t)
            d = d[t].subs
        n = Node(titles[-1], content, folded)
        if titles[-1] in d:
            n.subs = d[titles[-1]].subs
        d[titles[-1]] = n        # keeps position in a dict
        return n

    def find(self, titles):
        d, n = self.subs, None
        for t in titles:
            if t == "" or t not in d:
                return None
            n = d[t]
            d = n.subs
        return n

    def delete(self, titles):
        if self.find(titles) is None:
            return False
        d = self.subs
        for t in titles[:-1]:
            d = d[t].subs
        del d[titles[-1]]
        return True

    def dump(self):
        def f(d):
            return [(k, n.title, n.content, n.folded, f(n.subs)) for k, n in d.items()]
        return f(self.subs)

    def headings(self):
        out = []
        def f(d, depth):
            for n in d.values():
                if not n.visible:
                    continue
                out.append((depth, n))
                if not n.folded:
                    f(n.subs, depth + 1)
        f(self.subs, 1)
        return out

    def paths(self):
        out = []
        def f(d, p):
            for k, n in d.items():
                out.append(p + [k])
                f(n.subs, p + [k])
        f(self.subs, [])
        return out


def card_dump(card):
    def f(d):
        return [(k, s.title, s.content, bool(s.folded), f(s.subsections)) for k, s in d.items()]
    return f(card._data)
