"""Mutable section trees: a dict of sections is named by its location (trees have no aliasing),
reads consult the current state, writes go to a ghost trace and are visible to later reads.

Locations: ``root`` or ``sub(d, k)`` - the subsections dict of the section stored in d under k.
State version: the part of the trace that was summarised (loops, contracted callees)."""
from .values import *
from .values import z3, V
from .engine import Raise, ExcV, Known


def install(eng, st, sec_cls):
    tr = eng.alloc(st, ListCell(()))
    st.ghost["tree"] = tr.addr
    eng.loop_roles[tr.addr] = "tree"
    B = z3.BoolSort()

    def split(e, s):
        """(version term, recent concrete operations)"""
        segs = e.norm_segs(s, s.heap[s.ghost["tree"]].segs)
        recent = ()
        if segs and isinstance(segs[-1], Known):
            vals = list(segs[-1].vals)
            i = len(vals)
            while i and vals[i - 1].items[0].v in ("set", "del"):
                i -= 1
            recent = tuple(vals[i:])
            segs = segs[:-1] + ((Known(tuple(vals[:i])),) if i else ())
        return e.reify_segs(s, segs, "tree"), recent

    def push(e, s, *items):
        c = s.heap[s.ghost["tree"]]
        s.heap[s.ghost["tree"]] = ListCell(c.segs + (Known((Tup(tuple(items)),)),), "list")

    def lookup(e, s, d, k):
        """yield (state, section or None)"""
        ver, recent = split(e, s)
        dt, kt = d.t, e.reify(s, k)

        def rec(i, s):
            if i < 0:
                has = e.ufV("tree.has", ver, dt, kt, res=B)
                for s1, b in e.branch(s, has):
                    yield s1, SVal(e.ufV("tree.at", dt, kt), ("sec",)) if b else None
                return
            op = recent[i].items
            same = z3.And(op[1].t == dt, e.reify(s, op[2]) == kt)
            for s1, b in e.branch(s, same):
                if b:
                    x = op[3] if op[0].v == "set" else None
                    if isinstance(x, Tup):
                        # a section stored in an earlier iteration, named by its place: sound if the place was free
                        if i > 0 or e.prover.valid(s1.pc, z3.Not(e.ufV("tree.has", ver, dt, kt, res=B))) != "valid":
                            raise Unsupported("a section that replaces another one is read back in a loop")
                        x = SVal(e.ufV("tree.at", dt, kt), ("sec",))
                    yield s1, x
                else:
                    yield from rec(i - 1, s1)
        yield from rec(len(recent) - 1, s)

    def get(e, s, v, a, kw):
        for s1, r in lookup(e, s, v, a[0]):
            yield s1, r if r is not None else (a[1] if len(a) > 1 else Conc(None))

    def getitem(e, s, v, k):
        for s1, r in lookup(e, s, v, k):
            yield s1, r if r is not None else Raise(ExcV(KeyError))

    def contains(e, s, v, x):
        ver, recent = split(e, s)
        dt, kt = v.t, e.reify(s, x)
        t = e.ufV("tree.has", ver, dt, kt, res=B)
        for op in recent:
            op = op.items
            t = z3.If(z3.And(op[1].t == dt, e.reify(s, op[2]) == kt), z3.BoolVal(op[0].v == "set"), t)
        return t

    def sub_loc(e, d, k, s):
        return e.ufV("tree.subs", e.ufV("tree.at", d.t, e.reify(s, k)))

    def setitem(e, s, v, k, x):
        if isinstance(x, Ref) and isinstance(s.heap[x.addr], ObjCell):
            c = s.heap[x.addr]
            sub = c.attrs.get("subsections")
            if isinstance(sub, Ref) and isinstance(s.heap[sub.addr], DictCell) and s.heap[sub.addr].loc is None:
                dc = s.heap[sub.addr]
                s.heap[sub.addr] = DictCell(dc.segs, dc.cls, sub_loc(e, v, k, s))
            if s.ghost.get("_active"):
                frozen = Tup((Conc(c.cls),) + tuple(Tup((Conc(n), frz(e, s, y))) for n, y in sorted(c.attrs.items())))
                s.heap[x.addr] = ObjCell(c.cls, {**c.attrs, "__stored__": Conc(True)})
                push(e, s, Conc("set"), v, k, frozen)
                yield s, None
                return
        push(e, s, Conc("set"), v, k, x)
        yield s, None

    def frz(e, s, y):
        if isinstance(y, Ref):
            c = s.heap[y.addr]
            if isinstance(c, DictCell) and not c.segs and c.loc is not None:
                return Tup((Conc("fresh dict at"), SVal(c.loc)))
            raise Unsupported("stored section refers to heap values")
        return y

    def delitem(e, s, v, k):
        for s1, r in lookup(e, s, v, k):
            if r is None:
                yield s1, ("raise", ExcV(KeyError))
            else:
                push(e, s1, Conc("del"), v, k)
                yield s1, None

    def pop(e, s, v, a, kw):
        for s1, r in lookup(e, s, v, a[0]):
            if r is None:
                yield s1, a[1] if len(a) > 1 else Raise(ExcV(KeyError))
            else:
                push(e, s1, Conc("del"), v, a[0])
                yield s1, r

    def setdefault(e, s, v, a, kw):
        for s1, r in lookup(e, s, v, a[0]):
            if r is not None:
                yield s1, r
            else:
                for s2, _ in setitem(e, s1, v, a[0], a[1]):
                    yield s2, a[1]

    def nonempty(e, s, v):
        return e.ufV("tree.nonempty", split(e, s)[0], v.t, res=B)

    def eq(e, s, a, b):
        ver, _ = split(e, s)
        x, y = e.reify(s, a), e.reify(s, b)
        return z3.Or(x == y, e.ufV("tree.dict_eq", ver, x, y, res=B), e.ufV("tree.dict_eq", ver, y, x, res=B))

    def sec_attr(e, s, v, name):
        if name == "subsections":
            return iter([(s, SVal(e.ufV("tree.subs", v.t), ("sdict",)))])
        ty = {"title": "str", "content": "str", "visible": "bool", "folded": "bool"}.get(name)
        if ty is None:
            k, d = e.find_in_mro(sec_cls, name)
            if k is not None:
                return e.bind_descr(s, k, d, v, name)
            return iter([(s, Raise(ExcV(AttributeError)))])
        return iter([(s, e.typed(e.ufV(f"sec.{name}", split(e, s)[0], v.t), ty, s))])

    def sec_setattr(e, s, v, name, x):
        push(e, s, Conc("setattr"), v, Conc(name), x)
        yield s, None

    o = eng.attr_overrides
    o[("sdict", "get()")] = get
    o[("sdict", "pop()")] = pop
    o[("sdict", "setdefault()")] = setdefault
    o[("sdict", "__getitem__")] = getitem
    o[("sdict", "__setitem__")] = setitem
    o[("sdict", "__delitem__")] = delitem
    o[("sdict", "__contains__")] = contains
    o[("sdict", "__bool__")] = nonempty
    o[("sdict", "__eq__")] = eq
    o[("sec", None)] = sec_attr
    o[("sec", "__setattr__")] = sec_setattr
    o[("sec", "__bool__")] = lambda e, s, v: TRUE
    eng.tree_split, eng.tree_push = split, push


def trace(s):
    return Ref(s.ghost["tree"])
