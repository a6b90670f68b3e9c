"""Trusted contracts of builtins and library functions (assumptions, reported in evidence)."""
from __future__ import annotations
import builtins, contextlib, functools, importlib, inspect, io, json, os, types
from .values import *
from .values import z3, V
from .engine import Raise, ExcV, StarArgs, CtxCall, _name, _zs, Closure, BoundM

PURE_STR = {"replace": "str", "strip": "str", "lstrip": "str", "rstrip": "str", "lower": "str", "upper": "str",
            "title": "str", "capitalize": "str", "startswith": "bool", "endswith": "bool", "split": ("list", "str"),
            "rsplit": ("list", "str"), "splitlines": ("list", "str"), "join": "str", "format": "str", "count": "int",
            "find": "int", "index": "int", "isidentifier": "bool", "isdigit": "bool", "rpartition": None, "partition": None,
            "encode": None, "zfill": "str", "ljust": "str", "rjust": "str", "center": "str", "removeprefix": "str", "removesuffix": "str",
            "expandtabs": "str", "translate": "str", "isspace": "bool", "decode": "str", "casefold": "str", "isalpha": "bool"}


def kw_terms(eng, st, kwargs):
    out = []
    for k in sorted(kwargs):
        if k == "**":
            raise Unsupported("symbolic keywords to an external")
        out += [z3.StringVal(k), eng.reify(st, kwargs[k])]
    return out


def all_conc(args, kwargs=()):
    return all(isinstance(a, Conc) for a in args) and all(isinstance(kwargs[k], Conc) for k in kwargs)


def pure(name, ty=None):
    """deterministic function of its arguments, no effects, no exception"""
    def h(eng, st, args, kwargs):
        t = eng.ufV(f"ext.{name}/{len(args)}", *([eng.reify(st, a) for a in args] + kw_terms(eng, st, kwargs)))
        yield st, eng.typed(t, ty, st)
    return h


def pure_raising(name, ty=None, exc=Exception):
    def h(eng, st, args, kwargs):
        ts = [eng.reify(st, a) for a in args] + kw_terms(eng, st, kwargs)
        bad = eng.ufV(f"ext.{name}/{len(args)}.raises", *ts, res=z3.BoolSort())
        for s, b in eng.branch(st, bad):
            if b:
                yield s, Raise(ExcV(exc, (), False))
            else:
                yield s, eng.typed(eng.ufV(f"ext.{name}/{len(args)}", *ts), ty, s)
    return h


def concrete_or(f, fallback):
    def h(eng, st, args, kwargs):
        if all_conc(args, kwargs) and not any(isinstance(a.v, (types.FunctionType,)) for a in args):
            try:
                r = f(*[a.v for a in args], **{k: v.v for k, v in kwargs.items()})
            except Exception as ex:
                yield st, Raise(ExcV(type(ex), (), True))
                return
            yield st, Conc(r)
            return
        yield from fallback(eng, st, args, kwargs)
    return h


# ---------------------------------------------------------------- builtins
def b_len(eng, st, args, kwargs):
    v = args[0]
    t = eng.as_tuple(v)
    if t is not None:
        yield st, Conc(len(t)); return
    if isinstance(v, Conc):
        try:
            yield st, Conc(len(v.v))
        except TypeError:
            yield st, Raise(ExcV(TypeError))
        return
    if isinstance(v, SStr):
        yield st, SInt(z3.Length(v.t)); return
    if isinstance(v, Ref):
        c = st.heap[v.addr]
        if isinstance(c, ObjCell):
            k, d = eng.find_in_mro(c.cls, "__len__")
            if k is None:
                yield st, Raise(ExcV(TypeError)); return
            yield from eng.call(st, Conc(d), [v], {}); return
        segs = eng.norm_segs(st, c.segs if isinstance(c, ListCell) else eng.dict_to_segs(c))
        if not segs:
            yield st, Conc(0); return
        if isinstance(c, ListCell) and c.kind == "set" or isinstance(c, DictCell):
            if len(segs) == 1 and isinstance(segs[0], Known) and len(segs[0].vals) == 1:
                yield st, Conc(1); return
        elif all(isinstance(s, Known) for s in segs):
            yield st, Conc(sum(len(s.vals) for s in segs)); return
        if len(segs) == 1 and isinstance(segs[0], SeqVar):
            st.assume(segs[0].len >= 0)
            eng.len_src[segs[0].len.get_id()] = segs[0]
            yield st, SInt(segs[0].len); return
        if len(segs) == 1 and isinstance(segs[0], SeqFlat) and segs[0].src.len is not None and not (isinstance(c, ListCell) and c.kind == "set") and all(len(x) == 1 and isinstance(x[0], Known) and len(x[0].vals) == 1 for _, x in segs[0].cases) and eng.total_cases(st, segs[0]):
            st.assume(segs[0].src.len >= 0)
            eng.len_src[segs[0].src.len.get_id()] = segs[0].src
            yield st, SInt(segs[0].src.len); return
        t = eng.reify_segs(st, segs, "set" if isinstance(c, ListCell) and c.kind == "set" else "list")
        n = eng.ufV("len", t, res=z3.IntSort())
        st.assume(n >= (1 if any(isinstance(s, Known) for s in segs) else 0))
        yield st, SInt(n); return
    if isinstance(v, SVal):
        if v.tag == "json":
            ok = eng.ufV("haslen", v.t, res=z3.BoolSort())
            for s, b in eng.branch(st, ok):
                if b:
                    n = eng.ufV("len", v.t, res=z3.IntSort())
                    s.assume(n >= 0)
                    yield s, SInt(n)
                else:
                    yield s, Raise(ExcV(TypeError))
            return
        n = eng.ufV("len", v.t, res=z3.IntSort())
        st.assume(n >= 0)
        yield st, SInt(n); return
    raise Unsupported(f"len({v!r})")


def type_of(eng, st, v):
    """live class of a value when known, else None"""
    if isinstance(v, Conc):
        return type(v.v)
    if isinstance(v, SStr): return str
    if isinstance(v, SInt): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, Tup): return tuple
    if isinstance(v, ExcV): return v.cls if v.exact else None
    if isinstance(v, Ref):
        c = st.heap[v.addr]
        if isinstance(c, ObjCell): return c.cls
        if isinstance(c, DictCell): return c.cls
        return {"list": list, "set": set, "tuple": tuple}.get(c.kind)
    if isinstance(v, (Closure, BoundM)): return types.FunctionType if isinstance(v, Closure) else types.MethodType
    if isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] in ("list", "dict", "set", "stateof"):
        return {"list": list, "dict": dict, "set": set, "stateof": dict}[v.tag[0]]
    if isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "is":
        return v.tag[1]
    return None


PRIM = {"none": (type(None),), "B": (bool,), "I": (int,), "S": (str,)}


def isinstance_term(eng, st, v, cls):
    """z3 Bool for isinstance(v, cls) for a live class"""
    k = type_of(eng, st, v)
    if k is not None:
        try:
            return z3.BoolVal(isinstance(v.v, cls) if isinstance(v, Conc) else issubclass(k, cls))
        except TypeError:
            raise Unsupported("isinstance")
    if isinstance(v, SVal):
        if isinstance(v.tag, tuple) and v.tag[0] == "inst":
            sch = eng.schemas[v.tag[1]]
            if sch.cls is not None:
                if issubclass(sch.cls, cls):
                    return TRUE
                if not issubclass(cls, sch.cls):
                    return eng.ufV(f"isinst.{cls.__name__}", v.t, res=z3.BoolSort()) if not isinstance(cls, type) or not getattr(sch, "exact", False) else FALSE
            return eng.ufV(f"isinst.{cls.__name__}", v.t, res=z3.BoolSort())
        t = v.t
        tag0 = v.tag[0] if isinstance(v.tag, tuple) else None
        if tag0 == "path" and not V.is_S(t).eq(TRUE):
            import pathlib
            if cls is str: return eng.ufV("is_str_path", t, res=z3.BoolSort())
            if issubclass(cls, pathlib.PurePath) or cls is os.PathLike: return z3.Not(eng.ufV("is_str_path", t, res=z3.BoolSort()))
            return FALSE
        if tag0 == "node":
            if not isinstance(cls, type): raise Unsupported("isinstance of a node")
            if cls.__module__.endswith("skops.io._audit") and cls.__name__ == "Node" or cls is object: return TRUE
            return eng.ufV(f"isinst.{cls.__name__}", t, res=z3.BoolSort()) if cls.__module__.startswith("skops.io") else FALSE
        if tag0 in ("file", "bytesio", "bytes", "zip"):
            return FALSE if cls in (str, int, dict, list, tuple) or hasattr(cls, "__fspath__") else eng.ufV(f"isinst.{cls.__name__}", t, res=z3.BoolSort())
        parts = []
        if issubclass(type(None), cls): parts.append(V.is_none(t))
        if issubclass(bool, cls): parts.append(V.is_B(t))
        if issubclass(int, cls): parts.append(V.is_I(t))
        if issubclass(str, cls): parts.append(V.is_S(t))
        o = z3.And(V.is_O(t), eng.ufV(f"isinst.{cls.__module__}.{cls.__qualname__}", t, res=z3.BoolSort()))
        if v.tag == "json" and cls not in (dict, list, float, object) and not issubclass(dict, cls) and not issubclass(list, cls):
            return z3.Or(*parts) if parts else FALSE
        parts.append(o)
        return z3.Or(*parts)
    raise Unsupported(f"isinstance({v!r})")


def b_isinstance(eng, st, args, kwargs):
    v, c = args
    cs = eng.as_tuple(c)
    cs = [c] if cs is None else cs
    out = []
    for k in cs:
        if isinstance(k, Conc) and isinstance(k.v, tuple):
            out += [isinstance_term(eng, st, v, x) for x in k.v]
        elif isinstance(k, Conc) and isinstance(k.v, (type, types.UnionType)):
            kk = k.v.__args__ if isinstance(k.v, types.UnionType) else (k.v,)
            out += [isinstance_term(eng, st, v, x) for x in kk]
        else:
            out.append(eng.ufV("isinstV", eng.reify(st, v), eng.reify(st, k), res=z3.BoolSort()))
    yield st, eng.mkbool(z3.Or(*out) if out else FALSE)


def b_type(eng, st, args, kwargs):
    if len(args) != 1:
        yield from eng.unknown_call(st, Conc(type), args, kwargs); return
    k = type_of(eng, st, args[0])
    if k is not None:
        yield st, Conc(k); return
    yield st, SVal(eng.ufV("class_of", eng.reify(st, args[0])), ("class",))


def mk_coll(kind):
    def h(eng, st, args, kwargs):
        if not args:
            if kind == "tuple":
                yield st, Tup(()); return
            yield st, eng.new_list(st, (), kind); return
        for s, segs in eng.iterate(st, args[0]):
            if isinstance(segs, Raise):
                yield s, segs; continue
            segs = eng.norm_segs(s, segs)
            if kind == "tuple" and all(isinstance(x, Known) for x in segs):
                yield s, Tup(segs[0].vals if segs else ()); continue
            yield s, eng.alloc(s, ListCell(segs, kind))
    return h


def b_dict(eng, st, args, kwargs):
    segs = []
    if args:
        a = args[0]
        if isinstance(a, Ref) and isinstance(st.heap[a.addr], DictCell) or isinstance(a, Conc) and isinstance(a.v, dict) or isinstance(a, SVal) and isinstance(a.tag, tuple) and a.tag[0] == "dict":
            segs = list(eng.dict_segs(st, a))
        else:
            for s in eng.norm_segs(st, eng.iter_segs(st, a)):
                if isinstance(s, Known):
                    for p in s.vals:
                        t = eng.as_tuple(p)
                        if t is None or len(t) != 2: raise Unsupported("dict(pairs)")
                        segs.append(("k", t[0], t[1]))
                else:
                    segs.append(("s", s))
    for k, v in kwargs.items():
        if k == "**": segs += v
        else: segs.append(("k", Conc(k), v))
    yield st, eng.alloc(st, DictCell(tuple(segs)))


def zip_segs(eng, st, seqs):
    if all(all(isinstance(x, Known) for x in s) for s in seqs):
        vs = [s[0].vals if s else () for s in seqs]
        return (Known(tuple(Tup(t) for t in zip(*vs))),)
    def src_of(s):
        if len(s) != 1: return None
        s = s[0]
        if isinstance(s, SeqVar): return s, s.at
        if isinstance(s, SeqFlat) and len(s.cases) == 1 and len(s.cases[0][1]) == 1 and isinstance(s.cases[0][1][0], Known) and len(s.cases[0][1][0].vals) == 1 and eng.total_cases(st, s):
            v = s.cases[0][1][0].vals[0]
            return s.src, (lambda i, v=v, s=s: v if s.idx.eq(i) else eng.subst_val(v, [(s.idx, i)]))
        return None
    xs = [src_of(s) for s in seqs]
    if all(x is not None for x in xs) and all(x[0].key == xs[0][0].key for x in xs):
        b = xs[0][0]
        idx = eng.idx_const(b.key, 0)
        return (SeqFlat(b, idx, ((TRUE, (Known((Tup(tuple(x[1](idx) for x in xs)),)),)),)),)
    ts = [eng.reify_segs(st, s, "list") for s in seqs]
    etys = [eng.elem_ty(st, s) for s in seqs]
    z = eng.ufV("zip", *ts)
    def elem(i, x, t, e):
        if x is not None:
            v = x[1](i)
            if any(isinstance(w, SVal) and isinstance(w.tag, tuple) and w.tag[0] == "node" for w in (v.items if isinstance(v, Tup) else (v,))):
                return v
        return eng.typed(eng.ufV("at", t, i), e)
    def at(i):
        return Tup(tuple(elem(i, x, t, e) for x, t, e in zip(xs, ts, etys)))
    n = eng.ufV("len", ts[0], res=z3.IntSort())
    for t in ts[1:]:
        m = eng.ufV("len", t, res=z3.IntSort())
        n = z3.If(m < n, m, n)
    return (SeqVar(str(z), z, at, n, "zip"),)


def _protos(segs):
    """one representative per kind of element"""
    for x in segs:
        if isinstance(x, Known): yield from x.vals
        elif isinstance(x, SeqVar): yield x.at(z3.Int("i@proto"))
        elif isinstance(x, SeqFlat):
            for _, c in x.cases: yield from _protos(c)
        else: yield None


def b_zip(eng, st, args, kwargs):
    if len(args) == 1 and isinstance(args[0], StarArgs):
        segs = eng.norm_segs(st, args[0].segs)
        w = {len(v.items) if isinstance(v, Tup) else None for v in _protos(segs)}
        if len(w) == 1 and None not in w and eng.prover.valid(st.pc, eng.segs_nonempty(st, segs)) == "valid":
            n = w.pop()
            rows = [eng.alloc(st, ListCell(tuple(eng.map_seg(x, lambda t, i=i: t.items[i]) for x in segs))) for i in range(n)]
            yield st, eng.new_list(st, rows); return
    if any(isinstance(a, StarArgs) for a in args):
        t = eng.ufV("zipstar", *[eng.reify_segs(st, a.segs, "list") if isinstance(a, StarArgs) else eng.reify(st, a) for a in args])
        yield st, SVal(t, ("list", ("list", None))); return
    seqs = []
    for a in args:
        rs = list(eng.iterate(st, a))
        if len(rs) != 1 or isinstance(rs[0][1], Raise): raise Unsupported("zip")
        seqs.append(eng.norm_segs(st, rs[0][1]))
    yield st, eng.alloc(st, ListCell(zip_segs(eng, st, seqs)))


def b_enumerate(eng, st, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", Conc(0))
    if eng.int_of(start) is None and isinstance(start, SVal):
        for s, b in eng.branch(st, V.is_I(start.t)):
            if b: yield from b_enumerate(eng, s, [args[0], SInt(V.i(start.t))], {})
            else: yield s, Raise(ExcV(TypeError))
        return
    for s, segs in eng.iterate(st, args[0]):
        if isinstance(segs, Raise): yield s, segs
        else: yield from _enumerate(eng, s, eng.norm_segs(s, segs), start)


def _enumerate(eng, st, segs, start):
    if all(isinstance(x, Known) for x in segs) and isinstance(start, Conc):
        vals = segs[0].vals if segs else ()
        yield st, eng.new_list(st, [Tup((Conc(i + start.v), v)) for i, v in enumerate(vals)]); return
    if len(segs) == 1 and isinstance(segs[0], SeqVar):
        s0 = segs[0]
        off = eng.int_of(start)
        at = lambda i: Tup((SInt(i + off), s0.at(i)))
        yield st, eng.alloc(st, ListCell((SeqVar(s0.key, s0.term, at, s0.len, f"enum{off}"),))); return
    if len(segs) == 1 and isinstance(segs[0], SeqFlat) and len(segs[0].cases) == 1:
        cond, body = segs[0].cases[0]
        if z3.is_true(z3.simplify(cond)) and len(body) == 1 and isinstance(body[0], Known) and len(body[0].vals) == 1:
            # one item for each of the source: the positions are the same
            new = Known((Tup((SInt(segs[0].idx + eng.int_of(start)), body[0].vals[0])),))
            yield st, eng.alloc(st, ListCell((SeqFlat(segs[0].src, segs[0].idx, ((cond, (new,)),)),))); return
    t = eng.reify_segs(st, segs, "list")
    ety = eng.elem_ty(st, segs)
    off = eng.int_of(start)
    yield st, eng.alloc(st, ListCell((SeqVar(f"enum({t})", t, lambda i: Tup((SInt(i + off), eng.typed(eng.ufV("at", t, i), ety))), eng.ufV("len", t, res=z3.IntSort()), "enum"),)))


def mappable(seg):
    return isinstance(seg, (Known, SeqVar)) or isinstance(seg, SeqFlat) and all(mappable(x) for _, c in seg.cases for x in c)


def b_quant(isall):
    def h(eng, st, args, kwargs):
        for s, segs in eng.iterate(st, args[0]):
            if isinstance(segs, Raise):
                yield s, segs; continue
            ts = []
            for seg in eng.norm_segs(s, segs):
                if isinstance(seg, Known):
                    ts += [eng.truth(s, v) for v in seg.vals]
                else:
                    # any(c) is not all(not c), of the truth values of the items
                    try:
                        if not mappable(seg):
                            raise Unsupported("quantifier")
                        seg = eng.map_seg(seg, lambda v: SBool(z3.simplify(eng.truth(s, v) if isall else z3.Not(eng.truth(s, v)))))
                    except Unsupported:
                        ts.append(eng.ufV("all" if isall else "any", eng.reify_segs(s, (seg,), "list"), res=z3.BoolSort()))
                        continue
                    t = eng.ufV("all", eng.reify_segs(s, (seg,), "list"), res=z3.BoolSort())
                    ts.append(t if isall else z3.Not(t))
            yield s, eng.mkbool(z3.And(*ts) if isall else z3.Or(*ts)) if ts else Conc(isall)
    return h


def b_sorted(eng, st, args, kwargs):
    a = args[0]
    for s, segs in eng.iterate(st, a):
        if isinstance(segs, Raise):
            yield s, segs; continue
        segs = eng.norm_segs(s, segs)
        if all(isinstance(x, Known) for x in segs) and sum(len(x.vals) for x in segs) <= 1:
            yield s, eng.alloc(s, ListCell(segs)); continue
        if all(isinstance(x, Known) and all(isinstance(v, Conc) for v in x.vals) for x in segs) and not kwargs:
            yield s, eng.new_list(s, [Conc(x) for x in sorted(v.v for y in segs for v in y.vals)]); continue
        kind = st.heap[a.addr].kind if isinstance(a, Ref) and isinstance(st.heap[a.addr], ListCell) else "list"
        t = eng.reify_segs(s, segs, "set" if kind == "set" else "list")
        yield s, SVal(eng.ufV("sorted", t, *kw_terms(eng, s, kwargs)), ("list", eng.elem_ty(s, segs)))


def b_str(eng, st, args, kwargs):
    if not args:
        yield st, Conc(""); return
    v = args[0]
    if isinstance(v, Conc) and isinstance(v.v, (str, int, float, bool, type(None))):
        yield st, Conc(str(v.v)); return
    if isinstance(v, SStr) or isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "path":
        yield st, v; return
    t = eng.to_str(st, v)
    yield st, SStr(t)


def b_repr(eng, st, args, kwargs):
    yield st, SStr(eng.to_str(st, args[0], "repr"))


def b_int(eng, st, args, kwargs):
    if not args:
        yield st, Conc(0); return
    v = args[0]
    if isinstance(v, Conc):
        try:
            yield st, Conc(int(v.v))
        except Exception as ex:
            yield st, Raise(ExcV(type(ex)))
        return
    if isinstance(v, SInt):
        yield st, v; return
    if isinstance(v, SBool):
        yield st, SInt(z3.If(v.t, 1, 0)); return
    yield from pure_raising("int", "int", (ValueError))(eng, st, args, kwargs)


def b_bool(eng, st, args, kwargs):
    yield st, (eng.mkbool(eng.truth(st, args[0])) if args else Conc(False))


def b_hasattr(eng, st, args, kwargs):
    o, n = args
    if isinstance(n, Conc):
        if isinstance(o, Conc):
            yield st, Conc(hasattr(o.v, n.v)); return
        if isinstance(o, Ref) and isinstance(st.heap[o.addr], ObjCell):
            c = st.heap[o.addr]
            yield st, Conc(n.v in c.attrs or eng.find_in_mro(c.cls, n.v)[0] is not None); return
        if isinstance(o, SVal) and isinstance(o.tag, tuple) and o.tag[0] == "is":
            yield st, Conc(len(o.tag) > 2 and n.v in o.tag[2] or eng.find_in_mro(o.tag[1], n.v)[0] is not None); return
    eng.event(st, "hasattr", obj=o, name=n)
    yield st, SBool(eng.ufV("hasattr", eng.reify(st, o), eng.reify(st, n), res=z3.BoolSort()))


def b_getattr(eng, st, args, kwargs):
    o, n = args[0], args[1]
    if isinstance(n, Conc) and isinstance(n.v, str):
        for s, v in eng.getattr(st, o, n.v):
            if isinstance(v, Raise) and len(args) > 2 and issubclass(v.exc.cls, AttributeError):
                yield s, args[2]
            else:
                yield s, v
        return
    eng.event(st, "getattr_dyn", obj=o, name=n)
    s2 = st.fork()
    if len(args) > 2:
        yield s2, args[2]
    else:
        yield s2, Raise(ExcV(AttributeError))
    yield st, SVal(eng.ufV("getattr", eng.reify(st, o), eng.reify(st, n)), ("getattr", o, n))


def b_setattr(eng, st, args, kwargs):
    o, n, v = args
    if isinstance(n, Conc):
        for s, out in eng.setattr(st, o, n.v, v):
            yield s, Conc(None) if out is None else Raise(out[1])
        return
    eng.event(st, "setattr_dyn", obj=o, name=n, value=v)
    if isinstance(o, Ref) and isinstance(st.heap[o.addr], ListCell):
        yield st, Raise(ExcV(AttributeError))
        return
    if isinstance(o, Ref): raise Unsupported("setattr with symbolic name on a tracked object")
    yield st, Conc(None)


def b_next(eng, st, args, kwargs):
    segs = eng.norm_segs(st, eng.iter_segs(st, args[0]))
    if segs and isinstance(segs[0], Known):
        yield st, segs[0].vals[0]; return
    if not segs:
        yield st, args[1] if len(args) > 1 else Raise(ExcV(StopIteration)); return
    s2 = st.fork()
    yield s2, args[1] if len(args) > 1 else Raise(ExcV(StopIteration))
    t = eng.reify_segs(st, segs, "list")
    if isinstance(segs[0], SeqVar):
        st.assume(segs[0].len > 0)
        yield st, segs[0].at(z3.IntVal(0)); return
    yield st, SVal(eng.ufV("at", t, z3.IntVal(0)))


def b_iter(eng, st, args, kwargs):
    if len(args) > 1: raise Unsupported("iter(callable)")
    yield st, args[0]


def b_map(eng, st, args, kwargs):
    f, xs = args[0], args[1:]
    if len(xs) != 1: raise Unsupported("map n-ary")
    acc = eng.alloc(st, ListCell(()))
    def body(s, elem):
        for s2, v in eng.call(s, f, [elem], {}):
            if isinstance(v, Raise):
                yield s2, ("raise", v.exc); continue
            c = s2.heap[acc.addr]
            s2.heap[acc.addr] = ListCell(c.segs + (Known((v,)),), c.kind)
            yield s2, None
    for s, segs in eng.iterate(st, xs[0]):
        if isinstance(segs, Raise):
            yield s, segs; continue
        for s2, o in eng.loop(s, segs, body):
            yield s2, acc if o is None else Raise(o[1])


def b_filter(eng, st, args, kwargs):
    f, xs = args
    acc = eng.alloc(st, ListCell(()))
    def body(s, elem):
        rs = [(s, elem)] if isinstance(f, Conc) and f.v in (None, bool) else eng.call(s, f, [elem], {})
        for s2, v in rs:
            if isinstance(v, Raise):
                yield s2, ("raise", v.exc); continue
            for s3, b in eng.branch(s2, eng.truth(s2, v)):
                if b:
                    c = s3.heap[acc.addr]
                    s3.heap[acc.addr] = ListCell(c.segs + (Known((elem,)),), c.kind)
                yield s3, None
    for s, segs in eng.iterate(st, xs):
        if isinstance(segs, Raise):
            yield s, segs; continue
        for s2, o in eng.loop(s, segs, body):
            yield s2, acc if o is None else Raise(o[1])


def b_range(eng, st, args, kwargs):
    if all_conc(args):
        yield st, Conc(range(*[a.v for a in args])); return
    lo = z3.IntVal(0) if len(args) == 1 else eng.int_of(args[0])
    hi = eng.int_of(args[-1] if len(args) < 3 else args[1])
    if hi is None or lo is None or len(args) == 3: raise Unsupported("range")
    src = eng.len_src.get(hi.get_id()) if len(args) == 1 else None
    if src is not None:
        idx = eng.idx_const(src.key, 0)
        yield st, eng.alloc(st, ListCell((SeqFlat(src, idx, ((TRUE, (Known((SInt(idx),)),)),)),))); return
    t = eng.ufV("range", V.I(lo), V.I(hi))
    st.assume(eng.ufV("len", t, res=z3.IntSort()) == z3.If(hi > lo, hi - lo, 0))
    yield st, eng.alloc(st, ListCell((SeqVar(str(t), t, lambda i: SInt(lo + i), eng.ufV("len", t, res=z3.IntSort()), "range"),)))


def b_print(eng, st, args, kwargs):
    eng.event(st, "print", args=args, kwargs=kwargs)
    yield st, Conc(None)


def b_id(eng, st, args, kwargs):
    yield st, SInt(eng.ufV("id", eng.reify(st, args[0]), res=z3.IntSort()))


def b_open(eng, st, args, kwargs):
    eng.event(st, "open", args=args, kwargs=kwargs)
    if getattr(eng.policy, "may_raise", False):
        yield st.fork(), Raise(ExcV(OSError, (), False))
    yield st, SVal(z3.Const(eng.fresh("file"), V), ("file", args[0]))


def b_minmax(name):
    def h(eng, st, args, kwargs):
        if len(args) == 2 and not kwargs:
            x, y = eng.int_of(args[0]), eng.int_of(args[1])
            if x is not None and y is not None:
                c = x >= y if name == "max" else x <= y
                yield st, SInt(z3.If(c, x, y)); return
        yield from pure_raising(name)(eng, st, args, kwargs)
    return h


def b_reversed(eng, st, args, kwargs):
    segs = eng.norm_segs(st, eng.iter_segs(st, args[0]))
    if all(isinstance(x, Known) for x in segs):
        yield st, eng.new_list(st, (segs[0].vals[::-1] if segs else ())); return
    t = eng.reify_segs(st, segs, "list")
    yield st, SVal(eng.ufV("reversed", t), ("list", eng.elem_ty(st, segs)))


def b_callable(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Conc): yield st, Conc(callable(v.v)); return
    if isinstance(v, (Closure, BoundM)): yield st, Conc(True); return
    yield st, SBool(eng.ufV("callable", eng.reify(st, v), res=z3.BoolSort()))


def b_super(eng, st, args, kwargs):
    yield st, SuperV(args[0].v, args[1])


def b_object_new(eng, st, args, kwargs):
    yield st, eng.alloc(st, ObjCell(args[0].v, {})) if isinstance(args[0], Conc) else SVal(z3.Const(eng.fresh("new"), V))


def install(eng):
    e = eng.ext
    eng.ext_tags = {"attr", "ret", "file", "path", "class", "zip", "new", "getattr", "item_of", "live", None, "pure", "bytes", "bytesio", "obj"}
    e[len] = b_len
    e[isinstance] = b_isinstance
    e[issubclass] = concrete_or(issubclass, pure("issubclass", "bool"))
    e[type] = b_type
    e[list] = mk_coll("list"); e[tuple] = mk_coll("tuple"); e[set] = mk_coll("set"); e[frozenset] = mk_coll("frozenset")
    e[dict] = b_dict
    e[zip] = b_zip; e[enumerate] = b_enumerate
    e[all] = b_quant(True); e[any] = b_quant(False)
    e[sorted] = b_sorted; e[str] = b_str; e[repr] = b_repr; e[int] = b_int; e[bool] = b_bool
    e[float] = concrete_or(float, pure_raising("float"))
    e[hasattr] = b_hasattr; e[getattr] = b_getattr; e[setattr] = b_setattr
    e[next] = b_next; e[iter] = b_iter; e[map] = b_map; e[filter] = b_filter; e[range] = b_range
    e[print] = b_print; e[id] = b_id; e[open] = b_open; e[io.open] = b_open
    e[max] = b_minmax("max"); e[min] = b_minmax("min"); e[sum] = pure_raising("sum")
    e[reversed] = b_reversed; e[callable] = b_callable; e[super] = b_super
    e[object.__new__] = b_object_new
    e[json.dumps] = pure_raising("json.dumps", "str")
    e[json.loads] = pure_raising("json.loads", "json", ValueError)
    e[vars] = pure("vars", ("dict", "str", None))
    e[abs] = pure("abs"); e[ord] = concrete_or(ord, pure("ord", "int")); e[chr] = concrete_or(chr, pure("chr", "str"))


# ----------------------------------------------------------------- methods
def unicodeless(v):
    return v


def method(eng, st, name, v, args, kwargs):
    # strings ---------------------------------------------------------------
    s = eng.str_of(v)
    if s is not None:
        if all_conc([v] + list(args), kwargs):
            try:
                r = getattr(v.v, name)(*[a.v for a in args], **{k: x.v for k, x in kwargs.items()})
                if isinstance(r, list):
                    yield st, eng.new_list(st, [Conc(x) for x in r])
                else:
                    yield st, Conc(r)
            except Exception as ex:
                yield st, Raise(ExcV(type(ex)))
            return
        if name == "startswith" and len(args) == 1 and eng.str_of(args[0]) is not None:
            yield st, eng.mkbool(z3.PrefixOf(eng.str_of(args[0]), s)); return
        if name == "endswith" and len(args) == 1 and eng.str_of(args[0]) is not None:
            yield st, eng.mkbool(z3.SuffixOf(eng.str_of(args[0]), s)); return
        if name == "format":
            yield from str_format(eng, st, v, args, kwargs); return
        if name == "join":
            yield from str_join(eng, st, v, args[0]); return
        if name in ("partition", "rpartition"):
            t = eng.ufV(f"str.{name}", V.S(s), *[eng.reify(st, a) for a in args])
            yield st, Tup(tuple(SStr(V.s(eng.ufV(f"part{i}", t))) for i in range(3))); return
        if name in PURE_STR:
            t = eng.ufV(f"str.{name}/{len(args)}", V.S(s), *([eng.reify(st, a) for a in args] + kw_terms(eng, st, kwargs)))
            if name in ("split", "rsplit"):
                if args and not (isinstance(args[0], Conc) and args[0].v is None):
                    st.assume(eng.ufV("len", t, res=z3.IntSort()) >= 1)
            if name == "encode":
                yield st, SVal(t, ("bytes",)); return
            yield st, eng.typed(t, PURE_STR[name], st); return
        yield st, Raise(ExcV(AttributeError)); return
    if isinstance(v, Ref):
        c = st.heap[v.addr]
        if isinstance(c, ListCell):
            yield from list_method(eng, st, name, v, c, args, kwargs); return
        if isinstance(c, DictCell):
            yield from dict_method(eng, st, name, v, c, args, kwargs); return
    if isinstance(v, Conc):
        x = v.v
        if isinstance(x, dict):
            if name == "get" and not isinstance(args[0], Conc):
                yield from conc_dict_get(eng, st, x, args); return
            if name == "items":
                if len(x) <= 64:
                    yield st, eng.new_list(st, [Tup((Conc(k), Conc(y))) for k, y in x.items()]); return
                yield st, eng.alloc(st, ListCell((SeqConst(list(x.items())),))); return
            if name == "keys": yield st, eng.new_list(st, [Conc(k) for k in x]); return
            if name == "values": yield st, eng.new_list(st, [Conc(k) for k in x.values()]); return
            if name == "get" and all_conc(args):
                r = x.get(args[0].v, None)
                yield st, Conc(r) if args[0].v in x or len(args) < 2 else args[1]; return
            if name == "copy":
                yield st, eng.alloc(st, DictCell(tuple(("k", Conc(k), Conc(y)) for k, y in x.items()))); return
            if name in ("update", "setdefault", "pop", "clear", "popitem"):
                eng.event(st, "live_write", obj=v, name=name, value=None)
                yield st, Conc(None); return
        if isinstance(x, (list, set)) and name in ("append", "extend", "add", "update", "insert", "remove", "pop", "clear", "sort"):
            eng.event(st, "live_write", obj=v, name=name, value=None)
            yield st, Conc(None); return
        if isinstance(x, (str, bytes, tuple, frozenset, list, set)) and all_conc(args, kwargs):
            try:
                yield st, Conc(getattr(x, name)(*[a.v for a in args], **{k: y.v for k, y in kwargs.items()}))
            except Exception as ex:
                yield st, Raise(ExcV(type(ex)))
            return
    if isinstance(v, Tup):
        if name == "index" or name == "count":
            yield st, SVal(eng.ufV(f"tup.{name}", eng.reify(st, v), *[eng.reify(st, a) for a in args])); return
    if isinstance(v, SVal):
        yield from sval_method(eng, st, name, v, args, kwargs); return
    raise Unsupported(f"method {name} of {v!r}")


def conc_dict_get(eng, st, x, args):
    default = args[1] if len(args) > 1 else Conc(None)
    if len(x) <= 64:
        cur = st
        for k in x:
            nxt = None
            for s1, b in eng.branch(cur, eng.py_eq(cur, args[0], Conc(k))):
                if b: yield s1, Conc(x[k])
                else: nxt = s1
            if nxt is None: return
            cur = nxt
        yield cur, default; return
    has = eng.mem_const(st, x, args[0])
    for s, b in eng.branch(st, has):
        if b: yield s, SVal(eng.ufV("getitem", eng.const_of(x), eng.reify(s, args[0])), ("item_of", x))
        else: yield s, default


def str_format(eng, st, v, args, kwargs):
    import string
    if isinstance(v, Conc):
        out, n = [], 0
        for lit, fld, spec, conv in string.Formatter().parse(v.v):
            if lit: out.append(z3.StringVal(_zs(lit)))
            if fld is None: continue
            if spec: raise Unsupported("format spec")
            if fld == "": a = args[n]; n += 1
            elif fld.isdigit(): a = args[int(fld)]
            elif fld in kwargs: a = kwargs[fld]
            else: raise Unsupported("format field")
            out.append(eng.to_str(st, a, "repr" if conv == "r" else "str"))
        if not out: yield st, Conc("")
        else: yield st, SStr(z3.Concat(*out) if len(out) > 1 else out[0])
        return
    t = eng.ufV("str.format", eng.reify(st, v), *([eng.reify(st, a) for a in args] + kw_terms(eng, st, kwargs)))
    yield st, SStr(V.s(t))


def str_join(eng, st, sep, xs):
    for s, segs in eng.iterate(st, xs):
        if isinstance(segs, Raise):
            yield s, segs; continue
        segs = eng.norm_segs(s, segs)
        if all(isinstance(x, Known) for x in segs):
            vals = segs[0].vals if segs else ()
            if any(eng.str_of(x) is None and not isinstance(x, SVal) for x in vals):
                yield s, Raise(ExcV(TypeError)); continue
            if all(eng.str_of(x) is not None for x in vals):
                parts = []
                for i, x in enumerate(vals):
                    if i: parts.append(eng.str_of(sep))
                    parts.append(eng.str_of(x))
                yield s, Conc("") if not parts else SStr(z3.Concat(*parts) if len(parts) > 1 else parts[0]); continue
        t = eng.reify_segs(s, segs, "list")
        yield s, SStr(V.s(eng.ufV("str.join", V.S(eng.str_of(sep)), t)))


def list_method(eng, st, name, v, c, args, kwargs):
    if name in ("append", "add"):
        st.heap[v.addr] = ListCell(c.segs + (Known((args[0],)),), c.kind)
        yield st, Conc(None)
    elif name in ("extend", "update"):
        cur = [st]
        for a in args:
            nxt = []
            for s in cur:
                for s1, segs in eng.iterate(s, a):
                    if isinstance(segs, Raise):
                        yield s1, segs; continue
                    c1 = s1.heap[v.addr]
                    s1.heap[v.addr] = ListCell(eng.norm_segs(s1, c1.segs + tuple(segs)), c1.kind)
                    nxt.append(s1)
            cur = nxt
        for s in cur:
            yield s, Conc(None)
    elif name == "copy":
        yield st, eng.alloc(st, ListCell(c.segs, c.kind))
    elif name == "union":
        segs = c.segs
        for a in args: segs = segs + tuple(eng.iter_segs(st, a))
        yield st, eng.alloc(st, ListCell(eng.norm_segs(st, segs), "set"))
    elif name == "clear":
        st.heap[v.addr] = ListCell((), c.kind)
        yield st, Conc(None)
    elif name == "pop":
        segs = eng.norm_segs(st, c.segs)
        if (not args or isinstance(args[0], Conc) and args[0].v == -1) and segs and isinstance(segs[-1], Known):
            vals = segs[-1].vals
            st.heap[v.addr] = ListCell(segs[:-1] + ((Known(vals[:-1]),) if vals[:-1] else ()), c.kind)
            yield st, vals[-1]
        elif args and isinstance(args[0], Conc) and args[0].v == 0 and segs and isinstance(segs[0], Known):
            vals = segs[0].vals
            st.heap[v.addr] = ListCell(((Known(vals[1:]),) if vals[1:] else ()) + segs[1:], c.kind)
            yield st, vals[0]
        elif not segs:
            yield st, Raise(ExcV(IndexError))
        else:
            yield st.fork(), Raise(ExcV(IndexError))
            t = eng.reify_segs(st, segs, c.kind)
            r = eng.typed(eng.ufV("pop", t, *[eng.reify(st, a) for a in args]), eng.elem_ty(st, segs))
            st.heap[v.addr] = ListCell((SeqOpaque(eng.fresh("pop")),), c.kind)
            yield st, r
    elif name in ("insert", "remove", "discard", "sort", "reverse", "difference_update"):
        st.heap[v.addr] = ListCell((SeqOpaque(eng.fresh(name)),), c.kind)
        yield st, Conc(None)
    elif name in ("index", "count"):
        yield st.fork(), Raise(ExcV(ValueError))
        yield st, SInt(eng.ufV(f"list.{name}", eng.reify(st, v), *[eng.reify(st, a) for a in args], res=z3.IntSort()))
    elif name in ("difference", "intersection"):
        a = [eng.reify_segs(st, eng.iter_segs(st, x), "set") for x in args]
        yield st, SVal(eng.ufV(f"set.{name}", eng.reify(st, v), *a), ("set", eng.elem_ty(st, c.segs)))
    elif name in ("issubset", "issuperset", "isdisjoint"):
        yield st, SBool(eng.ufV(f"set.{name}", eng.reify(st, v), *[eng.reify_segs(st, eng.iter_segs(st, x), "set") for x in args], res=z3.BoolSort()))
    else:
        yield st, Raise(ExcV(AttributeError))


def dict_merge(eng, st, v, add):
    """update with entries of unknown number: overwrites keep their position"""
    c = st.heap[v.addr]
    if not c.segs:
        st.heap[v.addr] = DictCell(tuple(add), c.cls, c.loc)
        return
    ta, tb = eng.reify(st, v), eng.reify_segs(st, eng.dict_to_segs(DictCell(tuple(add))), "dict")
    t = eng.ufV("dict.merge", ta, tb)
    n = lambda x: eng.ufV("len", x, res=z3.IntSort())
    st.assume(n(t) >= 0)
    na, nb = eng.segs_nonempty(st, eng.dict_to_segs(c)), eng.segs_nonempty(st, eng.dict_to_segs(DictCell(tuple(add))))
    st.assume((n(t) != 0) == z3.Or(na, nb))
    st.heap[v.addr] = DictCell((("s", eng.items_of(SVal(t, ("dict", "str", None)))),), c.cls, c.loc)


def dict_method(eng, st, name, v, c, args, kwargs):
    if name == "get":
        for s, r in eng.dict_get(st, v, args[0]):
            yield s, r if r is not None else (args[1] if len(args) > 1 else Conc(None))
    elif name == "items":
        yield st, eng.alloc(st, ListCell(eng.norm_segs(st, eng.dict_to_segs(c))))
    elif name == "keys":
        yield st, eng.alloc(st, ListCell(tuple(eng.map_seg(s, lambda t: t.items[0]) for s in eng.dict_to_segs(c))))
    elif name == "values":
        yield st, eng.alloc(st, ListCell(tuple(eng.map_seg(s, lambda t: t.items[1]) for s in eng.dict_to_segs(c))))
    elif name == "update":
        segs = list(c.segs)
        tmp = Ref(v.addr)
        for a in args:
            add = eng.dict_segs(st, a) if not (isinstance(a, Ref) and isinstance(st.heap[a.addr], ListCell)) else None
            if add is None: raise Unsupported("update(list)")
            for sg in add:
                if sg[0] == "k": eng.dict_set(st, tmp, sg[1], sg[2])
                else: dict_merge(eng, st, v, (sg,))
        for k, x in kwargs.items():
            if k == "**": dict_merge(eng, st, v, tuple(x))
            else: eng.dict_set(st, tmp, Conc(k), x)
        yield st, Conc(None)
    elif name == "copy":
        yield st, eng.alloc(st, DictCell(c.segs, c.cls))
    elif name == "setdefault":
        for s, r in eng.dict_get(st, v, args[0]):
            if r is None:
                d = args[1] if len(args) > 1 else Conc(None)
                eng.dict_set(s, v, args[0], d)
                yield s, d
            else:
                yield s, r
    elif name == "pop":
        for s, r in eng.dict_get(st, v, args[0]):
            if r is None:
                yield s, args[1] if len(args) > 1 else Raise(ExcV(KeyError))
            else:
                c1 = s.heap[v.addr]
                if isinstance(args[0], Conc) and all(x[0] == "k" and isinstance(x[1], Conc) for x in c1.segs):
                    s.heap[v.addr] = DictCell(tuple(x for x in c1.segs if x[1].v != args[0].v), c1.cls)
                else:
                    s.heap[v.addr] = DictCell((("s", SeqOpaque(eng.fresh("dpop"))),), c1.cls)
                yield s, r
    elif name == "clear":
        st.heap[v.addr] = DictCell((), c.cls)
        yield st, Conc(None)
    else:
        yield st, Raise(ExcV(AttributeError))


MUTATORS = ("append", "extend", "insert", "pop", "popitem", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard")


def sval_method(eng, st, name, v, args, kwargs):
    tag0 = v.tag[0] if isinstance(v.tag, tuple) else v.tag
    h = eng.attr_overrides.get((tag0, name + "()"))
    if h:
        yield from h(eng, st, v, args, kwargs); return
    if tag0 == "inst":
        sch = eng.schemas[v.tag[1]]
        ty = sch.methods[name]
        if callable(ty):
            yield from ty(eng, st, v, args, kwargs); return
        t = eng.ufV(f"m.{name}/{len(args)}", v.t, *([eng.reify(st, a) for a in args] + kw_terms(eng, st, kwargs)))
        yield st, eng.typed(t, ty, st); return
    if tag0 == "dict":
        if name == "items": yield st, eng.alloc(st, ListCell((eng.items_of(v),))); return
        if name == "values": yield st, eng.alloc(st, ListCell((eng.values_of(v),))); return
        if name == "keys": yield st, eng.alloc(st, ListCell((eng.seq_of(v),))); return
        if name == "get":
            r = eng.reify(st, args[0])
            has = eng.ufV("has", v.t, r, res=z3.BoolSort())
            for s, b in eng.branch(st, has):
                if b:
                    s.assume(eng.ufV("len", v.t, res=z3.IntSort()) > 0)
                    yield s, eng.typed(eng.ufV("val", v.t, r), v.tag[2], s)
                else:
                    yield s, args[1] if len(args) > 1 else Conc(None)
            return
        if name == "copy":
            yield st, eng.alloc(st, DictCell((("s", eng.items_of(v)),))); return
    if tag0 == "list" and name == "copy":
        yield st, eng.alloc(st, ListCell((eng.seq_of(v),))); return
    if tag0 == "list" and name in ("index", "count"):
        yield st, SInt(eng.ufV(f"list.{name}", v.t, *[eng.reify(st, a) for a in args], res=z3.IntSort())); return
    if name in MUTATORS and tag0 in ("json", "list", "dict", "set", None):
        eng.event(st, "mutate", obj=v, name=name)
        if tag0 == "json":
            # a list or dict of the document is modified, or the value has no such method
            yield st.fork(), Raise(ExcV(Exception, (), False))
            yield st, SVal(z3.Const(eng.fresh(f"ret.{name}"), V), "json")
            return
    if tag0 == "json":
        isd = eng.ufV("isinst.builtins.dict", v.t, res=z3.BoolSort())
        if name in ("items", "values", "keys", "get"):
            for s, b in eng.branch(st, z3.And(V.is_O(v.t), isd)):
                if not b:
                    yield s, Raise(ExcV(AttributeError)); continue
                if name == "items": yield s, eng.alloc(s, ListCell((eng.items_of(v),)))
                elif name == "values": yield s, eng.alloc(s, ListCell((eng.values_of(v),)))
                elif name == "keys": yield s, eng.alloc(s, ListCell((eng.seq_of(v),)))
                else:
                    r = eng.reify(s, args[0])
                    for s2, b2 in eng.branch(s, eng.ufV("has", v.t, r, res=z3.BoolSort())):
                        if b2: yield s2, SVal(eng.ufV("val", v.t, r), "json")
                        else: yield s2, args[1] if len(args) > 1 else Conc(None)
            return
        # str methods on a JSON value: AttributeError unless it is a string
        for s, b in eng.branch(st, V.is_S(v.t)):
            if b: yield from method(eng, s, name, SStr(V.s(v.t)), args, kwargs)
            else: yield s, Raise(ExcV(AttributeError))
        return
    if tag0 in (None,):
        for s, b in eng.branch(st, V.is_S(v.t)):
            if b and name in PURE_STR:
                yield from method(eng, s, name, SStr(V.s(v.t)), args, kwargs)
            else:
                yield from eng.unknown_call(s, SVal(eng.ufV(f"attr.{name}", v.t), ("attr", name, v)), args, kwargs)
        return
    yield from eng.unknown_call(st, SVal(eng.ufV(f"attr.{name}", v.t), ("attr", name, v)), args, kwargs)


# --------------------------------------------------------------- with
def with_external(eng, st, cm, target, inner):
    """External context manager: enter event, body, exit event; does not swallow exceptions
    (contextlib.suppress is the exception)."""
    suppress = None
    if isinstance(cm, SVal) and isinstance(cm.tag, tuple) and cm.tag[0] == "ret" and isinstance(cm.tag[1], Conc) and cm.tag[1].v is contextlib.suppress:
        suppress = True
    eng.event(st, "with_enter", cm=cm)
    val = cm
    h = eng.attr_overrides.get(("with", (cm.tag[0] if isinstance(cm, SVal) and isinstance(cm.tag, tuple) else None)))
    if h:
        val = h(eng, st, cm)
    its = eng.assign(target, val, st) if target is not None else [(st, None)]
    for s, o in its:
        if o:
            yield s, o; continue
        for s2, o2 in inner(s):
            eng.event(s2, "with_exit", cm=cm, outcome=o2)
            hx = eng.attr_overrides.get(("with_exit", (cm.tag[0] if isinstance(cm, SVal) and isinstance(cm.tag, tuple) else None)))
            if hx:
                for s3, r in hx(eng, s2, cm, o2):
                    yield s3, (("raise", r.exc) if isinstance(r, Raise) else o2)
                continue
            if getattr(eng.policy, "may_raise", False) and getattr(eng.policy, "exit_raises", lambda *a: False)(cm):
                yield s2.fork(), ("raise", ExcV(OSError, (), False))
            if suppress and o2 is not None and o2[0] == "raise":
                yield s2.fork(), None
            yield s2, o2
