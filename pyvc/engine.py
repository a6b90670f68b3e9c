"""Symbolic executor / verification-condition generator for Python functions.

It executes the AST of the live function objects found in the imported package, so the
text that is verified is the text that runs.
"""
from __future__ import annotations
import ast, builtins, contextlib, dataclasses, functools, inspect, itertools, operator, os, time, types
from .values import *
from .values import z3, V
from . import values as _v

_SRC = {}


def _load(path):
    if path not in _SRC:
        with open(path, encoding="utf-8") as f:
            txt = f.read()
        tree = ast.parse(txt)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                index.setdefault((first, getattr(n, "name", "<lambda>")), n)
        _SRC[path] = (tree, index)
    return _SRC[path]


def func_ast(fn):
    code = fn.__code__
    try:
        _, index = _load(code.co_filename)
    except (OSError, SyntaxError):
        raise Unsupported(f"no source for {fn!r}")
    n = index.get((code.co_firstlineno, code.co_name))
    if n is None:
        raise Unsupported(f"no AST for {fn!r}")
    return n


def is_generator(node):
    class F(ast.NodeVisitor):
        found = False
        def visit_FunctionDef(self, n): pass
        visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef
        def visit_Yield(self, n): self.found = True
        visit_YieldFrom = visit_Yield
        def visit_GeneratorExp(self, n): pass
    f = F()
    if isinstance(node, ast.Lambda):
        return False
    for s in node.body:
        f.visit(s)
    return f.found


class Prover:
    def __init__(self, timeout_ms=6000):
        self.timeout = timeout_ms
        self.calls = 0
        self.time = 0.0
        self.cache = {}
        self.backends = {"z3": 0, "cvc5": 0}
        self.last_model = None
        self.last_smt = ""

    def check(self, asserts, timeout=None, fallback=False):
        asserts = [a for a in asserts if not z3.is_true(a)]
        if any(z3.is_false(a) for a in asserts):
            self.backends["z3"] += 1
            return "unsat"
        key = tuple(sorted({a.get_id() for a in asserts}))
        if key in self.cache:
            r, keep, m = self.cache[key]
            self.last_model = m
            return r
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*asserts)
        r = str(s.check())
        self.calls += 1
        backend = "z3"
        self.last_model = s.model() if r == "sat" else None
        if r == "unknown" and fallback:
            self.last_smt = s.to_smt2()
            r2 = self._cvc5(self.last_smt)
            if r2 in ("sat", "unsat"):
                r, backend = r2, "cvc5"
        self.backends[backend] += 1
        self.time += time.time() - t0
        self.cache[key] = (r, asserts, self.last_model)
        return r

    def _cvc5(self, smt2):
        try:
            import cvc5
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", "8000")
            slv.setOption("strings-exp", "true")
            slv.setLogic("ALL")
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
            sm = parser.getSymbolManager()
            out = ""
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                res = cmd.invoke(slv, sm)
                if "sat" in str(res):
                    out = str(res).strip()
            return out
        except Exception:
            return "unknown"

    def valid(self, pc, goal):
        """'valid' | 'refuted' | 'unknown'"""
        r = self.check(list(pc) + [z3.Not(goal)], fallback=True)
        return {"unsat": "valid", "sat": "refuted"}.get(r, "unknown")

    def feasible(self, pc):
        return self.check(pc, timeout=1500) != "unsat"


@dataclasses.dataclass
class Schema:
    """Declared shape of symbolic objects: attribute types are preconditions."""
    name: str
    cls: Any
    attrs: dict
    methods: dict = dataclasses.field(default_factory=dict)   # name -> result type (pure contract)


@dataclasses.dataclass
class Obligation:
    name: str
    function: str
    status: str            # discharged | refuted | unknown
    detail: str = ""
    model: Any = None
    kind: str = ""


class Policy:
    """Hooks for effect contracts. Override ``event``."""
    may_raise = False       # fork an exceptional exit at every external call

    def event(self, eng, st, kind, **kw):
        pass


class Engine:
    MAXDEPTH = 40
    MAXSTATES = 4000

    def __init__(self, roots=("/repo/skops",), policy=None, prover=None, spec_roots=("/verif",)):
        self.roots = tuple(roots) + tuple(spec_roots)
        self.unknown = set()
        self.policy = policy or Policy()
        self.prover = prover or Prover()
        self.n = 0
        self.obls: list[Obligation] = []
        self.contracts = {}      # live function -> handler(eng, st, args, kwargs) -> iter[(st, Val|Raise)]
        self.method_contracts = {}  # (cls, name) -> handler
        self.ext = {}            # live object -> handler
        self.assumed = set()     # trusted externals actually used
        self.inlined = set()     # repo functions executed
        self.uf = {}
        self.consts = {}
        self.len_src = {}
        self.interned = []       # (key, rec, term)
        self.folds = []
        self.exit_preds = []
        self.loop_roles = {}     # heap address -> role of an append-only ghost trace
        self.steps = 0
        self.maxsteps = 400000
        self.deadline = None
        self.schemas = {}
        self.current = "?"
        self.binop_hooks = []      # f(eng, st, op, a, b) -> Val or None
        self.attr_overrides = {}   # (tag0, attr) handlers for SVal attribute reads
        from . import ext
        ext.install(self)

    # ---------------------------------------------------------------- utils
    def fresh(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def new_addr(self):
        self.n += 1
        return self.n

    def fn(self, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    def ufV(self, name, *args, res=None):
        res = res if res is not None else V
        if name == "len" and z3.is_app(args[0]) and args[0].decl().name() == "mid":
            # the list without its first and last items
            t, lo, hi = args[0].children()
            n = self.ufV("len", t, res=z3.IntSort())
            return z3.If(n >= lo + hi, n - lo - hi, z3.IntVal(0))
        f = self.fn(name, *[a.sort() for a in args], res)
        return f(*args)

    def const_of(self, live):
        """V constant standing for a live object (identity)."""
        if live is None:
            return V.none
        if type(live) is bool:
            return V.B(z3.BoolVal(live))
        if type(live) is int:
            return V.I(z3.IntVal(live))
        if type(live) is str:
            return V.S(z3.StringVal(_zs(live)))
        if isinstance(live, (list, tuple)) and len(live) <= 40 and isinstance(live, tuple):
            return self.ufV(f"tup{len(live)}", *[self.const_of(x) for x in live]) if live else z3.Const("tup0", V)
        k = ("live", id(live))
        if k not in self.consts:
            nm = getattr(live, "__qualname__", None) or getattr(live, "__name__", None) or type(live).__name__
            o = z3.Const(f"live.{nm}.{len(self.consts)}", Obj)
            self.consts[k] = (V.O(o), live)
        return self.consts[k][0]

    def feasible(self, st):
        return self.prover.feasible(st.pc)

    def branch(self, st, cond):
        """yield (state, bool)"""
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            yield st, True
            return
        if z3.is_false(cond):
            yield st, False
            return
        a = st.fork().assume(cond)
        fa = self.feasible(a)
        b = st.fork().assume(z3.Not(cond))
        fb = self.feasible(b)
        if fa:
            yield a, True
        if fb:
            yield b, False

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step limit")
        if self.deadline and (self.steps % 64 == 0) and time.time() > self.deadline:
            raise Unsupported("time limit")

    def event(self, st, kind, **kw):
        self.policy.event(self, st, kind, **kw)

    def exc(self, cls, *args, exact=True):
        return Raise(ExcV(cls, args, exact))

    # ------------------------------------------------------------- typing
    def typed(self, t, ty, st=None):
        """Val for V-term t of declared type ty (assumes its tag when st given)."""
        if ty == "str":
            if st is not None:
                st.assume(V.is_S(t))
            return SStr(V.s(t))
        if ty == "int":
            if st is not None:
                st.assume(V.is_I(t))
            return SInt(V.i(t))
        if ty == "bool":
            if st is not None:
                st.assume(V.is_B(t))
            return SBool(V.b(t))
        if ty == "none":
            return Conc(None)
        if isinstance(ty, tuple) and ty[0] == "tuple":
            return Tup(tuple(self.typed(self.ufV(f"tupget{i}", t), x, st) for i, x in enumerate(ty[1])))
        if isinstance(ty, tuple) and ty[0] in ("list", "dict", "inst", "set") and st is not None:
            st.assume(V.is_O(t))
        if isinstance(ty, tuple) and ty[0] == "seqstr":
            pass
        return SVal(t, ty)

    def sym(self, name, ty, st):
        return self.typed(z3.Const(name, V), ty, st)

    def seq_of(self, v: SVal):
        """SeqVar for a symbolic list/dict value."""
        ty = v.tag
        if isinstance(ty, tuple) and ty[0] in ("list", "set"):
            ety = ty[1]
            at = lambda i, t=v.t, ety=ety: self.typed(self.ufV("at", t, i), ety)
        elif isinstance(ty, tuple) and ty[0] == "dict":
            ety = ty[1]
            at = lambda i, t=v.t, ety=ety: self.typed(self.ufV("keyat", t, i), ety)
        else:
            at = lambda i, t=v.t, ty=ty: SVal(self.ufV("at", t, i), ty if ty == "json" else None)
        return SeqVar(str(v.t), v.t, at, self.ufV("len", v.t, res=z3.IntSort()))

    def items_of(self, v: SVal):
        ty = v.tag
        kty, vty = (ty[1], ty[2]) if isinstance(ty, tuple) and ty[0] == "dict" else ("str" if ty == "json" else None, ty if ty == "json" else None)

        def at(i, t=v.t):
            k = self.ufV("keyat", t, i)
            return Tup((self.typed(k, kty), self.typed(self.ufV("val", t, k), vty)))
        return SeqVar(f"items({v.t})", v.t, at, self.ufV("len", v.t, res=z3.IntSort()), "items")

    def values_of(self, v: SVal):
        ty = v.tag
        vty = ty[2] if isinstance(ty, tuple) and ty[0] == "dict" else (ty if ty == "json" else None)

        def at(i, t=v.t):
            k = self.ufV("keyat", t, i)
            return self.typed(self.ufV("val", t, k), vty)
        return SeqVar(f"items({v.t})", v.t, at, self.ufV("len", v.t, res=z3.IntSort()), "values")

    # ------------------------------------------------------------- reify
    def reify(self, st, v):
        """z3 V-term of a value (hash-consed up to provable equality)."""
        if isinstance(v, Conc):
            x = v.v
            if isinstance(x, (dict, list, set)) and not len(x):
                return z3.Const(f"empty_{type(x).__name__}", V)
            return self.const_of(x)
        if isinstance(v, SStr):
            return V.S(v.t)
        if isinstance(v, SInt):
            return V.I(v.t)
        if isinstance(v, SBool):
            return V.B(v.t)
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, Tup):
            if not v.items:
                return z3.Const("tup0", V)
            return self.ufV(f"tup{len(v.items)}", *[self.reify(st, x) for x in v.items])
        if isinstance(v, Ref):
            c = st.heap[v.addr]
            if isinstance(c, ListCell):
                return self.reify_segs(st, c.segs, c.kind)
            if isinstance(c, DictCell):
                if c.loc is not None:
                    return c.loc
                segs = self.norm_segs(st, self.dict_to_segs(c))
                if not segs:
                    return z3.Const("empty_dict", V)
                return self.reify_segs(st, segs, "dict")
            if isinstance(c, ObjCell):
                sp = c.attrs.get("__term__")
                if sp is not None:
                    return sp.t
                return z3.Const(f"obj@{v.addr}", V)
        if isinstance(v, (Closure, BoundM)):
            return z3.Const(f"fn@{id(v)}", V)
        if isinstance(v, ExcV):
            return z3.Const(f"exc@{id(v)}", V)
        raise Unsupported(f"reify {v!r}")

    def reify_segs(self, st, segs, kind):
        segs = self.norm_segs(st, segs)
        if not segs:
            return z3.Const(f"empty_{kind}", V)
        if len(segs) == 1 and isinstance(segs[0], Known):
            return self.ufV(f"{kind}{len(segs[0].vals)}", *[self.reify(st, x) for x in segs[0].vals])
        if len(segs) == 1 and isinstance(segs[0], SeqVar) and segs[0].info is None and kind == "list":
            return segs[0].term
        for k2, s2, t2, pc2 in self.interned:
            if k2 == kind and self.same_segs(st, segs, s2):
                return t2
        t = z3.Const(self.fresh(f"seq_{kind}"), V)
        self.interned.append((kind, segs, t, list(st.pc)))
        return t

    def dict_to_segs(self, c):
        out = []
        for s in c.segs:
            if s[0] == "k":
                out.append(Known((Tup((s[1], s[2])),)))
            else:
                out.append(s[1])
        return tuple(out)

    # ----------------------------------------------------------- sequences
    def norm_segs(self, st, segs):
        out = []
        for s in segs:
            if isinstance(s, Known):
                if not s.vals:
                    continue
                if out and isinstance(out[-1], Known):
                    out[-1] = Known(out[-1].vals + s.vals)
                    continue
            elif isinstance(s, SeqConst):
                if len(s.v) <= 64:
                    vals = tuple(Conc(x) for x in s.v)
                    if not vals:
                        continue
                    if out and isinstance(out[-1], Known):
                        out[-1] = Known(out[-1].vals + vals)
                    else:
                        out.append(Known(vals))
                    continue
            elif isinstance(s, SeqFlat):
                if all(not self.norm_segs(st, c) for _, c in s.cases):
                    continue
            out.append(s)
        return tuple(out)

    def as_flat(self, s):
        if isinstance(s, SeqFlat):
            return s
        idx = self.idx_const(s.key, 0)
        return SeqFlat(s, idx, ((TRUE, (Known((s.at(idx),)),)),))

    def idx_const(self, key, depth):
        return z3.Int(f"i@{key}@{depth}")

    def same_segs(self, st, a, b):
        a, b = self.norm_segs(st, a), self.norm_segs(st, b)
        if len(a) != len(b):
            a, b = self.drop_empty(st, a), self.drop_empty(st, b)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, Known) and isinstance(y, Known):
                if len(x.vals) != len(y.vals):
                    return False
                for p, q in zip(x.vals, y.vals):
                    if not self.same(st, p, q):
                        return False
            elif isinstance(x, SeqConst) and isinstance(y, SeqConst):
                if x.v is not y.v and list(x.v) != list(y.v):
                    return False
            elif isinstance(x, SeqOpaque) or isinstance(y, SeqOpaque):
                if not (isinstance(x, SeqOpaque) and isinstance(y, SeqOpaque) and x.key == y.key):
                    return False
            elif isinstance(x, (SeqVar, SeqFlat)) and isinstance(y, (SeqVar, SeqFlat)):
                if isinstance(x, SeqVar) and isinstance(y, SeqVar):
                    if x.key == y.key and x.info == y.info:
                        continue
                fx, fy = self.as_flat(x), self.as_flat(y)
                if not self.same_flat(st, fx, fy):
                    return False
            else:
                return False
        return True

    def drop_empty(self, st, segs):
        """without the segments that are provably empty on this path"""
        out = []
        for x in segs:
            src = x.src if isinstance(x, SeqFlat) else x if isinstance(x, SeqVar) else None
            if src is not None and self.prover.valid(st.pc, src.len <= 0) == "valid":
                continue
            out.append(x)
        return self.norm_segs(st, out)

    def same_src(self, st, a, b):
        if a.key == b.key:
            return True
        if a.term is None or b.term is None:
            return False
        # what an item of the source contributes is compared index by index
        return self.prover.valid(st.pc, z3.And(a.term == b.term, a.len == b.len)) == "valid"

    def same_flat(self, st, fx, fy):
        if not self.same_src(st, fx.src, fy.src):
            return False
        sub = [(fy.idx, fx.idx)] if not fx.idx.eq(fy.idx) else []
        if fx.src.key != fy.src.key and fy.src.term is not None and not fx.src.term.eq(fy.src.term):
            # provably equal source terms: reason under that equality
            pass
        base = st.fork()
        base.assume(fx.idx >= 0, fx.idx < fx.src.len)
        for ca, sa in fx.cases:
            for cb, sb in fy.cases:
                s2 = base.fork()
                cb2 = z3.substitute(cb, *sub) if sub else cb
                sb2 = tuple(self.subst_seg(x, sub) for x in sb) if sub else sb
                s2.assume(ca, cb2)
                if not self.feasible(s2):
                    continue
                if not self.same_segs(s2, sa, sb2):
                    return False
        return True

    def subst_seg(self, s, sub):
        if isinstance(s, Known):
            return Known(tuple(self.subst_val(v, sub) for v in s.vals))
        if isinstance(s, SeqFlat):
            return SeqFlat(s.src, s.idx, tuple((z3.substitute(c, *sub), tuple(self.subst_seg(x, sub) for x in segs)) for c, segs in s.cases))
        if isinstance(s, SeqVar) and s.term is not None:
            t2 = z3.substitute(s.term, *sub)
            if t2.eq(s.term):
                return s
            base = SVal(t2, None)
            return SeqVar(s.key.replace(str(s.term), str(t2)), t2, lambda i, at=s.at: self.subst_val(at(i), sub), z3.substitute(s.len, *sub), s.info)
        return s

    def subst_val(self, v, sub):
        if isinstance(v, SStr):
            return SStr(z3.substitute(v.t, *sub))
        if isinstance(v, SInt):
            return SInt(z3.substitute(v.t, *sub))
        if isinstance(v, SBool):
            return SBool(z3.substitute(v.t, *sub))
        if isinstance(v, SVal):
            return SVal(z3.substitute(v.t, *sub), v.tag)
        if isinstance(v, Tup):
            return Tup(tuple(self.subst_val(x, sub) for x in v.items))
        if isinstance(v, Conc):
            return v
        raise Unsupported("substitution in heap value")

    # -------------------------------------------------- provable sameness
    def same(self, st, a, b):
        """Provably equal values (same type, same contents)."""
        if a is b:
            return True
        if isinstance(a, Conc) and isinstance(b, Conc):
            x, y = a.v, b.v
            if x is y:
                return True
            try:
                return type(x) is type(y) and isinstance(x, (int, str, float, bytes, tuple, list, dict, set, frozenset, type(None))) and bool(x == y)
            except Exception:
                return False
        if isinstance(a, Tup) or isinstance(b, Tup):
            ta, tb = self.as_tuple(a), self.as_tuple(b)
            if ta is not None and tb is not None:
                return len(ta) == len(tb) and all(self.same(st, x, y) for x, y in zip(ta, tb))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            ca, cb = st.heap.get(a.addr), st.heap.get(b.addr)
            if ca is None or cb is None:
                return a.addr == b.addr
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                return ca.kind == cb.kind and self.same_segs(st, ca.segs, cb.segs)
            if isinstance(ca, DictCell) and isinstance(cb, DictCell):
                if (ca.loc is None) != (cb.loc is None):
                    return False
                if ca.loc is not None and self.prover.valid(st.pc, ca.loc == cb.loc) != "valid":
                    return False
                return ca.cls is cb.cls and self.same_segs(st, self.dict_to_segs(ca), self.dict_to_segs(cb))
            if isinstance(ca, ObjCell) and isinstance(cb, ObjCell):
                return ca.cls is cb.cls and ca.attrs.keys() == cb.attrs.keys() and all(self.same(st, ca.attrs[k], cb.attrs[k]) for k in ca.attrs)
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, SVal):
                c = st.heap[x.addr]
                if isinstance(c, DictCell) and c.loc is not None:
                    return False        # a fresh dict put at a location is not the dict that was there
                if isinstance(c, ListCell) and isinstance(y.tag, tuple) and y.tag[0] == c.kind:
                    return self.same_segs(st, c.segs, (self.seq_of(y),))
                if isinstance(c, DictCell) and c.cls is dict and isinstance(y.tag, tuple) and y.tag[0] == "dict":
                    return self.same_segs(st, self.dict_to_segs(c), (self.items_of(y),))
            if isinstance(x, Ref) and isinstance(y, Conc):
                return False
        try:
            ra, rb = self.reify(st, a), self.reify(st, b)
        except Unsupported:
            return False
        if ra.eq(rb):
            return True
        return self.prover.valid(st.pc, ra == rb) == "valid"

    def as_tuple(self, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Conc) and isinstance(v.v, tuple):
            return tuple(Conc(x) for x in v.v)
        return None

    # ------------------------------------------------------------- truth
    def truth(self, st, v):
        """z3 Bool"""
        if isinstance(v, Conc):
            return z3.BoolVal(bool(v.v))
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Ref):
            c = st.heap[v.addr]
            if isinstance(c, ListCell):
                return self.segs_nonempty(st, c.segs)
            if isinstance(c, DictCell):
                return self.segs_nonempty(st, self.dict_to_segs(c))
            if isinstance(c, ObjCell):
                return TRUE
        if isinstance(v, SVal):
            t = v.t
            hh = self.attr_overrides.get((v.tag[0], "__bool__")) if isinstance(v.tag, tuple) else None
            if hh:
                return hh(self, st, v)
            if isinstance(v.tag, tuple) and v.tag[0] in ("list", "dict", "set"):
                n = self.ufV("len", t, res=z3.IntSort())
                st.assume(n >= 0)
                return n != 0
            if isinstance(v.tag, tuple) and v.tag[0] == "inst":
                return TRUE
            return z3.If(V.is_none(t), FALSE, z3.If(V.is_B(t), V.b(t), z3.If(V.is_I(t), V.i(t) != 0, z3.If(V.is_S(t), V.s(t) != z3.StringVal(""), self.ufV("truthO", t, res=z3.BoolSort())))))
        if isinstance(v, (Closure, BoundM, ExcV)):
            return TRUE
        raise Unsupported(f"truth of {v!r}")

    def segs_nonempty(self, st, segs):
        segs = self.norm_segs(st, segs)
        if not segs:
            return FALSE
        if any(isinstance(s, (Known, SeqConst)) for s in segs):
            return TRUE
        if len(segs) == 1 and isinstance(segs[0], SeqVar):
            return segs[0].len != 0
        if len(segs) == 1 and isinstance(segs[0], SeqFlat) and all(len(c) and isinstance(c[0], Known) for _, c in segs[0].cases) and self.total_cases(st, segs[0]):
            return segs[0].src.len != 0
        t = self.reify_segs(st, segs, "list")
        return self.ufV("len", t, res=z3.IntSort()) != 0

    def total_cases(self, st, f):
        return self.prover.valid(list(st.pc) + [f.idx >= 0, f.idx < f.src.len], z3.Or(*[c for c, _ in f.cases])) == "valid"

    # ------------------------------------------------------------ py ==
    def py_eq(self, st, a, b):
        if isinstance(a, Conc) and isinstance(b, Conc):
            try:
                return z3.BoolVal(bool(a.v == b.v))
            except Exception:
                raise Unsupported("== on live objects")
        if isinstance(a, SBool) and isinstance(b, SBool):
            return a.t == b.t
        for x in (a, b):
            if isinstance(x, SVal) and isinstance(x.tag, tuple):
                hh = self.attr_overrides.get((x.tag[0], "__eq__"))
                if hh:
                    return hh(self, st, a, b)
        ta, tb = self.as_tuple(a), self.as_tuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return FALSE
            return z3.And(*[self.py_eq(st, x, y) for x, y in zip(ta, tb)]) if ta else TRUE
        if isinstance(a, SInt) and isinstance(b, (SInt, Conc)):
            if isinstance(b, Conc):
                return a.t == int(b.v) if isinstance(b.v, (int, bool)) else FALSE
            return a.t == b.t
        if isinstance(b, SInt):
            return self.py_eq(st, b, a)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal) and isinstance(y, Conc) and isinstance(y.v, int) and not isinstance(y.v, bool):
                return z3.Or(x.t == V.I(z3.IntVal(y.v)), z3.And(V.is_B(x.t), z3.If(V.b(x.t), 1, 0) == y.v))
            if isinstance(x, Ref) and isinstance(st.heap[x.addr], ObjCell) and isinstance(y, Ref) and isinstance(st.heap[y.addr], ObjCell):
                return z3.BoolVal(x.addr == y.addr)
        ra, rb = self.reify(st, a), self.reify(st, b)
        return ra == rb

    def py_is(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Conc) and y.v is None:
                if isinstance(x, SVal):
                    if isinstance(x.tag, tuple) and x.tag[0] in ("list", "dict", "inst", "set", "sdict", "sec", "stateof", "node"):
                        return FALSE
                    return V.is_none(x.t)
                return z3.BoolVal(isinstance(x, Conc) and x.v is None)
            if isinstance(y, Conc) and isinstance(y.v, bool):
                if isinstance(x, SVal):
                    return x.t == V.B(z3.BoolVal(y.v))
                if isinstance(x, SBool):
                    return x.t == z3.BoolVal(y.v)
                return z3.BoolVal(isinstance(x, Conc) and x.v is y.v)
        if isinstance(a, Conc) and isinstance(b, Conc):
            return z3.BoolVal(a.v is b.v)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return z3.BoolVal(a.addr == b.addr)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Conc) or isinstance(b, Conc):
                return FALSE
        return self.reify(st, a) == self.reify(st, b)

    # --------------------------------------------------------- allocation
    def alloc(self, st, cell):
        a = self.new_addr()
        st.heap[a] = cell
        return Ref(a)

    def new_list(self, st, vals=(), kind="list"):
        return self.alloc(st, ListCell((Known(tuple(vals)),) if vals else (), kind))

    # --------------------------------------------------------- iteration
    def iter_segs(self, st, v):
        """segments of an iterable (or Raise)"""
        if isinstance(v, Tup):
            return (Known(v.items),)
        if isinstance(v, Ref):
            c = st.heap[v.addr]
            if isinstance(c, ListCell):
                return c.segs
            if isinstance(c, DictCell):
                return tuple(self.map_seg(s, lambda t: t.items[0]) for s in self.dict_to_segs(c))
        if isinstance(v, Conc):
            x = v.v
            if isinstance(x, (list, tuple)) :
                return (SeqConst(x),) if len(x) > 64 else (Known(tuple(Conc(y) for y in x)),)
            if isinstance(x, (dict, set, frozenset)):
                return (Known(tuple(Conc(y) for y in x)),) if len(x) <= 64 else (SeqConst(list(x)),)
            if isinstance(x, (str, bytes)) and len(x) <= 64:
                return (Known(tuple(Conc(y) for y in x)),)
            if isinstance(x, range) and len(x) <= 64:
                return (Known(tuple(Conc(y) for y in x)),)
        if isinstance(v, SVal):
            return (self.seq_of(v),)
        if isinstance(v, SStr):
            return (self.seq_of(SVal(V.S(v.t), ("list", "str"))),)
        raise Unsupported(f"iterate {v!r}")

    def map_seg(self, s, f):
        if isinstance(s, Known):
            return Known(tuple(f(x) for x in s.vals))
        if isinstance(s, SeqVar):
            idx = self.idx_const(s.key, 0)
            return SeqFlat(s, idx, ((TRUE, (Known((f(s.at(idx)),)),)),))
        if isinstance(s, SeqFlat):
            return SeqFlat(s.src, s.idx, tuple((c, tuple(self.map_seg(x, f) for x in segs)) for c, segs in s.cases))
        return s

    # ------------------------------------------------------------- loops
    def loop(self, st, segs, body):
        """body(st, elem) -> iter of (st, outcome). Yields (st, outcome) with outcome None
        (exhausted), ('brk',) or an exit."""
        states = [st]
        for seg in segs:
            new = []
            for s in states:
                if isinstance(seg, SeqConst) and len(seg.v) <= 64:
                    seg = Known(tuple(Conc(x) for x in seg.v))
                if isinstance(seg, Known):
                    cur = [s]
                    for v in seg.vals:
                        nxt = []
                        for c in cur:
                            for s2, out in body(c, v):
                                if out is None or out[0] == "cont":
                                    nxt.append(s2)
                                else:
                                    yield s2, out
                        cur = nxt
                    new.extend(cur)
                elif isinstance(seg, SeqConst):
                    ety = "str" if all(isinstance(x, str) for x in seg.v) else None
                    src = self.seq_of(SVal(self.const_of(seg.v), ("list", ety)))
                    for s2, out in self.summarize(s, src, None, body):
                        if out is None:
                            new.append(s2)
                        else:
                            yield s2, out
                elif isinstance(seg, SeqVar):
                    for s2, out in self.summarize(s, seg, None, body):
                        if out is None:
                            new.append(s2)
                        else:
                            yield s2, out
                elif isinstance(seg, SeqFlat):
                    def body2(s0, _elem, flat=seg, body=body):
                        sub = [(flat.idx, s0.ghost["_idx"])]
                        ident = flat.idx.eq(s0.ghost["_idx"])
                        for cond, chunk in flat.cases:
                            s1 = s0.fork().assume(cond if ident else z3.substitute(cond, *sub))
                            if not self.feasible(s1):
                                continue
                            chunk2 = chunk if ident else tuple(self.subst_seg(x, sub) for x in chunk)
                            yield from self.loop(s1, chunk2, body)
                    for s2, out in self.summarize(s, seg.src, None, body2):
                        if out is None:
                            new.append(s2)
                        else:
                            yield s2, out
                elif isinstance(seg, SeqOpaque):
                    src = self.seq_of(SVal(z3.Const(f"opq:{seg.key}", V), None))
                    for s2, out in self.summarize(s, src, None, body):
                        if out is None:
                            new.append(s2)
                        else:
                            yield s2, out
                else:
                    raise Unsupported(f"loop over {seg!r}")
            states = new
            if len(states) > self.MAXSTATES:
                raise Unsupported("state explosion")
        for s in states:
            yield s, None

    def summarize(self, st, src, _, body):
        active = st.ghost.get("_active", ())
        depth = sum(1 for k in active if k == src.key)
        idx = self.idx_const(src.key, depth)
        loopid = self.fresh("L")
        W = {}      # ('env', e, n) | ('heap', a) | ('attr', a, name)
        for _round in range(8):
            s0 = st.fork()
            for w, h in W.items():
                if w[0] == "env":
                    s0.envs[w[1]][w[2]] = h
                elif w[0] == "heap":
                    s0.heap[w[1]] = h
                elif w[0] == "attr":
                    c = s0.heap[w[1]]
                    s0.heap[w[1]] = ObjCell(c.cls, {**c.attrs, w[2]: h})
                elif w[0] == "arr":
                    s0.arr[w[1]] = h
            s0.ghost["_active"] = active + (src.key,)
            s0.ghost["_idx"] = idx
            s0.assume(idx >= 0, idx < src.len)
            base_pc = len(s0.pc)
            if not self.feasible(s0):
                yield st, None
                return
            results = []
            for s1, out in body(s0.fork(), src.at(idx)):
                results.append((s1, out))
            W2 = dict(W)
            for s1, out in results:
                if out is not None and out[0] not in ("cont",):
                    continue
                for e, env in s0.envs.items():
                    e1 = s1.envs.get(e, env)
                    for n, v in e1.items():
                        if n.startswith("."):
                            continue
                        if n not in env:
                            continue        # first bound in the body
                        if v is not env[n] and ("env", e, n) not in W2:
                            W2[("env", e, n)] = self.havoc_like(env[n], v, f"{loopid}.{n}")
                for a, c in s0.heap.items():
                    c1 = s1.heap[a]
                    if c1 is c:
                        continue
                    if isinstance(c, (ListCell, DictCell)) and len(c.segs) == len(c1.segs) and all(x is y for x, y in zip(c.segs, c1.segs)):
                        continue
                    if isinstance(c, ObjCell):
                        for n, v in c1.attrs.items():
                            if n not in c.attrs:
                                W2.setdefault(("attr", a, n), self.havoc_like(v, v, f"{loopid}.{n}"))
                            elif v is not c.attrs[n] and ("attr", a, n) not in W2:
                                W2[("attr", a, n)] = self.havoc_like(c.attrs[n], v, f"{loopid}.{n}")
                    elif ("heap", a) not in W2:
                        if isinstance(c, ListCell):
                            k = f"{src.key}@{depth}.{self.loop_roles[a]}" if a in self.loop_roles else f"{loopid}.{a}"
                            W2[("heap", a)] = ListCell((SeqOpaque(k),), c.kind)
                        elif isinstance(c, DictCell):
                            W2[("heap", a)] = DictCell((("s", SeqOpaque(f"{loopid}.{a}")),), c.cls)
                for n, v in s0.arr.items():
                    if not s1.arr[n].eq(v) and ("arr", n) not in W2:
                        W2[("arr", n)] = z3.Const(f"{loopid}.arr.{n}", v.sort())
            if W2.keys() == W.keys():
                break
            W = W2
        else:
            raise Unsupported("loop effects do not stabilise")
        normal, exits = [], []
        for s1, out in results:
            s1.ghost["_active"] = active
            s1.ghost["_idx"] = st.ghost.get("_idx")
            if out is None or out[0] == "cont":
                normal.append(s1)
            else:
                exits.append((s1, out))
        conds = [z3.And(*s1.pc[base_pc:]) if len(s1.pc) > base_pc else TRUE for s1 in normal]
        # loop-carried variables: folds, and their value at the start of iteration idx
        folded, canon = {}, []
        for w, h in W.items():
            if w[0] == "env":
                get, init = (lambda s, w=w: s.envs[w[1]][w[2]]), st.envs[w[1]].get(w[2])
            elif w[0] == "attr":
                get, init = (lambda s, w=w: s.heap[w[1]].attrs.get(w[2])), st.heap[w[1]].attrs.get(w[2])
            else:
                continue
            f, t = self.fold_var(st, src, idx, W, w, normal, conds, get, init)
            folded[w] = f
            if t is not None and isinstance(h, (SVal, SStr, SInt, SBool)):
                at = self.ufV("foldat", t, idx)
                canon.append((h.t, {SVal: lambda: at, SStr: lambda: V.s(at), SInt: lambda: V.i(at), SBool: lambda: V.b(at)}[type(h)]()))
        # exits from an arbitrary iteration: predicate "some iteration exits", interned up to
        # provable equivalence so that two runs over the same sequence agree on it
        post = st.fork()
        if exits:
            ex = [z3.And(*s1.pc[base_pc:]) if len(s1.pc) > base_pc else TRUE for s1, _ in exits]
            ec = z3.Or(*ex)
            if canon:
                ec = z3.substitute(ec, *canon)
            E = None
            for key2, idx2, ec2, e2 in self.exit_preds:
                if key2 == src.key and idx2.eq(idx) and self.prover.valid(list(st.pc) + [idx >= 0, idx < src.len], ec == ec2) == "valid":
                    E = e2
                    break
            if E is None:
                E = z3.Bool(self.fresh("exits"))
                self.exit_preds.append((src.key, idx, ec, E))
            for s1, out in exits:
                s1.assume(E)
                for a_, b_ in canon:
                    s1.assume(a_ == b_)
                s1.ghost["_exits"] = st.ghost.get("_exits", ()) + ((src.key, str(idx), str(E)),)
                yield s1, out
            post.assume(z3.Not(E))
        if src.len is not None:
            post.assume(src.len >= 0)
            for w, f in folded.items():
                init = st.envs[w[1]].get(w[2]) if w[0] == "env" else st.heap[w[1]].attrs.get(w[2])
                if init is None:
                    continue
                try:
                    post.assume(z3.Implies(src.len == 0, self.reify(st, f) == self.reify(st, init)))
                except Unsupported:
                    pass
        # state after an unknown number of iterations
        post.ghost.update(self.merge_ghost(st, normal))
        for w, h in W.items():
            if w[0] == "heap":
                pre = st.heap[w[1]]
                cases, ok = [], True
                for s1, cond in zip(normal, conds):
                    c1 = s1.heap[w[1]]
                    if isinstance(pre, ListCell):
                        if not (c1.segs and c1.segs[0] is h.segs[0]):
                            ok = False
                            break
                        cases.append((cond, self.freeze_segs(s1, c1.segs[1:])))
                    else:
                        if not (c1.segs and c1.segs[0] is h.segs[0]):
                            ok = False
                            break
                        cases.append((cond, self.freeze_segs(s1, self.dict_to_segs(DictCell(c1.segs[1:])))))
                for s1, cond in zip(normal, conds):
                    for a2, c2 in s1.heap.items():
                        if a2 not in post.heap:
                            post.heap[a2] = c2
                if ok and canon:
                    try:
                        cases = [(z3.substitute(c, *canon), tuple(self.subst_seg(x, canon) for x in cs)) for c, cs in cases]
                    except Unsupported:
                        pass
                if ok:
                    flat = SeqFlat(src, idx, tuple(cases))
                    if isinstance(pre, ListCell):
                        post.heap[w[1]] = ListCell(pre.segs + (flat,), pre.kind)
                    elif any(x[0] == "s" for x in pre.segs) and pre.cls is dict and not post.ghost.get("_active"):
                        # the entries of the loop may overwrite the ones that are there
                        from .ext import dict_merge
                        dict_merge(self, post, Ref(w[1]), (("s", flat),))
                    else:
                        post.heap[w[1]] = DictCell(pre.segs + (("s", flat),), pre.cls)
                else:
                    k = self.fold_key(st, post, src, idx, W, w, normal, conds)
                    if isinstance(pre, ListCell):
                        post.heap[w[1]] = ListCell((SeqOpaque(k),), pre.kind)
                    else:
                        post.heap[w[1]] = DictCell((("s", SeqOpaque(k)),), pre.cls)
            elif w[0] == "env":
                post.envs[w[1]][w[2]] = folded[w]
            elif w[0] == "attr":
                c = post.heap[w[1]]
                post.heap[w[1]] = ObjCell(c.cls, {**c.attrs, w[2]: folded[w]})
            elif w[0] == "arr":
                post.arr[w[1]] = z3.Const(self.fresh(f"arr.{w[1]}"), st.arr[w[1]].sort())
        # names first bound in the body
        for e, env in st.envs.items():
            for s1 in normal:
                for n, v in s1.envs.get(e, {}).items():
                    if n not in env and n not in post.envs[e] and not n.startswith("."):
                        post.envs[e][n] = SVal(z3.Const(self.fresh(f"last.{n}"), V), None)
        hook = st.ghost.get("_loop_hook")
        if normal or True:
            yield post, None

    def merge_ghost(self, st, normal):
        """Typestate after the loop: monotone flags (ints) are joined pessimistically by policy."""
        merge = getattr(self.policy, "merge_ghost", None)
        if merge:
            return merge(st.ghost, [s.ghost for s in normal])
        return {}

    def freeze_segs(self, st, segs):
        return tuple(segs)

    def mentions(self, segs, W, st):
        """does a chunk depend on loop-carried state?"""
        names = set()
        for w, h in W.items():
            if isinstance(h, (SVal, SStr, SInt, SBool)):
                names.add(str(h.t if not isinstance(h, SVal) else h.t))
        if not names:
            return False
        # dependence is fine for soundness (values then contain the havoc constant and
        # will not be provably equal to anything else); keep the summary.
        return False

    def havoc_like(self, old, new, name):
        t = z3.Const(name, V)
        for cls, ty in ((SStr, "str"), (SInt, "int"), (SBool, "bool")):
            if all(isinstance(x, cls) or (isinstance(x, Conc) and type(x.v).__name__ == ty) for x in (old, new)):
                return {"str": lambda: SStr(z3.String(name)), "int": lambda: SInt(z3.Int(name)), "bool": lambda: SBool(z3.Bool(name))}[ty]()
        tag = None
        if isinstance(old, SVal) and isinstance(new, SVal) and old.tag == new.tag:
            tag = old.tag
        elif isinstance(old, SVal) and isinstance(old.tag, tuple) and old.tag[0] in ("dict", "sdict") and isinstance(new, Ref):
            tag = old.tag
        return SVal(t, tag)

    def fold_key(self, st, post, src, idx, W, w, normal, conds):
        return self.fresh("fold")

    def fold_var(self, st, src, idx, W, w, normal, conds, get, init):
        """value of a loop-carried variable after the loop, as a fold term interned up to
        provable equality of (source, initial value, step)."""
        h = W[w]
        try:
            steps = []
            for s1, c in zip(normal, conds):
                v = get(s1)
                if v is None:
                    raise Unsupported("unset")
                steps.append((c, self.reify(s1, v)))
            hv = self.reify(st, h)
            iv = self.reify(st, init) if init is not None else V.none
            deps = [k for k, x in W.items() if k != w and isinstance(x, (SVal, SStr, SInt, SBool)) and any(_occurs(self.reify(st, x), t) or _occurs(self.reify(st, x), c) for c, t in steps)]
            if deps:
                raise Unsupported("multi-variable fold")
            hvar = h.t
            for rec in self.folds:
                if rec[0] == src.key and rec[4].sort() == hvar.sort() and (rec[1].eq(iv) or self.prover.valid(st.pc, rec[1] == iv) == "valid"):
                    if self.same_steps(st, src, idx, steps, hvar, rec[3], rec[4]):
                        return self.retype(h, rec[5]), rec[5]
            t = z3.Const(self.fresh("fold"), V)
            self.folds.append((src.key, iv, idx, steps, hvar, t))
            return self.retype(h, t), t
        except Unsupported:
            t = z3.Const(self.fresh("fold"), V)
            return self.retype(h, t), None

    def retype(self, h, t):
        if isinstance(h, SStr):
            return SStr(V.s(t))
        if isinstance(h, SInt):
            return SInt(V.i(t))
        if isinstance(h, SBool):
            return SBool(V.b(t))
        return SVal(t, h.tag)

    def same_steps(self, st, src, idx, steps, hvar, steps2, hvar2):
        sub = [(hvar2, hvar)]
        for c1, t1 in steps:
            for c2, t2 in steps2:
                c2, t2 = z3.substitute(c2, *sub), z3.substitute(t2, *sub)
                if self.prover.valid(list(st.pc) + [c1, c2, idx >= 0, idx < src.len], t1 == t2) != "valid":
                    return False
        return True

    # ------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e,'lineno','?')}")
        yield from m(e, st)

    def evs(self, es, st):
        """evaluate list of expressions -> (st, [vals]) | (st, Raise)"""
        if not es:
            yield st, []
            return
        for s, v in self.ev(es[0], st):
            if isinstance(v, Raise):
                yield s, v
                continue
            for s2, rest in self.evs(es[1:], s):
                if isinstance(rest, Raise):
                    yield s2, rest
                else:
                    yield s2, [v] + rest

    def ev_Constant(self, e, st):
        yield st, Conc(e.value)

    def lookup(self, st, name):
        env = st.frame.env
        while env:
            d = st.envs[env]
            if name in d:
                return d[name]
            env = d.get(".parent", 0)
        fn = st.frame.fn
        if fn.cells and name in fn.cells:
            return Conc(fn.cells[name])
        g = fn.glob
        if name in g:
            return Conc(g[name])
        if hasattr(builtins, name):
            return Conc(getattr(builtins, name))
        return None

    def ev_Name(self, e, st):
        v = self.lookup(st, e.id)
        if v is None:
            yield st, self.exc(NameError, Conc(e.id))
        else:
            if isinstance(v, Conc) and e.id in st.frame.fn.glob and v.v is st.frame.fn.glob.get(e.id):
                self.event(st, "global_read", name=e.id, value=v)
            yield st, v

    def ev_NamedExpr(self, e, st):
        for s, v in self.ev(e.value, st):
            if not isinstance(v, Raise):
                self.bind_name(s, e.target.id, v)
            yield s, v

    def bind_name(self, st, name, v):
        env = st.frame.env
        # comprehension scopes bind walrus targets in the function scope
        while st.envs[env].get(".comp"):
            env = st.envs[env][".parent"]
        d = st.envs[env]
        if name in d.get(".nonlocal", ()):
            p = d.get(".parent", 0)
            while p:
                if name in st.envs[p]:
                    st.envs[p][name] = v
                    return
                p = st.envs[p].get(".parent", 0)
        if name in d.get(".global", ()):
            self.event(st, "global_write", name=name)
            return
        d[name] = v

    def ev_Tuple(self, e, st):
        yield from self.ev_seq(e, st, "tuple")

    def ev_List(self, e, st):
        yield from self.ev_seq(e, st, "list")

    def ev_Set(self, e, st):
        yield from self.ev_seq(e, st, "set")

    def ev_seq(self, e, st, kind):
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        stars = [isinstance(x, ast.Starred) for x in e.elts]
        for s, vs in self.evs(exprs, st):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            segs = []
            for v, star in zip(vs, stars):
                if star:
                    segs.extend(self.iter_segs(s, v))
                else:
                    segs.append(Known((v,)))
            segs = self.norm_segs(s, segs)
            if kind == "tuple" and all(isinstance(x, Known) for x in segs):
                yield s, Tup(segs[0].vals if segs else ())
            else:
                yield s, self.alloc(s, ListCell(segs, kind))

    def ev_Dict(self, e, st):
        def rec(i, s, acc):
            if i == len(e.keys):
                yield s, self.alloc(s, DictCell(tuple(acc)))
                return
            if e.keys[i] is None:
                for s1, v in self.ev(e.values[i], s):
                    if isinstance(v, Raise):
                        yield s1, v
                        continue
                    yield from rec(i + 1, s1, acc + list(self.dict_segs(s1, v)))
                return
            for s1, kv in self.evs([e.keys[i], e.values[i]], s):
                if isinstance(kv, Raise):
                    yield s1, kv
                    continue
                yield from rec(i + 1, s1, acc + [("k", kv[0], kv[1])])
        yield from rec(0, st, [])

    def dict_segs(self, st, v):
        if isinstance(v, Ref) and isinstance(st.heap[v.addr], DictCell):
            return st.heap[v.addr].segs
        if isinstance(v, Conc) and isinstance(v.v, dict):
            return tuple(("k", Conc(k), Conc(x)) for k, x in v.v.items())
        if isinstance(v, SVal):
            return (("s", self.items_of(v)),)
        raise Unsupported(f"dict unpack of {v!r}")

    def ev_IfExp(self, e, st):
        for s, v in self.ev(e.test, st):
            if isinstance(v, Raise):
                yield s, v
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                yield from self.ev(e.body if b else e.orelse, s2)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            for s1, v in self.ev(e.values[i], s):
                if isinstance(v, Raise) or i == len(e.values) - 1:
                    yield s1, v
                    continue
                for s2, b in self.branch(s1, self.truth(s1, v)):
                    if b == isand:
                        yield from rec(i + 1, s2)
                    else:
                        yield s2, v
        yield from rec(0, st)

    def ev_UnaryOp(self, e, st):
        for s, v in self.ev(e.operand, st):
            if isinstance(v, Raise):
                yield s, v
            elif isinstance(e.op, ast.Not):
                t = z3.simplify(z3.Not(self.truth(s, v)))
                yield s, self.mkbool(t)
            elif isinstance(e.op, ast.USub):
                if isinstance(v, Conc):
                    yield s, Conc(-v.v)
                elif isinstance(v, SInt):
                    yield s, SInt(-v.t)
                else:
                    yield s, SVal(self.ufV("neg", self.reify(s, v)))
            else:
                raise Unsupported("unary")

    def mkbool(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return Conc(True)
        if z3.is_false(t):
            return Conc(False)
        return SBool(t)

    def ev_BinOp(self, e, st):
        for s, vs in self.evs([e.left, e.right], st):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            yield from self.binop(s, type(e.op).__name__, vs[0], vs[1])

    def str_of(self, v):
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, Conc) and isinstance(v.v, str):
            return z3.StringVal(_zs(v.v))
        return None

    def int_of(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, Conc) and isinstance(v.v, int):
            return z3.IntVal(int(v.v))
        return None

    def binop(self, s, op, a, b):
        for h in self.binop_hooks:
            r = h(self, s, op, a, b)
            if r is not None:
                yield s, r
                return
        if isinstance(a, Conc) and isinstance(b, Conc):
            f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "BitOr": operator.or_, "BitAnd": operator.and_, "Pow": operator.pow}.get(op)
            if f is None:
                raise Unsupported(op)
            try:
                r = f(a.v, b.v)
                if isinstance(r, list) and isinstance(a.v, list):
                    yield s, self.alloc(s, ListCell(self.norm_segs(s, (SeqConst(a.v), SeqConst(b.v)))))
                else:
                    yield s, Conc(r)
            except Exception as ex:
                yield s, self.exc(type(ex))
            return
        if op == "Add":
            # json-ish operands: split on being a string
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SVal) and (self.str_of(y) is not None or isinstance(y, SVal)):
                    for s1, isstr in self.branch(s, V.is_S(x.t)):
                        if isstr:
                            nx = SStr(V.s(x.t))
                            yield from self.binop(s1, op, nx if x is a else a, nx if x is b else b)
                        elif self.str_of(y) is not None or (isinstance(y, SVal) and y.tag == "json") :
                            yield s1, self.exc(TypeError)
                        else:
                            yield s1, SVal(self.ufV("add", self.reify(s1, a), self.reify(s1, b)))
                    return
            x, y = self.str_of(a), self.str_of(b)
            if x is not None and y is not None:
                yield s, SStr(z3.Concat(x, y))
                return
            if (x is None) != (y is None) and not isinstance(a, SVal) and not isinstance(b, SVal):
                yield s, self.exc(TypeError)
                return
            x, y = self.int_of(a), self.int_of(b)
            if x is not None and y is not None:
                yield s, SInt(x + y)
                return
            ta, tb = self.as_tuple(a), self.as_tuple(b)
            if ta is not None and tb is not None:
                yield s, Tup(tuple(ta) + tuple(tb))
                return
            la, lb = self.list_segs(s, a), self.list_segs(s, b)
            if la is not None and lb is not None:
                yield s, self.alloc(s, ListCell(self.norm_segs(s, la + lb)))
                return
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if self.str_of(x) is not None and self.int_of(y) is not None:
                    yield s, SStr(self.ufV("str.repeat", self.str_of(x), self.int_of(y), res=z3.StringSort()))
                    return
                if isinstance(x, Conc) and isinstance(x.v, str) and isinstance(y, SVal):
                    yield s, SStr(self.ufV("str.repeatV", self.str_of(x), y.t, res=z3.StringSort()))
                    return
                if isinstance(x, Ref) and isinstance(s.heap[x.addr], ListCell) and s.heap[x.addr].kind == "list" and isinstance(y, (SInt, SVal)):
                    # a new list; its elements are those of x
                    t = self.ufV("op.Mult", self.reify(s, x), self.reify(s, y))
                    yield s, self.alloc(s, ListCell((self.seq_of(SVal(t, ("list", self.elem_ty(s, s.heap[x.addr].segs)))),)))
                    return
        x, y = self.int_of(a), self.int_of(b)
        if x is not None and y is not None and op in ("Sub", "Mult"):
            yield s, SInt(x - y if op == "Sub" else x * y)
            return
        if op in ("BitOr", "Sub", "BitAnd"):
            la, lb = self.list_segs(s, a, ("set",)), self.list_segs(s, b, ("set",))
            if la is not None and lb is not None and op == "BitOr":
                yield s, self.alloc(s, ListCell(self.norm_segs(s, la + lb), "set"))
                return
        if op == "Div" and isinstance(a, SVal) and isinstance(a.tag, tuple) and a.tag[0] == "path":
            yield s, SVal(self.ufV("path.join", a.t, self.reify(s, b)), ("path",))
            return
        yield s, SVal(self.ufV(f"op.{op}", self.reify(s, a), self.reify(s, b)))

    def list_segs(self, st, v, kinds=("list",)):
        if isinstance(v, Ref) and isinstance(st.heap[v.addr], ListCell) and st.heap[v.addr].kind in kinds:
            return st.heap[v.addr].segs
        if isinstance(v, Conc) and type(v.v).__name__ in kinds:
            return (SeqConst(list(v.v)),)
        if isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] in kinds:
            return (self.seq_of(v),)
        return None

    def ev_Compare(self, e, st):
        def rec(i, left, s):
            for s1, r in self.ev(e.comparators[i], s):
                if isinstance(r, Raise):
                    yield s1, r
                    continue
                for s2, v in self.compare(s1, type(e.ops[i]).__name__, left, r):
                    if isinstance(v, Raise) or i == len(e.ops) - 1:
                        yield s2, v
                        continue
                    for s3, b in self.branch(s2, self.truth(s2, v)):
                        if b:
                            yield from rec(i + 1, r, s3)
                        else:
                            yield s3, Conc(False)
        for s, v in self.ev(e.left, st):
            if isinstance(v, Raise):
                yield s, v
            else:
                yield from rec(0, v, s)

    def compare(self, s, op, a, b):
        if op == "Eq":
            yield s, self.mkbool(self.py_eq(s, a, b))
        elif op == "NotEq":
            yield s, self.mkbool(z3.Not(self.py_eq(s, a, b)))
        elif op == "Is":
            yield s, self.mkbool(self.py_is(s, a, b))
        elif op == "IsNot":
            yield s, self.mkbool(z3.Not(self.py_is(s, a, b)))
        elif op in ("In", "NotIn"):
            t = self.contains(s, b, a)
            yield s, self.mkbool(t if op == "In" else z3.Not(t))
        else:
            if isinstance(a, Conc) and isinstance(b, Conc):
                try:
                    yield s, Conc({"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](a.v, b.v))
                except TypeError:
                    yield s, self.exc(TypeError)
                return
            x, y = self.int_of(a), self.int_of(b)
            if x is not None and y is not None:
                yield s, self.mkbool({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
                return
            for p, q in ((a, b), (b, a)):
                if isinstance(p, SVal) and self.int_of(q) is not None:
                    for s1, isint in self.branch(s, V.is_I(p.t)):
                        if isint:
                            n = SInt(V.i(p.t))
                            yield from self.compare(s1, op, n if p is a else a, n if p is b else b)
                        else:
                            # floats/bools/strings: may raise or be any truth value
                            yield s1.fork(), self.exc(TypeError)
                            yield s1, SBool(self.ufV(f"cmp.{op}", self.reify(s1, a), self.reify(s1, b), res=z3.BoolSort()))
                    return
            yield s, SBool(self.ufV(f"cmp.{op}", self.reify(s, a), self.reify(s, b), res=z3.BoolSort()))

    def contains(self, st, c, x):
        """z3 Bool: x in c"""
        if isinstance(c, Conc):
            if isinstance(x, Conc):
                try:
                    return z3.BoolVal(x.v in c.v)
                except TypeError:
                    raise Unsupported("in")
            if isinstance(c.v, str):
                if self.str_of(x) is not None:
                    return z3.Contains(z3.StringVal(_zs(c.v)), self.str_of(x))
            if isinstance(c.v, (list, tuple, set, frozenset, dict)):
                if len(c.v) <= 64:
                    return z3.Or(*[self.py_eq(st, x, Conc(k)) for k in c.v]) if c.v else FALSE
                return self.mem_const(st, c.v, x)
        if isinstance(c, Tup):
            return z3.Or(*[self.py_eq(st, x, k) for k in c.items]) if c.items else FALSE
        if isinstance(c, SStr):
            if self.str_of(x) is not None:
                return z3.Contains(c.t, self.str_of(x))
        if isinstance(c, Ref):
            cell = st.heap[c.addr]
            segs = cell.segs if isinstance(cell, ListCell) else tuple(self.map_seg(s, lambda t: t.items[0]) for s in self.dict_to_segs(cell))
            return self.mem_segs(st, segs, x)
        if isinstance(c, SVal):
            hh = self.attr_overrides.get((c.tag[0], "__contains__")) if isinstance(c.tag, tuple) else None
            if hh:
                return hh(self, st, c, x)
            if isinstance(c.tag, tuple) and c.tag[0] == "dict" or c.tag == "json":
                r = self.reify(st, x)
                h = self.ufV("has", c.t, r, res=z3.BoolSort())
                st.assume(z3.Implies(h, self.ufV("len", c.t, res=z3.IntSort()) > 0))
                return h
            return self.ufV("mem", c.t, self.reify(st, x), res=z3.BoolSort())
        raise Unsupported(f"in {c!r}")

    def mem_const(self, st, coll, x):
        key = ("memconst", id(coll)) if not isinstance(coll, list) else ("memlist", tuple(id(y) if not isinstance(y, str) else y for y in coll))
        if key not in self.consts:
            self.consts[key] = (z3.Function(f"mem_const{len(self.consts)}", V, z3.BoolSort()), coll)
        f = self.consts[key][0]
        r = self.reify(st, x)
        return f(r)

    def mem_segs(self, st, segs, x):
        out = []
        for s in self.norm_segs(st, segs):
            if isinstance(s, Known):
                out += [self.py_eq(st, x, v) for v in s.vals]
            elif isinstance(s, SeqConst):
                if isinstance(x, Conc):
                    out.append(z3.BoolVal(x.v in s.v))
                else:
                    out.append(self.mem_const(st, s.v, x))
            elif isinstance(s, SeqVar):
                out.append(self.ufV("mem", s.term, self.reify(st, x), res=z3.BoolSort()))
            else:
                t = self.reify_segs(st, (s,), "list")
                out.append(self.ufV("mem", t, self.reify(st, x), res=z3.BoolSort()))
        return z3.Or(*out) if out else FALSE

    def ev_JoinedStr(self, e, st):
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]
        for s, vs in self.evs(parts, st):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            out = []
            for p, v in zip(e.values, vs):
                if isinstance(p, ast.FormattedValue):
                    conv = p.conversion
                    out.append(self.to_str(s, v, "repr" if conv == 114 else "str"))
                else:
                    out.append(z3.StringVal(_zs(v.v)))
            if not out:
                yield s, Conc("")
            elif all(isinstance(v, Conc) and isinstance(v.v, (str, int)) and not (isinstance(p, ast.FormattedValue) and p.conversion == 114) for p, v in zip(e.values, vs)):
                yield s, Conc("".join(str(v.v) for v in vs))
            else:
                yield s, SStr(z3.Concat(*out) if len(out) > 1 else out[0])

    def to_str(self, st, v, how="str"):
        if isinstance(v, Conc):
            try:
                if isinstance(v.v, (str, int, float, bool, type(None), type)):
                    return z3.StringVal(_zs(str(v.v) if how == "str" else repr(v.v)))
            except Exception:
                pass
        if how == "str":
            if isinstance(v, SStr):
                return v.t
            if isinstance(v, SVal):
                return z3.If(V.is_S(v.t), V.s(v.t), self.ufV("strO", v.t, res=z3.StringSort()))
        if isinstance(v, ExcV):
            return z3.String(self.fresh("excstr"))
        if isinstance(v, Ref) and isinstance(st.heap[v.addr], ObjCell):
            return z3.String(self.fresh("objstr"))
        return self.ufV(f"{how}O", self.reify(st, v), res=z3.StringSort())

    def ev_Lambda(self, e, st):
        yield st, Closure(e, st.frame.env, st.frame.fn.glob, tuple(), {}, name="<lambda>", cls=st.frame.fn.cls, cells=st.frame.fn.cells) if not e.args.defaults else self._lambda_defaults(e, st)

    def _lambda_defaults(self, e, st):
        vals = []
        for d in e.args.defaults:
            rs = list(self.ev(d, st))
            if len(rs) != 1:
                raise Unsupported("lambda default")
            vals.append(rs[0][1])
        return Closure(e, st.frame.env, st.frame.fn.glob, tuple(vals), {}, cls=st.frame.fn.cls, cells=st.frame.fn.cells)

    # comprehension: evaluated eagerly in a child scope
    def comp(self, e, st, kind, emit):
        env = self.new_addr()
        st.envs[env] = {".parent": st.frame.env, ".comp": True}
        old = st.frame
        st.frame = dataclasses.replace(old, env=env)
        if kind == "dict":
            acc = self.alloc(st, DictCell(()))
        else:
            acc = self.alloc(st, ListCell((), kind))

        def gen(i, s):
            if i == len(e.generators):
                yield from emit(s, acc)
                return
            g = e.generators[i]
            for s1, it in self.ev(g.iter, s):
                if isinstance(it, Raise):
                    yield s1, ("raise", it.exc)
                    continue
                for s1b, segs in self.iterate(s1, it):
                    if isinstance(segs, Raise):
                        yield s1b, ("raise", segs.exc)
                        continue

                    def body(s2, elem):
                        for s3, o in self.assign(g.target, elem, s2):
                            if o is not None:
                                yield s3, o
                                continue

                            def conds(j, s4):
                                if j == len(g.ifs):
                                    yield from gen(i + 1, s4)
                                    return
                                for s5, v in self.ev(g.ifs[j], s4):
                                    if isinstance(v, Raise):
                                        yield s5, ("raise", v.exc)
                                        continue
                                    for s6, b in self.branch(s5, self.truth(s5, v)):
                                        if b:
                                            yield from conds(j + 1, s6)
                                        else:
                                            yield s6, None
                            yield from conds(0, s3)
                    yield from self.loop(s1b, segs, body)
        for s, out in gen(0, st):
            s.frame = old
            if out is not None and out[0] == "raise":
                yield s, Raise(out[1])
            else:
                yield s, acc

    def iterate(self, st, v):
        """(st, segs | Raise)"""
        if isinstance(v, SVal) and v.tag == "json":
            # iterating a JSON value: list / dict keys / str chars; numbers raise
            ok = self.ufV("iterable", v.t, res=z3.BoolSort())
            for s, b in self.branch(st, ok):
                if b:
                    yield s, (self.seq_of(v),)
                else:
                    yield s, self.exc(TypeError)
            return
        h = getattr(self, "iter_hook", None)
        if h:
            r = h(st, v)
            if r is not None:
                yield st, r
                return
        yield st, self.iter_segs(st, v)

    def append_emit(self, expr):
        def emit(s, acc):
            for s1, v in self.ev(expr, s):
                if isinstance(v, Raise):
                    yield s1, ("raise", v.exc)
                    continue
                c = s1.heap[acc.addr]
                s1.heap[acc.addr] = ListCell(c.segs + (Known((v,)),), c.kind)
                yield s1, None
        return emit

    def ev_ListComp(self, e, st):
        yield from self.comp(e, st, "list", self.append_emit(e.elt))

    def ev_GeneratorExp(self, e, st):
        yield from self.comp(e, st, "list", self.append_emit(e.elt))

    def ev_SetComp(self, e, st):
        yield from self.comp(e, st, "set", self.append_emit(e.elt))

    def ev_DictComp(self, e, st):
        def emit(s, acc):
            for s1, kv in self.evs([e.key, e.value], s):
                if isinstance(kv, Raise):
                    yield s1, ("raise", kv.exc)
                    continue
                self.dict_set(s1, acc, kv[0], kv[1])
                yield s1, None
        yield from self.comp(e, st, "dict", emit)

    def dict_set(self, st, ref, k, v):
        c = st.heap[ref.addr]
        segs = list(c.segs)
        if isinstance(k, Conc):
            for i, sg in enumerate(segs):
                if sg[0] == "k" and isinstance(sg[1], Conc):
                    try:
                        if sg[1].v == k.v and type(sg[1].v) is type(k.v):
                            segs[i] = ("k", sg[1], v)
                            st.heap[ref.addr] = DictCell(tuple(segs), c.cls, c.loc)
                            return
                    except Exception:
                        pass
        segs.append(("k", k, v))
        st.heap[ref.addr] = DictCell(tuple(segs), c.cls, c.loc)

    def dict_get(self, st, ref, k):
        """yields (st, Val | None)"""
        c = st.heap[ref.addr]
        segs = list(c.segs)

        def rec(i, s):
            if i < 0:
                yield s, None
                return
            sg = segs[i]
            if sg[0] == "k":
                for s1, b in self.branch(s, self.py_eq(s, sg[1], k)):
                    if b:
                        yield s1, sg[2]
                    else:
                        yield from rec(i - 1, s1)
            else:
                seq = sg[1]
                if isinstance(seq, SeqVar) and seq.info == "items":
                    r = self.reify(s, k)
                    has = self.ufV("has", seq.term, r, res=z3.BoolSort())
                    for s1, b in self.branch(s, has):
                        if b:
                            s1.assume(seq.len > 0)
                            proto = seq.at(z3.Int("i@proto")).items[1]
                            t = self.ufV("val", seq.term, r)
                            if isinstance(proto, SVal):
                                yield s1, SVal(t, proto.tag)
                            else:
                                yield s1, self.typed(t, {SStr: "str", SInt: "int", SBool: "bool"}[type(proto)], s1)
                        else:
                            yield from rec(i - 1, s1)
                else:
                    t = self.reify_segs(s, (seq,), "dict")
                    r = self.reify(s, k)
                    has = self.ufV("has", t, r, res=z3.BoolSort())
                    for s1, b in self.branch(s, has):
                        if b:
                            yield s1, SVal(self.ufV("val", t, r))
                        else:
                            yield from rec(i - 1, s1)
        yield from rec(len(segs) - 1, st)

    # ---------------------------------------------------- attribute access
    def ev_Attribute(self, e, st):
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raise):
                yield s, v
            else:
                yield from self.getattr(s, v, e.attr)

    def find_in_mro(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                return k, k.__dict__[name]
        return None, None

    def closure_of(self, fn, cls=None):
        node = func_ast(fn)
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        return Closure(node, 0, fn.__globals__, tuple(Conc(d) for d in (fn.__defaults__ or ())), {k: Conc(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn, fn.__name__, cls or cells.get("__class__"), cells)

    def bind_descr(self, st, owner, d, selfv, name):
        if isinstance(d, types.FunctionType):
            yield st, BoundM(Conc(d), selfv)
        elif isinstance(d, staticmethod):
            yield st, Conc(d.__func__)
        elif isinstance(d, classmethod):
            yield st, BoundM(Conc(d.__func__), Conc(owner))
        elif isinstance(d, property):
            yield from self.call(st, Conc(d.fget), [selfv], {})
        elif isinstance(d, functools.cached_property):
            yield from self.call(st, Conc(d.func), [selfv], {})
        elif isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            yield st, self.exc(AttributeError, Conc(name))
        elif callable(d) and (isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)) or type(d).__name__ == "cython_function_or_method"):
            yield st, BoundM(Conc(d), selfv)
        else:
            yield st, Conc(d)

    def getattr(self, st, v, name):
        self.tick()
        if isinstance(v, Ref):
            c = st.heap[v.addr]
            if isinstance(c, ObjCell):
                if name == "__class__":
                    yield st, Conc(c.cls)
                    return
                if name == "__dict__" and not getattr(c.cls, "__dictoffset__", 1) and not self.class_in_repo(c.cls):
                    yield st, self.exc(AttributeError, Conc(name))
                    return
                if name == "__dict__":
                    yield st, SVal(self.ufV("dict_of", self.reify(st, v)), ("dict", "str", None))
                    return
                if name in c.attrs:
                    yield st, c.attrs[name]
                    return
                k, d = self.find_in_mro(c.cls, name)
                if k is None:
                    yield st, self.exc(AttributeError, Conc(name))
                    return
                yield from self.bind_descr(st, k, d, v, name)
                return
            if name == "__class__":
                yield st, Conc(c.cls if isinstance(c, DictCell) else {"list": list, "set": set, "tuple": tuple}.get(c.kind, list))
                return
            if name == "__dict__" and not (isinstance(c, DictCell) and c.cls is not dict):
                yield st, self.exc(AttributeError, Conc(name))
                return
            if isinstance(c, DictCell) and name in vars(c.cls) and isinstance(vars(c.cls)[name], types.FunctionType):
                yield st, BoundM(Conc(vars(c.cls)[name]), v)
                return
            yield st, BoundM(name, v)
            return
        if isinstance(v, SuperV):
            c = st.heap[v.self.addr] if isinstance(v.self, Ref) else None
            cls = c.cls if c else type(v.self)
            k, d = self.find_in_mro(cls, name, after=v.cls)
            if k is None:
                yield st, self.exc(AttributeError, Conc(name))
                return
            yield from self.bind_descr(st, k, d, v.self, name)
            return
        if isinstance(v, Conc):
            if isinstance(v.v, types.ModuleType) or isinstance(v.v, type) or True:
                try:
                    r = inspect.getattr_static(v.v, name) if False else getattr(v.v, name)
                except AttributeError:
                    yield st, self.exc(AttributeError, Conc(name))
                    return
                except Exception as ex:
                    raise Unsupported(f"getattr {v!r}.{name}: {ex}")
                if inspect.ismethod(r) and self.is_repo(r.__func__):
                    yield st, BoundM(Conc(r.__func__), Conc(r.__self__))
                    return
                if isinstance(v.v, (str, bytes, dict, list, tuple, set)) and callable(r) and not isinstance(v.v, type):
                    yield st, BoundM(name, v)
                    return
                yield st, Conc(r)
                return
        if isinstance(v, (SStr, Tup, SInt, SBool)):
            if name == "__class__":
                yield st, Conc({SStr: str, Tup: tuple, SInt: int, SBool: bool}[type(v)])
                return
            yield st, BoundM(name, v)
            return
        if isinstance(v, SVal):
            tag0 = v.tag[0] if isinstance(v.tag, tuple) else v.tag
            h = self.attr_overrides.get((tag0, name)) or self.attr_overrides.get((tag0, None))
            if h:
                r = h(self, st, v, name)
                if r is not None:
                    yield from r
                    return
            if tag0 == "inst":
                sch = self.schemas[v.tag[1]]
                if name in sch.attrs:
                    yield st, self.typed(self.ufV(f"attr.{name}", v.t), sch.attrs[name], st)
                    return
                if name in sch.methods:
                    yield st, BoundM(name, v)
                    return
                if name == "__class__":
                    yield st, SVal(self.ufV("class_of", v.t), ("class",))
                    return
                if sch.cls is not None:
                    k, d = self.find_in_mro(sch.cls, name)
                    if k is not None:
                        yield from self.bind_descr(st, k, d, v, name)
                        return
                yield st, self.exc(AttributeError, Conc(name))
                return
            if name == "__dict__":
                self.event(st, "getattr", obj=v, name=name)
                yield st, SVal(self.ufV(f"attr.{name}", v.t), ("attr", name, v))
                return
            if tag0 in ("list", "dict", "set", "json", "str", "sdict"):
                yield st, BoundM(name, v)
                return
            if tag0 in self.ext_tags:
                yield st, BoundM(name, v)
                return
            self.event(st, "getattr", obj=v, name=name)
            yield st, SVal(self.ufV(f"attr.{name}", v.t), ("attr", name, v))
            return
        if isinstance(v, Closure):
            if name == "__name__":
                yield st, Conc(v.name)
                return
        if isinstance(v, BoundM):
            if name == "__self__":
                yield st, v.self
                return
        if isinstance(v, ExcV):
            yield st, SVal(z3.Const(self.fresh(f"exc.{name}"), V))
            return
        raise Unsupported(f"getattr {v!r}.{name}")

    def is_repo(self, fn):
        fn = inspect.unwrap(fn) if callable(fn) and not isinstance(fn, type) else fn
        code = getattr(fn, "__code__", None)
        return code is not None and code.co_filename.startswith(self.roots)

    def setattr(self, st, obj, name, v):
        """yields (st, outcome)"""
        if isinstance(obj, Ref) and isinstance(st.heap[obj.addr], ObjCell):
            c = st.heap[obj.addr]
            if "__stored__" in c.attrs:
                raise Unsupported("object changed after it was stored in a loop")
            st.heap[obj.addr] = ObjCell(c.cls, {**c.attrs, name: v})
            yield st, None
            return
        if isinstance(obj, SVal):
            hh = self.attr_overrides.get((obj.tag[0], "__setattr__")) if isinstance(obj.tag, tuple) else None
            if hh:
                yield from hh(self, st, obj, name, v)
                return
            self.event(st, "setattr", obj=obj, name=name, value=v)
            yield st, None
            return
        if isinstance(obj, Conc):
            self.event(st, "live_write", obj=obj, name=name, value=v)
            yield st, None
            return
        raise Unsupported(f"setattr on {obj!r}")

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            for s, vs in self.evs([e.value] + [p for p in parts if p is not None], st):
                if isinstance(vs, Raise):
                    yield s, vs
                    continue
                it = iter(vs[1:])
                lo, hi, step = [next(it) if p is not None else None for p in parts]
                yield from self.slice(s, vs[0], lo, hi, step)
            return
        for s, vs in self.evs([e.value, e.slice], st):
            if isinstance(vs, Raise):
                yield s, vs
            else:
                yield from self.subscript(s, vs[0], vs[1])

    def slice(self, st, v, lo, hi, step):
        t = self.as_tuple(v)
        cs = [x.v if isinstance(x, Conc) else (None if x is None else Ellipsis) for x in (lo, hi, step)]
        if t is not None and Ellipsis not in cs:
            yield st, Tup(tuple(t)[slice(*cs)])
            return
        if isinstance(v, Conc) and Ellipsis not in cs:
            yield st, Conc(v.v[slice(*cs)])
            return
        if isinstance(v, Ref) and isinstance(st.heap[v.addr], ListCell) and Ellipsis not in cs:
            segs = self.norm_segs(st, st.heap[v.addr].segs)
            if all(isinstance(x, Known) for x in segs):
                vals = segs[0].vals if segs else ()
                yield st, self.new_list(st, vals[slice(*cs)])
                return
            if cs == [None, None, None]:
                yield st, self.alloc(st, ListCell(segs))
                return
        if self.str_of(v) is None and cs[2] is None and isinstance(cs[0], (int, type(None))) and isinstance(cs[1], (int, type(None))) and (cs[0] or 0) >= 0 and (cs[1] is None or cs[1] < 0) \
                and (isinstance(v, Ref) and isinstance(st.heap[v.addr], ListCell) or isinstance(v, SVal) and isinstance(v.tag, tuple) and v.tag[0] == "list"):
            lo_, af_ = cs[0] or 0, -(cs[1] or 0)
            t = self.reify(st, v)
            if lo_ == 0 and af_ == 0:
                mid = t
            else:
                mid = self.ufV("mid", t, z3.IntVal(lo_), z3.IntVal(af_))
            ety = v.tag[1] if isinstance(v, SVal) else self.elem_ty(st, st.heap[v.addr].segs)
            yield st, SVal(mid, ("list", ety))
            return
        args = [self.reify(st, v)] + [self.reify(st, x) if x is not None else V.none for x in (lo, hi, step)]
        if self.str_of(v) is not None:
            yield st, SStr(self.ufV("str.slice", *args, res=z3.StringSort()))
            return
        tag = v.tag if isinstance(v, SVal) else None
        if isinstance(v, Ref) and isinstance(st.heap[v.addr], ListCell):
            tag = ("list", self.elem_ty(st, st.heap[v.addr].segs))
        yield st, SVal(self.ufV("slice", *args), tag)

    def elem_ty(self, st, segs):
        tys = set()
        for s in segs:
            if isinstance(s, Known):
                tys |= {"str" if self.str_of(x) is not None else None for x in s.vals}
            elif isinstance(s, SeqVar):
                x = s.at(z3.Int("i@proto"))
                tys.add("str" if isinstance(x, SStr) else (x.tag if isinstance(x, SVal) and isinstance(x.tag, (str, tuple)) else None))
            else:
                tys.add(None)
        return tys.pop() if len(tys) == 1 else None

    def subscript(self, st, v, k):
        t = self.as_tuple(v)
        if t is not None and isinstance(k, Conc) and isinstance(k.v, int):
            if -len(t) <= k.v < len(t):
                yield st, t[k.v]
            else:
                yield st, self.exc(IndexError)
            return
        if isinstance(v, Conc):
            if isinstance(k, Conc):
                try:
                    yield st, Conc(v.v[k.v])
                except Exception as ex:
                    yield st, self.exc(type(ex))
                return
            if isinstance(v.v, dict):
                ks = list(v.v)
                if len(ks) <= 64:
                    s = st
                    for kk in ks:
                        nxt = None
                        for s1, b in self.branch(s, self.py_eq(s, k, Conc(kk))):
                            if b:
                                yield s1, Conc(v.v[kk])
                            else:
                                nxt = s1
                        if nxt is None:
                            return
                        s = nxt
                    yield s, self.exc(KeyError)
                    return
            self.event(st, "subscript_live", obj=v, key=k)
            yield st.fork(), self.exc(KeyError)
            yield st, SVal(self.ufV("getitem", self.const_of(v.v), self.reify(st, k)), ("item_of", v.v))
            return
        if isinstance(v, Ref):
            c = st.heap[v.addr]
            if isinstance(c, DictCell):
                for s, r in self.dict_get(st, v, k):
                    if r is None:
                        yield s, self.exc(KeyError, k)
                    else:
                        yield s, r
                return
            if isinstance(c, ListCell):
                segs = self.norm_segs(st, c.segs)
                if isinstance(k, Conc) and isinstance(k.v, int):
                    if not segs:
                        yield st, self.exc(IndexError)
                        return
                    if k.v >= 0 and isinstance(segs[0], Known) and k.v < len(segs[0].vals):
                        yield st, segs[0].vals[k.v]
                        return
                    if k.v < 0 and isinstance(segs[-1], Known) and -k.v <= len(segs[-1].vals):
                        yield st, segs[-1].vals[k.v]
                        return
                    if all(isinstance(s, Known) for s in segs):
                        yield st, self.exc(IndexError)
                        return
                if len(segs) == 1 and isinstance(k, SInt) and isinstance(segs[0], (SeqVar, SeqFlat)):
                    g = segs[0]
                    src = g if isinstance(g, SeqVar) else g.src
                    if self.prover.valid(st.pc, z3.And(k.t >= 0, k.t < src.len)) == "valid":
                        if isinstance(g, SeqVar):
                            yield st, g.at(k.t)
                            return
                        if len(g.cases) == 1 and z3.is_true(g.cases[0][0]) and len(g.cases[0][1]) == 1:
                            x = self.subst_seg(g.cases[0][1][0], [(g.idx, k.t)])
                            if isinstance(x, Known) and len(x.vals) == 1:
                                yield st, x.vals[0]
                                return
                t = self.reify_segs(st, segs, c.kind)
                n = self.ufV("len", t, res=z3.IntSort())
                yield st.fork(), self.exc(IndexError)
                yield st, self.typed(self.ufV("index", t, self.reify(st, k)), self.elem_ty(st, segs))
                return
        if isinstance(v, SVal):
            tag0 = v.tag[0] if isinstance(v.tag, tuple) else v.tag
            if tag0 == "dict":
                r = self.reify(st, k)
                q = z3.simplify(r)
                while q.decl().eq(V.S) and q.arg(0).decl().eq(V.s):
                    q = q.arg(0).arg(0)
                if q.decl().name() == "keyat" and q.arg(0).eq(v.t):
                    # a key obtained by iterating over this dict
                    yield st, self.typed(self.ufV("val", v.t, q), v.tag[2], st)
                    return
                has = self.ufV("has", v.t, r, res=z3.BoolSort())
                for s, b in self.branch(st, has):
                    if b:
                        s.assume(self.ufV("len", v.t, res=z3.IntSort()) > 0)
                        yield s, self.typed(self.ufV("val", v.t, r), v.tag[2], s)
                    else:
                        yield s, self.exc(KeyError, k)
                return
            if tag0 == "json":
                # str/number/None/missing key/out of range: KeyError/TypeError/IndexError
                r = self.reify(st, k)
                ok = self.ufV("has", v.t, r, res=z3.BoolSort())
                for s, b in self.branch(st, ok):
                    if b:
                        yield s, SVal(self.ufV("val", v.t, r), "json")
                    else:
                        yield s, self.exc(LookupError, exact=False)
                return
            if tag0 == "list":
                n = self.ufV("len", v.t, res=z3.IntSort())
                if isinstance(k, Conc) and isinstance(k.v, int):
                    i = z3.IntVal(k.v) if k.v >= 0 else n + k.v
                    for s, b in self.branch(st, z3.And(i >= 0, i < n)):
                        if b:
                            yield s, self.typed(self.ufV("at", v.t, i), v.tag[1], s)
                        else:
                            yield s, self.exc(IndexError)
                    return
            h = self.attr_overrides.get((tag0, "__getitem__"))
            if h:
                yield from h(self, st, v, k)
                return
            self.event(st, "getitem", obj=v, key=k)
            yield st.fork(), self.exc(LookupError, exact=False)
            yield st, SVal(self.ufV("getitem", v.t, self.reify(st, k)))
            return
        if self.str_of(v) is not None:
            yield st, SStr(self.ufV("str.index", self.str_of(v), self.reify(st, k), res=z3.StringSort()))
            return
        raise Unsupported(f"subscript {v!r}[{k!r}]")

    # --------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            selfname = None
            fr = st.frame
            env = st.envs[fr.env]
            while env.get(".comp"):
                env = st.envs[env[".parent"]]
            yield st, SuperV(fr.fn.cells.get("__class__") if fr.fn.cells and "__class__" in fr.fn.cells else fr.fn.cls, env[".self"])
            return
        for s, f in self.ev(e.func, st):
            if isinstance(f, Raise):
                yield s, f
                continue
            exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            for s2, vs in self.evs(exprs, s):
                if isinstance(vs, Raise):
                    yield s2, vs
                    continue
                args, kwargs, bad = [], {}, None
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        segs = self.norm_segs(s2, self.iter_segs(s2, v))
                        if all(isinstance(x, Known) for x in segs):
                            for x in segs:
                                args.extend(x.vals)
                        else:
                            args.append(StarArgs(v, segs))
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        for sg in self.dict_segs(s2, v):
                            if sg[0] == "k" and isinstance(sg[1], Conc) and isinstance(sg[1].v, str):
                                kwargs[sg[1].v] = sg[2]
                            else:
                                kwargs.setdefault("**", []).append(sg)
                    else:
                        kwargs[k.arg] = v
                s2.ghost["_line"] = e.lineno
                yield from self.call(s2, f, args, kwargs, node=e)

    def call(self, st, f, args, kwargs, node=None):
        self.tick()
        if isinstance(f, BoundM):
            if isinstance(f.fn, str):
                yield from self.call_builtin_method(st, f.fn, f.self, args, kwargs)
                return
            yield from self.call(st, f.fn, [f.self] + list(args), kwargs, node)
            return
        if isinstance(f, Conc):
            live = f.v
            h = self.contracts.get(_k(live))
            if h is not None:
                yield from h(self, st, args, kwargs)
                return
            h = self.ext.get(_k(live))
            if h is not None:
                yield from self.ext_call(st, live, h, args, kwargs)
                return
            if isinstance(live, types.MethodType):
                yield from self.call(st, Conc(live.__func__), [Conc(live.__self__)] + list(args), kwargs)
                return
            if isinstance(live, type):
                yield from self.instantiate(st, live, args, kwargs)
                return
            if isinstance(live, types.FunctionType):
                w = getattr(live, "__wrapped__", None)
                if w is not None and live.__code__.co_filename.endswith("contextlib.py"):
                    yield st, CtxCall(self.closure_of(w), tuple(args), dict(kwargs))
                    return
                if self.is_repo(live) and w is None:
                    yield from self.call_closure(st, self.closure_of(live), args, kwargs)
                    return
            yield from self.unknown_call(st, f, args, kwargs)
            return
        if isinstance(f, Closure):
            if any(ast.unparse(d).endswith("contextmanager") for d in getattr(f.node, "decorator_list", [])):
                yield st, CtxCall(f, tuple(args), dict(kwargs))
                return
            yield from self.call_closure(st, f, args, kwargs)
            return
        if isinstance(f, (SVal, Ref)):
            if isinstance(f, Ref) and isinstance(st.heap[f.addr], ObjCell):
                k, d = self.find_in_mro(st.heap[f.addr].cls, "__call__")
                if k is not None:
                    yield from self.call(st, Conc(d), [f] + list(args), kwargs)
                    return
            if isinstance(f, SVal) and isinstance(f.tag, tuple) and f.tag[0] == "inst":
                sch = self.schemas[f.tag[1]]
                if sch.cls is not None:
                    k, d = self.find_in_mro(sch.cls, "__call__")
                    if k is not None:
                        yield from self.call(st, Conc(d), [f] + list(args), kwargs)
                        return
            hh = self.attr_overrides.get((f.tag[0], "__call__")) if isinstance(f, SVal) and isinstance(f.tag, tuple) else None
            if hh:
                yield from hh(self, st, f, args, kwargs)
                return
            yield from self.unknown_call(st, f, args, kwargs)
            return
        raise Unsupported(f"call {f!r}")

    @staticmethod
    def unknown_name(f):
        if isinstance(f, Conc):
            return f"{getattr(f.v, '__module__', None) or type(f.v).__name__}.{getattr(f.v, '__qualname__', None) or getattr(f.v, '__name__', '?')}"
        if isinstance(f, SVal):
            return "attribute of a value" if isinstance(f.tag, tuple) and f.tag[0] in ("attr", "attr_of") else f"value {f.tag[0] if isinstance(f.tag, tuple) else f.tag}"
        return type(f).__name__

    def unknown_call(self, st, f, args, kwargs):
        """External code without a trusted contract: reported as an event; result opaque."""
        self.unknown.add(self.unknown_name(f))
        self.event(st, "call_unknown", fn=f, args=args, kwargs=kwargs)
        for a in list(args) + [v for k, v in kwargs.items() if k != "**"]:
            if isinstance(a, Ref):
                self.havoc_ref(st, a)
        s2 = st.fork()
        if getattr(self.policy, "may_raise", False):
            yield s2, Raise(ExcV(Exception, (), False))
        nm = getattr(f.v, "__qualname__", "obj") if isinstance(f, Conc) else "val"
        yield st, SVal(z3.Const(self.fresh(f"ret.{nm}"), V), ("ret", f))

    def havoc_ref(self, st, r):
        c = st.heap[r.addr]
        if isinstance(c, ListCell):
            st.heap[r.addr] = ListCell((SeqOpaque(self.fresh("hv")),), c.kind)
        elif isinstance(c, DictCell):
            st.heap[r.addr] = DictCell((("s", SeqOpaque(self.fresh("hv"))),), c.cls)

    def ext_call(self, st, live, h, args, kwargs):
        self.assumed.add(_name(live))
        yield from h(self, st, args, kwargs)

    def call_closure(self, st, c, args, kwargs, cb=None):
        depth = st.frame.depth + 1 if st.frame else 0
        if depth > self.MAXDEPTH:
            raise Unsupported(f"recursion without contract in {c.name}")
        if c.live is not None:
            self.inlined.add(f"{c.live.__module__}.{c.live.__qualname__}")
        a = c.node.args
        env = self.new_addr()
        d = {".parent": c.env}
        try:
            self.bind_args(st, c, a, list(args), dict(kwargs), d)
        except _ArgError as ex:
            yield st, self.exc(TypeError, Conc(str(ex)))
            return
        if a.args:
            d[".self"] = d[a.args[0].arg]
        st.envs[env] = d
        old = st.frame
        gen = cb is None and is_generator(c.node)
        out = None
        if gen:
            out = self.alloc(st, ListCell(()))
        st.frame = Frame(env, c, out.addr if out else (old.out if False else None), cb, old, depth)
        if isinstance(c.node, ast.Lambda):
            for s, v in self.ev(c.node.body, st):
                s.frame = old
                yield s, v
            return
        for s, o in self.ex(c.node.body, st):
            s.frame = old
            if o is None:
                yield s, (out if gen else Conc(None))
            elif o[0] == "ret":
                yield s, (out if gen else o[1])
            elif o[0] == "raise":
                yield s, Raise(o[1])
            elif o[0] == "cbexit":
                yield s, o
            else:
                raise Unsupported("stray outcome")

    def bind_args(self, st, c, a, args, kwargs, d):
        symkw = kwargs.pop("**", None)
        params = [p.arg for p in a.posonlyargs + a.args]
        stars = [x for x in args if isinstance(x, StarArgs)]
        if stars:
            if len(stars) == 1 and args[-1] is stars[0] and a.vararg and len(args) - 1 >= 0:
                plain = args[:-1]
                n = len(plain)
                if n < len(params):
                    raise Unsupported("symbolic *args into named parameters")
                for p, v in zip(params, plain):
                    d[p] = v
                extra = plain[len(params):]
                d[a.vararg.arg] = self.alloc(st, ListCell(self.norm_segs(st, ((Known(tuple(extra)),) if extra else ()) + tuple(stars[0].segs)), "tuple"))
                args = None
            else:
                raise Unsupported("symbolic *args")
        if args is not None:
            for i, v in enumerate(args):
                if i < len(params):
                    d[params[i]] = v
                elif a.vararg is None:
                    raise _ArgError("too many positional arguments")
            if a.vararg:
                d[a.vararg.arg] = Tup(tuple(args[len(params):]))
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in d:
                    raise _ArgError(f"multiple values for {k}")
                d[k] = v
            elif a.kwarg:
                extra.append(("k", Conc(k), v))
            else:
                raise _ArgError(f"unexpected keyword {k}")
        if symkw:
            if not a.kwarg:
                raise Unsupported("symbolic **kwargs into named parameters")
            extra.extend(symkw)
        if a.kwarg:
            if len(extra) == 1 and extra[0][0] == "s" and isinstance(extra[0][1], SeqVar) and False:
                pass
            d[a.kwarg.arg] = self.alloc(st, DictCell(tuple(extra)))
        nd = len(c.defaults)
        for i, p in enumerate(params):
            if p not in d:
                j = i - (len(params) - nd)
                if j < 0:
                    raise _ArgError(f"missing argument {p}")
                d[p] = self.default_val(c.defaults[j])
        for p in a.kwonlyargs:
            if p.arg not in d:
                if p.arg in c.kwdefaults:
                    d[p.arg] = self.default_val(c.kwdefaults[p.arg])
                else:
                    raise _ArgError(f"missing keyword argument {p.arg}")

    def default_val(self, v):
        return v

    def instantiate(self, st, cls, args, kwargs):
        if issubclass(cls, BaseException):
            # repo exceptions: run nothing, keep the arguments
            yield st, ExcV(cls, tuple(args), True)
            return
        mod = getattr(cls, "__module__", "")
        repo = any(inspect.isclass(k) and self.class_in_repo(k) for k in (cls,))
        if not repo:
            yield from self.unknown_call(st, Conc(cls), args, kwargs)
            return
        r = self.alloc(st, ObjCell(cls, {}))
        if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and not self.is_repo_init(cls):
            fields = [f for f in dataclasses.fields(cls) if f.init]
            vals = {}
            if len(args) > len(fields):
                yield st, self.exc(TypeError)
                return
            for f, v in zip(fields, args):
                vals[f.name] = v
            for k, v in kwargs.items():
                if k == "**":
                    raise Unsupported("symbolic kwargs")
                if k in vals or k not in {f.name for f in fields}:
                    yield st, self.exc(TypeError)
                    return
                vals[k] = v
            for f in fields:
                if f.name in vals:
                    continue
                if f.default is not dataclasses.MISSING:
                    vals[f.name] = Conc(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    if f.default_factory in (dict,):
                        vals[f.name] = self.alloc(st, DictCell(()))
                    elif f.default_factory in (list,):
                        vals[f.name] = self.alloc(st, ListCell(()))
                    else:
                        raise Unsupported("default_factory")
                else:
                    yield st, self.exc(TypeError)
                    return
            st.heap[r.addr] = ObjCell(cls, {f.name: vals[f.name] for f in fields})
            k, d = self.find_in_mro(cls, "__post_init__")
            if k is None:
                yield st, r
                return
            for s, v in self.call(st, Conc(d), [r], {}):
                yield s, (v if isinstance(v, Raise) else r)
            return
        k, init = self.find_in_mro(cls, "__init__")
        if not isinstance(init, types.FunctionType):
            yield st, r
            return
        for s, v in self.call(st, Conc(init), [r] + list(args), kwargs):
            yield s, (v if isinstance(v, Raise) else r)

    def is_repo_init(self, cls):
        f = cls.__dict__.get("__init__")
        return f is not None and getattr(f, "__code__", None) is not None and f.__code__.co_filename.startswith(self.roots)

    def class_in_repo(self, cls):
        m = __import__("sys").modules.get(cls.__module__)
        f = getattr(m, "__file__", None) or ""
        return f.startswith(self.roots)

    def call_builtin_method(self, st, name, selfv, args, kwargs):
        from . import ext
        yield from ext.method(self, st, name, selfv, args, kwargs)

    # ----------------------------------------------------------- yields
    def ev_Yield(self, e, st):
        it = self.ev(e.value, st) if e.value is not None else [(st, Conc(None))]
        for s, v in it:
            if isinstance(v, Raise):
                yield s, v
                continue
            if s.frame.cb is not None:
                yield from s.frame.cb(s, v)
                continue
            a = s.frame.out
            if a is None:
                raise Unsupported("yield outside generator")
            c = s.heap[a]
            s.heap[a] = ListCell(c.segs + (Known((v,)),), c.kind)
            yield s, Conc(None)

    def ev_YieldFrom(self, e, st):
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raise):
                yield s, v
                continue
            a = s.frame.out
            for s2, segs in self.iterate(s, v):
                if isinstance(segs, Raise):
                    yield s2, segs
                    continue
                c = s2.heap[a]
                s2.heap[a] = ListCell(self.norm_segs(s2, c.segs + tuple(segs)), c.kind)
                yield s2, Conc(None)

    def ev_Starred(self, e, st):
        raise Unsupported("starred")

    # ---------------------------------------------------------- statements
    def ex(self, stmts, st):
        """yield (st, outcome)"""
        if not stmts:
            yield st, None
            return
        for s, o in self.ex1(stmts[0], st):
            if o is None:
                yield from self.ex(stmts[1:], s)
            else:
                yield s, o

    def ex1(self, n, st):
        self.tick()
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} line {n.lineno}")
        yield from m(n, st)

    def _expr(self, e, st):
        """yield (st, val|None, outcome)"""
        for s, v in self.ev(e, st):
            if isinstance(v, Raise):
                yield s, None, ("raise", v.exc)
            elif isinstance(v, tuple) and v and v[0] == "cbexit":
                yield s, None, v
            else:
                yield s, v, None

    def ex_Expr(self, n, st):
        for s, v, o in self._expr(n.value, st):
            yield s, o

    def ex_Pass(self, n, st):
        yield st, None

    def ex_Return(self, n, st):
        if n.value is None:
            yield st, ("ret", Conc(None))
            return
        for s, v, o in self._expr(n.value, st):
            yield s, (o or ("ret", v))

    def ex_Break(self, n, st):
        yield st, ("brk",)

    def ex_Continue(self, n, st):
        yield st, ("cont",)

    def ex_Global(self, n, st):
        d = st.envs[st.frame.env]
        d[".global"] = tuple(d.get(".global", ())) + tuple(n.names)
        yield st, None

    def ex_Nonlocal(self, n, st):
        d = st.envs[st.frame.env]
        d[".nonlocal"] = tuple(d.get(".nonlocal", ())) + tuple(n.names)
        yield st, None

    def ex_Assert(self, n, st):
        for s, v, o in self._expr(n.test, st):
            if o:
                yield s, o
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                yield s2, (None if b else ("raise", ExcV(AssertionError)))

    def ex_Import(self, n, st):
        for a in n.names:
            self.event(st, "import_stmt", name=a.name)
            try:
                m = __import__(a.name)
                if a.asname and "." in a.name:
                    m = __import__("importlib").import_module(a.name)
            except ImportError as ex:
                yield st, ("raise", ExcV(ImportError))
                return
            self.bind_name(st, a.asname or a.name.split(".")[0], Conc(m))
        yield st, None

    def ex_ImportFrom(self, n, st):
        import importlib
        pkg = st.frame.fn.glob.get("__package__") or st.frame.fn.glob.get("__name__", "").rpartition(".")[0]
        name = "." * n.level + (n.module or "")
        self.event(st, "import_stmt", name=name)
        try:
            m = importlib.import_module(name, package=pkg)
            for a in n.names:
                self.bind_name(st, a.asname or a.name, Conc(getattr(m, a.name)))
        except (ImportError, AttributeError):
            yield st, ("raise", ExcV(ImportError))
            return
        yield st, None

    def ex_FunctionDef(self, n, st):
        vals = []
        for d in n.args.defaults:
            rs = list(self.ev(d, st))
            if len(rs) != 1 or isinstance(rs[0][1], Raise):
                raise Unsupported("default")
            vals.append(rs[0][1])
        kw = {}
        for p, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
            if d is not None:
                kw[p.arg] = next(iter(self.ev(d, st)))[1]
        if n.decorator_list and not all(ast.unparse(d).endswith("contextmanager") for d in n.decorator_list):
            raise Unsupported("decorated inner function")
        self.bind_name(st, n.name, Closure(n, st.frame.env, st.frame.fn.glob, tuple(vals), kw, name=n.name, cls=st.frame.fn.cls, cells=st.frame.fn.cells))
        yield st, None

    def ex_Assign(self, n, st):
        for s, v, o in self._expr(n.value, st):
            if o:
                yield s, o
                continue
            yield from self.assign_all(n.targets, v, s)

    def assign_all(self, targets, v, st):
        if not targets:
            yield st, None
            return
        for s, o in self.assign(targets[0], v, st):
            if o:
                yield s, o
            else:
                yield from self.assign_all(targets[1:], v, s)

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            yield st, None
            return
        for s, v, o in self._expr(n.value, st):
            if o:
                yield s, o
            else:
                yield from self.assign(n.target, v, s)

    def ex_AugAssign(self, n, st):
        load = ast.copy_location(_as_load(n.target), n.target)
        for s, vs in self.evs([load, n.value], st):
            if isinstance(vs, Raise):
                yield s, ("raise", vs.exc)
                continue
            a, b = vs
            op = type(n.op).__name__
            if isinstance(a, Ref) and isinstance(s.heap[a.addr], ListCell) and op in ("Add", "BitOr"):
                c = s.heap[a.addr]
                if (op == "Add") == (c.kind == "list"):
                    for s2, segs in self.iterate(s, b):
                        if isinstance(segs, Raise):
                            yield s2, ("raise", segs.exc)
                            continue
                        c = s2.heap[a.addr]
                        s2.heap[a.addr] = ListCell(self.norm_segs(s2, c.segs + tuple(segs)), c.kind)
                        yield s2, None
                    continue
            tags = [x.tag[0] if isinstance(x.tag, tuple) else x.tag for x in (a, b) if isinstance(x, SVal)]
            if isinstance(a, SVal) and op in ("Add", "BitOr") and tags[0] in ("json", "list", "dict", "set", None) and (isinstance(b, Ref) or tags[1:] and tags[1] in ("json", "list", "dict", "set", None)):
                self.event(s, "mutate", obj=a, name="+=")
            for s2, v in self.binop(s, op, a, b):
                if isinstance(v, Raise):
                    yield s2, ("raise", v.exc)
                else:
                    yield from self.assign(n.target, v, s2)

    def assign(self, t, v, st):
        """yield (st, outcome)"""
        if isinstance(t, ast.Name):
            if st.envs[st.frame.env].get(".comp"):
                st.envs[st.frame.env][t.id] = v
            else:
                self.bind_name(st, t.id, v)
            yield st, None
        elif isinstance(t, ast.Attribute):
            for s, ov, o in self._expr(t.value, st):
                if o:
                    yield s, o
                else:
                    yield from self.setattr(s, ov, t.attr, v)
        elif isinstance(t, ast.Subscript):
            for s, vs in self.evs([t.value, t.slice], st):
                if isinstance(vs, Raise):
                    yield s, ("raise", vs.exc)
                    continue
                yield from self.setitem(s, vs[0], vs[1], v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            yield from self.unpack(t.elts, v, st)
        else:
            raise Unsupported(f"assign to {type(t).__name__}")

    def setitem(self, st, obj, k, v):
        if isinstance(obj, Ref):
            c = st.heap[obj.addr]
            if isinstance(c, DictCell):
                self.dict_set(st, obj, k, v)
                yield st, None
                return
            if isinstance(c, ListCell):
                segs = self.norm_segs(st, c.segs)
                if isinstance(k, Conc) and len(segs) == 1 and isinstance(segs[0], Known) and -len(segs[0].vals) <= k.v < len(segs[0].vals):
                    vals = list(segs[0].vals)
                    vals[k.v] = v
                    st.heap[obj.addr] = ListCell((Known(tuple(vals)),), c.kind)
                    yield st, None
                    return
                st.heap[obj.addr] = ListCell((SeqOpaque(self.fresh("set")),), c.kind)
                yield st, None
                return
        if isinstance(obj, SVal):
            tag0 = obj.tag[0] if isinstance(obj.tag, tuple) else obj.tag
            h = self.attr_overrides.get((tag0, "__setitem__"))
            if h:
                yield from h(self, st, obj, k, v)
                return
            self.event(st, "setitem", obj=obj, key=k, value=v)
            yield st, None
            return
        if isinstance(obj, Conc):
            self.event(st, "live_write", obj=obj, name=None, value=v)
            yield st, None
            return
        raise Unsupported(f"setitem on {obj!r}")

    def unpack(self, elts, v, st):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        t = self.as_tuple(v)
        if t is None:
            h = getattr(self, "unpack_hook", None)
            r = h(st, v, len(elts), stars) if h else None
            if r is not None:
                for s, t2 in r:
                    if isinstance(t2, Raise):
                        yield s, ("raise", t2.exc)
                    else:
                        yield from self._assign_each(elts, t2, s)
                return
            segs = None
            for s, segs in self.iterate(st, v):
                if isinstance(segs, Raise):
                    yield s, ("raise", segs.exc)
                    continue
                segs = self.norm_segs(s, segs)
                if all(isinstance(x, Known) for x in segs):
                    yield from self._unpack_known(elts, segs[0].vals if segs else (), stars, s)
                elif stars:
                    yield from self._unpack_star(elts, segs, stars[0], s)
                else:
                    n = len(elts)
                    tt = self.reify_segs(s, segs, "list")
                    ln = segs[0].len if len(segs) == 1 and isinstance(segs[0], SeqVar) else self.ufV("len", tt, res=z3.IntSort())
                    for s2, b in self.branch(s, ln == n):
                        if b:
                            ety = self.elem_ty(s2, segs)
                            if len(segs) == 1 and isinstance(segs[0], SeqVar):
                                vals = [segs[0].at(z3.IntVal(i)) for i in range(n)]
                            else:
                                vals = [self.typed(self.ufV("at", tt, z3.IntVal(i)), ety) for i in range(n)]
                            yield from self._assign_each(elts, vals, s2)
                        else:
                            yield s2, ("raise", ExcV(ValueError))
            return
        yield from self._unpack_known(elts, t, stars, st)

    def _unpack_known(self, elts, t, stars, st):
        if not stars:
            if len(t) != len(elts):
                yield st, ("raise", ExcV(ValueError))
                return
            yield from self._assign_each(elts, t, st)
            return
        i = stars[0]
        after = len(elts) - i - 1
        if len(t) < len(elts) - 1:
            yield st, ("raise", ExcV(ValueError))
            return
        mid = t[i:len(t) - after]
        vals = list(t[:i]) + [self.new_list(st, mid)] + list(t[len(t) - after:])
        yield from self._assign_each(elts, vals, st)

    def _unpack_star(self, elts, segs, i, st):
        # symbolic length; head/tail terms by position
        t = self.reify_segs(st, segs, "list")
        n = self.ufV("len", t, res=z3.IntSort())
        ety = self.elem_ty(st, segs)
        after = len(elts) - i - 1
        for s, b in self.branch(st, n >= len(elts) - 1):
            if not b:
                yield s, ("raise", ExcV(ValueError))
                continue
            vals = [self.typed(self.ufV("at", t, z3.IntVal(j)), ety, s) for j in range(i)]
            mid = SVal(self.ufV("mid", t, z3.IntVal(i), z3.IntVal(after)), ("list", ety))
            tail = [self.typed(self.ufV("at", t, n - (after - j)), ety, s) for j in range(after)]
            yield from self._assign_each(elts, vals + [mid] + tail, s)

    def _assign_each(self, elts, vals, st):
        if not elts:
            yield st, None
            return
        t = elts[0].value if isinstance(elts[0], ast.Starred) else elts[0]
        for s, o in self.assign(t, vals[0], st):
            if o:
                yield s, o
            else:
                yield from self._assign_each(elts[1:], vals[1:], s)

    def ex_Delete(self, n, st):
        def rec(ts, s):
            if not ts:
                yield s, None
                return
            t = ts[0]
            if isinstance(t, ast.Name):
                s.envs[s.frame.env].pop(t.id, None)
                yield from rec(ts[1:], s)
            elif isinstance(t, ast.Attribute):
                for s1, ov, o in self._expr(t.value, s):
                    if o:
                        yield s1, o
                        continue
                    yield from self.then(self.delattr(s1, ov, t.attr), lambda s2: rec(ts[1:], s2))
            elif isinstance(t, ast.Subscript):
                for s1, vs in self.evs([t.value, t.slice], s):
                    if isinstance(vs, Raise):
                        yield s1, ("raise", vs.exc)
                        continue
                    yield from self.then(self.delitem(s1, vs[0], vs[1]), lambda s2: rec(ts[1:], s2))
            else:
                raise Unsupported("del")
        yield from rec(n.targets, st)

    def then(self, it, f):
        for s, o in it:
            if o:
                yield s, o
            else:
                yield from f(s)

    def delattr(self, st, obj, name):
        if isinstance(obj, Ref) and isinstance(st.heap[obj.addr], ObjCell):
            c = st.heap[obj.addr]
            if name not in c.attrs:
                yield st, ("raise", ExcV(AttributeError))
                return
            st.heap[obj.addr] = ObjCell(c.cls, {k: v for k, v in c.attrs.items() if k != name})
            yield st, None
            return
        self.event(st, "setattr", obj=obj, name=name, value=None)
        yield st, None

    def delitem(self, st, obj, k):
        if isinstance(obj, SVal):
            tag0 = obj.tag[0] if isinstance(obj.tag, tuple) else obj.tag
            h = self.attr_overrides.get((tag0, "__delitem__"))
            if h:
                yield from h(self, st, obj, k)
                return
        if isinstance(obj, Ref) and isinstance(st.heap[obj.addr], DictCell) and isinstance(k, Conc):
            c = st.heap[obj.addr]
            segs = [s for s in c.segs if not (s[0] == "k" and isinstance(s[1], Conc) and s[1].v == k.v)]
            if len(segs) < len(c.segs):
                st.heap[obj.addr] = DictCell(tuple(segs), c.cls)
                yield st, None
                return
        raise Unsupported("del item")

    def ex_Raise(self, n, st):
        if n.exc is None:
            cur = st.envs[st.frame.env].get(".exc")
            e = st.frame.env
            while cur is None and e:
                e = st.envs[e].get(".parent", 0)
                cur = st.envs[e].get(".exc") if e else None
            yield st, ("raise", cur if cur is not None else ExcV(RuntimeError))
            return
        for s, v, o in self._expr(n.exc, st):
            if o:
                yield s, o
            elif isinstance(v, ExcV):
                if n.cause is not None:
                    for s2, cv, o2 in self._expr(n.cause, s):
                        yield s2, (o2 or ("raise", v))
                else:
                    yield s, ("raise", v)
            elif isinstance(v, Conc) and isinstance(v.v, type) and issubclass(v.v, BaseException):
                yield s, ("raise", ExcV(v.v))
            else:
                yield s, ("raise", ExcV(Exception, (), False))

    def ex_If(self, n, st):
        for s, v, o in self._expr(n.test, st):
            if o:
                yield s, o
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                yield from self.ex(n.body if b else n.orelse, s2)

    def ex_For(self, n, st):
        for s, it, o in self._expr(n.iter, st):
            if o:
                yield s, o
                continue
            for s1, segs in self.iterate(s, it):
                if isinstance(segs, Raise):
                    yield s1, ("raise", segs.exc)
                    continue

                def body(s2, elem):
                    for s3, o3 in self.assign(n.target, elem, s2):
                        if o3:
                            yield s3, o3
                        else:
                            yield from self.ex(n.body, s3)
                for s2, o2 in self.loop(s1, segs, body):
                    if o2 is None:
                        yield from self.ex(n.orelse, s2)
                    elif o2[0] == "brk":
                        yield s2, None
                    else:
                        yield s2, o2

    def ex_While(self, n, st):
        if getattr(self, "unroll_while", 0):
            # the caller bounds the number of iterations; a path that is not done by then is out of reach
            yield from self.unrolled(n, st, self.unroll_while)
            return
        # concrete unrolling first
        cur = [st]
        for _ in range(64):
            nxt = []
            symbolic = False
            for s in cur:
                for s1, v, o in self._expr(n.test, s.fork()):
                    if o:
                        yield s1, o
                        continue
                    t = z3.simplify(self.truth(s1, v))
                    if not (z3.is_true(t) or z3.is_false(t)):
                        symbolic = True
                        break
                    if z3.is_false(t):
                        yield from self.ex(n.orelse, s1)
                        continue
                    for s2, o2 in self.ex(n.body, s1):
                        if o2 is None or o2[0] == "cont":
                            nxt.append(s2)
                        elif o2[0] == "brk":
                            yield s2, None
                        else:
                            yield s2, o2
                if symbolic:
                    break
            if symbolic:
                break
            cur = nxt
            if not cur:
                return
        else:
            raise Unsupported("while bound")
        if len(cur) != 1:
            raise Unsupported("symbolic while after unrolling")
        s = cur[0]
        key = self.fresh("while")
        src = SeqVar(key, None, lambda i: Conc(None), z3.Int(f"n@{key}"))

        def body(s2, elem):
            for s3, v, o in self._expr(n.test, s2):
                if o:
                    yield s3, o
                    continue
                for s4, b in self.branch(s3, self.truth(s3, v)):
                    if b:
                        yield from self.ex(n.body, s4)
                    # leaving the loop is modelled by exhaustion below
        for s2, o2 in self.loop(s, (src,), body):
            if o2 is None:
                for s3, v, o in self._expr(n.test, s2):
                    if o:
                        yield s3, o
                        continue
                    for s4, b in self.branch(s3, self.truth(s3, v)):
                        if not b:
                            yield from self.ex(n.orelse, s4)
            elif o2[0] == "brk":
                yield s2, None
            else:
                yield s2, o2

    def unrolled(self, n, st, left):
        for s1, v, o in self._expr(n.test, st.fork()):
            if o:
                yield s1, o
                continue
            for s2, b in self.branch(s1, self.truth(s1, v)):
                if not self.feasible(s2):
                    continue
                if not b:
                    yield from self.ex(n.orelse, s2)
                    continue
                if not left:
                    raise Unsupported("while bound")
                for s3, o3 in self.ex(n.body, s2):
                    if o3 is None or o3[0] == "cont":
                        yield from self.unrolled(n, s3, left - 1)
                    elif o3[0] == "brk":
                        yield s3, None
                    else:
                        yield s3, o3

    def match_exc(self, exc, cls):
        """'yes' | 'no' | 'maybe'"""
        classes = cls if isinstance(cls, tuple) else (cls,)
        r = "no"
        for c in classes:
            if issubclass(exc.cls, c):
                return "yes"
            if not exc.exact and issubclass(c, exc.cls):
                r = "maybe"
        return r

    def ex_Try(self, n, st):
        def handlers(s, exc, i=0):
            if i == len(n.handlers):
                yield s, ("raise", exc)
                return
            h = n.handlers[i]
            if h.type is None:
                m = "yes"
                cls = BaseException
            else:
                rs = list(self.ev(h.type, s))
                tv = rs[0][1]
                s = rs[0][0]
                if isinstance(tv, Conc):
                    cls = tv.v
                elif isinstance(tv, Tup):
                    cls = tuple(x.v for x in tv.items)
                else:
                    raise Unsupported("except type")
                m = self.match_exc(exc, cls)
            if m == "maybe":
                yield from handlers(s.fork(), exc, i + 1)
                first = cls[0] if isinstance(cls, tuple) else cls
                exc = ExcV(first, exc.args, False) if not isinstance(cls, tuple) else exc
            if m in ("yes", "maybe"):
                d = s.envs[s.frame.env]
                prev = d.get(".exc")
                d[".exc"] = exc
                if h.name:
                    self.bind_name(s, h.name, exc)
                for s2, o in self.ex(h.body, s):
                    s2.envs[s2.frame.env][".exc"] = prev
                    yield s2, o
            else:
                yield from handlers(s, exc, i + 1)

        def main():
            for s, o in self.ex(n.body, st):
                if o is not None and o[0] == "raise":
                    yield from handlers(s, o[1])
                elif o is None:
                    yield from self.ex(n.orelse, s)
                else:
                    yield s, o
        for s, o in main():
            if not n.finalbody:
                yield s, o
                continue
            for s2, o2 in self.ex(n.finalbody, s):
                yield s2, (o2 if o2 is not None else o)

    def ex_With(self, n, st):
        yield from self.with_items(n.items, n.body, st)

    def with_items(self, items, body, st):
        if not items:
            yield from self.ex(body, st)
            return
        item = items[0]
        for s, cm, o in self._expr(item.context_expr, st):
            if o:
                yield s, o
                continue
            yield from self.with_cm(s, cm, item.optional_vars, lambda s2: self.with_items(items[1:], body, s2))

    def with_cm(self, st, cm, target, inner):
        if isinstance(cm, CtxCall):
            # run the @contextmanager generator; its yield runs the with-body
            def cb(s, v):
                fr = s.frame
                s.frame = outer
                its = self.assign(target, v, s) if target is not None else [(s, None)]
                for s2, o in its:
                    res = [(s2, o)] if o else inner(s2)
                    for s3, o3 in res:
                        s3.frame = fr
                        if o3 is None:
                            yield s3, Conc(None)
                        elif o3[0] == "raise":
                            yield s3, Raise(o3[1])
                        else:
                            s3.ghost["_cbexit"] = o3
                            s3.ghost["_cbpending"] = True
                            # leave through the rest of the generator (normal completion)
                            yield s3, Conc(None)
            outer = st.frame
            for s, v in self.call_closure(st, cm.fn, cm.args, cm.kwargs, cb=cb):
                if isinstance(v, Raise):
                    yield s, ("raise", v.exc)
                elif s.ghost.pop("_cbpending", False):
                    yield s, s.ghost.pop("_cbexit")
                else:
                    yield s, None
            return
        from . import ext
        yield from ext.with_external(self, st, cm, target, inner)

    # ------------------------------------------------------------ running
    def run(self, fn, args, kwargs=None, st=None):
        """Execute a live function / closure; list of (state, Val|Raise)."""
        st = st or State()
        if st.frame is None:
            st.frame = Frame(0, Closure(None, 0, {}, (), {}), None, None, None, 0)
        f = fn if isinstance(fn, Val) else Conc(fn)
        return self.call(st, f, list(args), dict(kwargs or {}))

    def oblige(self, name, st, goal, detail="", kind="post"):
        """record and try to discharge one obligation"""
        r = self.prover.valid(st.pc, goal)
        o = Obligation(name, self.current, {"valid": "discharged"}.get(r, r), detail, kind=kind)
        if r == "refuted":
            o.model = str(self.prover.last_model)[:2000] if self.prover.last_model is not None else None
            o.detail = (detail + " | path: " + "; ".join(str(c) for c in st.pc[-12:]))[:3000]
        self.obls.append(o)
        return r == "valid"

    def oblige_bool(self, name, ok, detail="", kind="post"):
        self.obls.append(Obligation(name, self.current, "discharged" if ok else "refuted", detail, kind=kind))
        return ok


@dataclass(frozen=True, eq=False)
class CtxCall(Val):
    fn: Any
    args: tuple
    kwargs: dict


@dataclass(frozen=True, eq=False)
class StarArgs(Val):
    v: Any
    segs: tuple


class _ArgError(Exception):
    pass


def _k(live):
    try:
        hash(live)
        return live
    except TypeError:
        return id(live)


def _name(live):
    return f"{getattr(live, '__module__', '') or ''}.{getattr(live, '__qualname__', getattr(live, '__name__', repr(live)))}".lstrip(".")


def _zs(s):
    """Python str -> z3 string literal (escape non-ASCII and backslash-u forms)."""
    out = []
    for ch in s:
        o = ord(ch)
        if o < 32 or o > 126 or ch == "\\":
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return "".join(out)


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        ast.copy_location(x, t)
    return t2


def _occurs(needle, hay):
    """does constant `needle` (or its payload) occur in term hay?"""
    consts = set()
    def base(t):
        if z3.is_const(t):
            consts.add(t.get_id())
        for c in t.children():
            base(c)
    base(needle)
    seen = set()
    stack = [hay]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.get_id() in consts and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
        stack.extend(t.children())
    return False
