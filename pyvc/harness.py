"""Proof obligations over whole functions: equivalence with a specification function,
path-wise postconditions and effect (event) contracts."""
from __future__ import annotations
import time, traceback
from .engine import *
from .engine import Engine, Obligation, Policy, Prover, Unsupported, Schema, Raise, ExcV, State, Frame, Closure
from .values import *
from .values import z3, V


def init_state(eng):
    st = State()
    st.frame = Frame(0, Closure(None, 0, {}, (), {}), None, None, None, 0)
    return st


def joint(a, b):
    s = a.fork()
    for k, c in b.heap.items():
        s.heap.setdefault(k, c)
    have = {c.get_id() for c in s.pc}
    s.pc += [c for c in b.pc if c.get_id() not in have]
    # two loops over the same sequence that leave it under different conditions share an
    # index name but not an index: such a pair of paths is never compared as equal
    ea = {(k, i): e for k, i, e in a.ghost.get("_exits", ())}
    eb = {(k, i): e for k, i, e in b.ghost.get("_exits", ())}
    s.ghost["_exit_conflict"] = any(k in eb and eb[k] != e for k, e in ea.items())
    return s


def exc_name(e):
    return e.cls.__name__ if e.cls else "Exception"


class Proofs:
    """Runs units; every unit yields obligations or 'out of reach'."""

    def __init__(self, budget=60):
        self.units = []
        self.prover = Prover()
        self.budget = budget

    def unit(self, name, fn, mk, policy=None):
        """mk(eng) performs the work; eng.obls collects."""
        t0 = time.time()
        eng = Engine(policy=policy, prover=self.prover)
        eng.current = name
        eng.deadline = time.time() + self.budget
        rec = {"unit": name, "function": fn, "reach": "ok", "reason": ""}
        try:
            mk(eng)
        except Unsupported as ex:
            rec["reach"], rec["reason"] = "out", str(ex)
        except RecursionError:
            rec["reach"], rec["reason"] = "out", "recursion"
        except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as ex:
            rec["reach"], rec["reason"] = "out", "engine: " + "".join(traceback.format_exception(ex))[-1500:]
        if rec["reach"] == "ok" and getattr(policy, "values_only", False) and not name.startswith("frame "):
            # an obligation fails, and the code goes through a library function that has no contract
            # here: nothing is known about its result, so the proof is not reached rather than failed
            lib = {x for x in eng.unknown if not x.startswith(("attribute of a value", "value ", "reprlib."))}
            bad = [o.name for o in eng.obls if o.status != "discharged"]
            if lib and bad:
                rec["reach"], rec["reason"] = "out", f"library functions without a contract: {sorted(lib)}; not shown: {bad[:5]}"
        rec["obligations"] = eng.obls if rec["reach"] == "ok" else []
        rec["dropped"] = 0 if rec["reach"] == "ok" else len(eng.obls)
        rec["unknown"] = sorted(eng.unknown)
        rec["inlined"] = sorted(eng.inlined)
        rec["assumed"] = sorted(eng.assumed)
        rec["time"] = round(time.time() - t0, 3)
        if rec["reach"] == "ok" and not eng.obls:
            rec["reach"], rec["reason"] = "out", "no obligation generated"
        self.units.append(rec)
        return rec


def collect(it):
    return list(it)


def equiv(eng, name, impl, spec, mkargs, compare=None, st0=None, exc_eq=None):
    """forall arguments: impl(args) and spec(args) have the same outcome.
    mkargs(eng, st) -> (args, kwargs) allocated in st."""
    st = st0 or init_state(eng)
    args, kwargs = mkargs(eng, st)
    r1 = collect(eng.run(impl, args, kwargs, st.fork()))
    r2 = collect(eng.run(spec, args, kwargs, st.fork()))
    n = 0
    for s1, v1 in r1:
        for s2, v2 in r2:
            s = joint(s1, s2)
            if not eng.feasible(s):
                continue
            n += 1
            lab = f"{name}#p{n}"
            if s.ghost["_exit_conflict"]:
                eng.oblige_bool(lab, False, "loops leave the same sequence under different conditions")
                continue
            if isinstance(v1, Raise) or isinstance(v2, Raise):
                if isinstance(v1, Raise) and isinstance(v2, Raise):
                    ok = v1.exc.cls is v2.exc.cls if exc_eq is None else exc_eq(v1.exc, v2.exc)
                    eng.oblige_bool(lab, ok, f"raises {exc_name(v1.exc)} / specification raises {exc_name(v2.exc)}")
                else:
                    w = "raises " + exc_name((v1 if isinstance(v1, Raise) else v2).exc)
                    eng.oblige_bool(lab, False, ("code " if isinstance(v1, Raise) else "specification ") + w + " where the other returns; path: " + "; ".join(str(c) for c in s.pc[-10:]))
                continue
            ok = (compare or default_compare)(eng, s, v1, v2, s1, s2)
            eng.oblige_bool(lab, ok, "" if ok else f"result differs on path: {'; '.join(str(c) for c in s.pc[-10:])} || code: {show(eng, s, v1)} || spec: {show(eng, s, v2)}")
    # vacuity: at least one feasible joint path
    eng.oblige_bool(f"{name}#reachable", n > 0, "no feasible path", kind="vacuity")
    return r1, r2


def default_compare(eng, s, v1, v2, s1, s2):
    return eng.same(s, v1, v2)


def show(eng, s, v, depth=0):
    try:
        if isinstance(v, Ref):
            c = s.heap[v.addr]
            if isinstance(c, ListCell):
                return f"{c.kind}[" + ", ".join(show_seg(eng, s, x, depth + 1) for x in eng.norm_segs(s, c.segs)) + "]"
            if isinstance(c, DictCell):
                return "{" + ", ".join(show_seg(eng, s, x, depth + 1) for x in eng.norm_segs(s, eng.dict_to_segs(c))) + "}"
            return f"{c.cls.__name__}({', '.join(f'{k}={show(eng, s, x, depth+1)}' for k, x in c.attrs.items())})" if depth < 3 else "obj"
        if isinstance(v, Tup):
            return "(" + ", ".join(show(eng, s, x, depth + 1) for x in v.items) + ")"
        if isinstance(v, Conc):
            return repr(v.v)[:80]
        return str(getattr(v, "t", v))[:300]
    except Exception as ex:
        return f"<{ex}>"


def show_seg(eng, s, x, depth):
    if isinstance(x, Known):
        return ", ".join(show(eng, s, v, depth) for v in x.vals)
    if isinstance(x, SeqVar):
        return f"*{x.key}"
    if isinstance(x, SeqFlat):
        return "flat(" + x.src.key + ": " + " | ".join(f"[{z3.simplify(c)}] " + ", ".join(show_seg(eng, s, y, depth + 1) for y in segs) for c, segs in x.cases)[:700] + ")"
    return str(type(x).__name__) + ":" + str(getattr(x, "key", ""))


def uf_contract(name, params, res, lemma=None, drop_self=False):
    """callee contract: result = name(params) (an uninterpreted specification function);
    params: list of argument names in order with defaults."""
    def h(eng, st, args, kwargs):
        vals = list(args)[1 if drop_self else 0:]
        out = []
        for i, (p, d) in enumerate(params):
            if i < len(vals):
                out.append(vals[i])
            elif p in kwargs:
                out.append(kwargs[p])
            elif d is not NODEF:
                out.append(Conc(d))
            else:
                yield st, Raise(ExcV(TypeError))
                return
        used = [o for o, (p, d) in zip(out, params) if p not in IGNORED.get(name, ())]
        t = eng.ufV(f"spec.{name}", *[eng.reify(st, o) for o in used])
        if lemma:
            lemma(eng, st, used, t)
        yield st, eng.typed(t, res, st)
    return h


NODEF = object()
IGNORED = {}
