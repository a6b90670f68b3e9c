"""Value domain of the symbolic executor."""
from __future__ import annotations
import sys
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3
from dataclasses import dataclass, field
from typing import Any

Obj = z3.DeclareSort("Obj")
_V = z3.Datatype("V")
_V.declare("none")
_V.declare("B", ("b", z3.BoolSort()))
_V.declare("I", ("i", z3.IntSort()))
_V.declare("S", ("s", z3.StringSort()))
_V.declare("O", ("o", Obj))
V = _V.create()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """The code left the verifier's subset: nothing is claimed about it."""


class Val:
    pass


@dataclass(frozen=True, eq=False)
class Conc(Val):
    """A live Python object (constants, functions, classes, modules, live lists)."""
    v: Any

    def __repr__(self):
        r = repr(self.v)
        return f"Conc({r[:60]})"


@dataclass(frozen=True, eq=False)
class SStr(Val):
    t: Any


@dataclass(frozen=True, eq=False)
class SInt(Val):
    t: Any


@dataclass(frozen=True, eq=False)
class SBool(Val):
    t: Any


@dataclass(frozen=True, eq=False)
class SVal(Val):
    """A symbolic value of sort V; ``tag`` is static knowledge about it."""
    t: Any
    tag: Any = None


@dataclass(frozen=True, eq=False)
class Tup(Val):
    items: tuple


@dataclass(frozen=True, eq=False)
class Ref(Val):
    addr: int


@dataclass(frozen=True, eq=False)
class Closure(Val):
    node: Any           # ast.FunctionDef / Lambda
    env: int            # defining environment (0: module level)
    glob: Any           # globals dict
    defaults: tuple
    kwdefaults: dict
    live: Any = None    # live function object
    name: str = "<lambda>"
    cls: Any = None     # class the function was found in (for super())
    cells: Any = None


@dataclass(frozen=True, eq=False)
class BoundM(Val):
    fn: Any             # Val or str (builtin method name)
    self: Any


@dataclass(frozen=True, eq=False)
class SuperV(Val):
    cls: Any
    self: Any


@dataclass(frozen=True, eq=False)
class ExcV(Val):
    cls: Any            # live exception class, or None: any Exception
    args: tuple = ()
    exact: bool = True  # False: some subclass of cls
    cause: Any = None


class Raise:
    """Exceptional result of an expression."""
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raise({self.exc})"


# ---- heap cells (replaced, never mutated) -------------------------------
@dataclass(frozen=True, eq=False)
class ListCell:
    segs: tuple          # of Seg
    kind: str = "list"   # list | set | deque ...


@dataclass(frozen=True, eq=False)
class DictCell:
    segs: tuple          # of ('k', key Val, value Val) or ('s', Seq of Tup(k, v))
    cls: Any = dict
    loc: Any = None      # V term naming the place where this dict lives (treemodel)


@dataclass(frozen=True, eq=False)
class ObjCell:
    cls: Any
    attrs: dict


# ---- sequences ------------------------------------------------------------
@dataclass(frozen=True, eq=False)
class Known:
    vals: tuple


@dataclass(frozen=True, eq=False)
class SeqVar:
    """Unknown-length base sequence. ``key`` identifies it; ``at(idx)`` gives the
    element value for an index term."""
    key: str
    term: Any            # V term
    at: Any              # callable(idx term) -> Val
    len: Any             # Int term
    info: Any = None


@dataclass(frozen=True, eq=False)
class SeqFlat:
    """flatmap over a base SeqVar: for an arbitrary element (index constant ``idx``),
    case i contributes ``chunk`` (tuple of segs) when ``cond`` holds."""
    src: SeqVar
    idx: Any
    cases: tuple         # of (cond z3 Bool, segs tuple)


@dataclass(frozen=True, eq=False)
class SeqConst:
    """Segment holding a (long) live list/tuple/set of constants."""
    v: Any


@dataclass(frozen=True, eq=False)
class SeqOpaque:
    """Unknown prefix: the accumulator before the current iteration."""
    key: str


class State:
    __slots__ = ("heap", "envs", "frame", "pc", "ghost", "arr")

    def __init__(self):
        self.heap, self.envs, self.frame, self.pc, self.ghost, self.arr = {}, {}, None, [], {}, {}

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.frame = self.frame
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.arr = dict(self.arr)
        return s

    def assume(self, *conds):
        for c in conds:
            if not z3.is_true(c):
                self.pc.append(c)
        return self


@dataclass(frozen=True)
class Frame:
    env: int
    fn: Any
    out: int | None = None        # address of ListCell collecting yields
    cb: Any = None                # contextmanager callback for yield
    parent: Any = None
    depth: int = 0
