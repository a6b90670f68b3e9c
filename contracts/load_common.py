"""Oracles of the loading checks: the documented default families, what a load used and handed back."""
from __future__ import annotations
import builtins, collections, functools, importlib, io, operator, os, re, sys, types, warnings
import numpy as np
from contracts import archives as A

BUILTINS = (int, float, str, bool, list, set, map, tuple, dict, slice, bytes, bytearray)
_fam = {}


def resolve(name):
    """objects that a dotted name can denote (module.attr.attr with every split)"""
    out = []
    parts = name.split(".")
    for i in range(len(parts) - 1, 0, -1):
        mod = ".".join(parts[:i])
        if mod.split(".")[0] in ("antigravity", "this", "idlelib"):
            return out
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = importlib.import_module(mod)
                for p in parts[i:]:
                    o = getattr(o, p)
            out.append(o)
        except BaseException:
            pass
    return out


def is_loss(o):
    from sklearn._loss import _loss, link, loss
    return isinstance(o, type) and o.__module__ in ("_loss", "sklearn._loss._loss", "sklearn._loss.loss", "sklearn._loss.link", "sklearn.linear_model._sgd_fast")


def family_obj(o):
    """family of an object that may be named by default, or None"""
    import scipy.sparse as sp
    from sklearn.base import BaseEstimator
    from sklearn.tree._tree import Tree
    if isinstance(o, np.ufunc):
        return "ufunc"
    if not isinstance(o, type):
        return None
    if o in BUILTINS or o is type(None):
        return "builtin"
    if o in (collections.OrderedDict, collections.defaultdict):
        return "container"
    if issubclass(o, (np.generic, np.dtype)) and o.__module__.split(".")[0] == "numpy":
        return "numpy scalar"
    if o in (np.ndarray, np.ma.MaskedArray, np.random.RandomState, np.random.Generator):
        return "numpy array or RNG"
    if issubclass(o, np.random.BitGenerator) or o is np.random.SeedSequence:
        return "bit generator"
    if o.__module__.startswith("scipy.sparse") and issubclass(o, (sp.spmatrix, sp.sparray)):
        return "scipy sparse"
    if issubclass(o, BaseEstimator) and o.__module__.startswith("sklearn."):
        return "sklearn estimator"
    if o is Tree or is_loss(o):
        return "tree or loss"
    return None


def family(name):
    """family of a name that is accepted by default (None: outside of the documented families). The names of the
    losses are those of the compiled module, which cannot be imported under all of its names."""
    if name in _fam:
        return _fam[name]
    r = None
    for o in resolve(name):
        r = family_obj(o)
        if r:
            break
    if r is None and re.fullmatch(r"(sklearn\._loss\.)?_loss\.(Cy[A-Za-z]*|__pyx_unpickle_Cy[A-Za-z]*)", name) or name.startswith("sklearn.linear_model._sgd_fast.") and name.rsplit(".", 1)[1] in SGD:
        r = "tree or loss"
    _fam[name] = r
    return r


SGD = {"EpsilonInsensitive", "Hinge", "ModifiedHuber", "SquaredEpsilonInsensitive", "SquaredHinge", "Hinge", "Log", "SquaredLoss", "Huber", "LossFunction", "Regression", "Classification"}


def graph(o, limit=2000):
    """objects reachable from a loaded object by the structure that loading fills"""
    seen, todo = {}, [o]
    while todo and len(seen) < limit:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        yield x
        if isinstance(x, types.ModuleType) or isinstance(x, type):
            continue
        if isinstance(x, types.MethodType):
            todo.append(x.__self__)
            continue
        if isinstance(x, functools.partial):
            todo += [x.func, x.args, x.keywords]
        if isinstance(x, dict):
            todo += list(x.keys()) + list(x.values())
            if isinstance(x, collections.defaultdict):
                todo.append(x.default_factory)
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, np.ndarray) and x.dtype == object:
            todo += list(x.ravel())
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict) and not isinstance(x, (types.FunctionType, types.BuiltinFunctionType)):
            todo += list(d.values())


PASSIVE = (type(None), type(Ellipsis), complex, frozenset, range)


def unvouched(obj, trusted):
    """objects handed back that are neither trusted under their name nor of a default family"""
    ids = set()
    for t in trusted:
        for o in resolve(t):
            ids.add(id(o))
            if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
                ids.add(id(o))
    out = []
    fnames = set(trusted)
    for x in graph(obj):
        if isinstance(x, (types.ModuleType,)):
            out.append(("module", repr(x)))
        elif isinstance(x, type):
            if id(x) not in ids and not family_obj(x):
                out.append(("type", repr(x)))
        elif isinstance(x, types.MethodType):
            tn = type(x.__self__) if not isinstance(x.__self__, type) else x.__self__
            nm = x.__func__.__name__
            if f"{tn.__module__}.{tn.__qualname__}.{nm}" not in fnames and id(x.__func__) not in ids:
                out.append(("method", repr(x)))
        elif isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType, types.MethodDescriptorType)) or type(x).__name__ in ("cython_function_or_method", "_ArrayFunctionDispatcher"):
            if id(x) not in ids:
                out.append(("function", repr(x)))
        elif isinstance(x, np.ufunc):
            pass
        else:
            c = type(x)
            if id(c) not in ids and not family_obj(c) and c not in PASSIVE:
                out.append(("instance", f"{c.__module__}.{c.__qualname__}"))
    return out


def ledger_violations(trusted):
    """uses of canaries that no trusted name vouches for"""
    out = []
    T = set(trusted)
    for kind, name in A.LEDGER:
        if kind == "import":
            if not any(t.startswith(name + ".") for t in T):
                out.append((kind, name))
        elif name.removesuffix(".__call__") not in T:
            out.append((kind, name))
    for m in A.canary_modules():
        if not any(t.startswith(m + ".") for t in T):
            out.append(("in sys.modules", m))
    return out


# ------------------------------------------------------------------ audit events
WATCH = {"on": False, "events": [], "opens": False}
DENY = ("os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.startfile", "subprocess.Popen", "socket.", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link",
        "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.kill", "os.putenv", "os.unsetenv", "os.chdir", "shutil.", "tempfile.", "pickle.find_class", "ctypes.dlopen", "urllib.", "http.", "ftplib.",
        "builtins.input", "webbrowser.", "pty.", "signal.", "sys.settrace", "sys.setprofile", "os.utime", "os.setxattr", "marshal.load", "code.__new__", "cpython.run_")


def hook(ev, args):
    if not WATCH["on"]:
        return
    if ev == "open":
        f, mode, flags = (tuple(args) + (None,) * 3)[:3]
        wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if wr or WATCH["opens"]:
            WATCH["events"].append((ev, repr(args)[:120]))
    elif ev == "import" and WATCH["opens"]:
        WATCH["events"].append((ev, repr(args[0])))
    elif ev.startswith(DENY):
        if ev == "code.__new__":
            return
        WATCH["events"].append((ev, repr(args)[:120]))


def watch_setup():
    sys.addaudithook(hook)


class watch:
    def __init__(self, opens=False):
        self.opens = opens

    def __enter__(self):
        WATCH.update(on=True, events=[], opens=self.opens)
        return WATCH["events"]

    def __exit__(self, *a):
        WATCH["on"] = False
