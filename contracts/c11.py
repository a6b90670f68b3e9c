"""C11 Nothing outside the documented families is trusted by default."""
from __future__ import annotations
import io, os, sys, types, warnings
from contracts.auditproof import *
from contracts import archives as A, load_common as L

LEVEL = "proof"
NOTE = "the default names of every node class are enumerated from its symbolic constructor and each is resolved and classified; the verdict is membership for all names"
TRUSTED = ["the classification of a resolved object (load_common.family_obj: issubclass/isinstance against numpy, scipy, sklearn base classes and the listed builtins)"]
ASSUMPTIONS = ["loss classes are recognised by their module and Cy prefix: their recorded module name (_loss) cannot be imported in every installation"]
EXPLANATION = ("For every node class and every path of its constructor the trusted list is norm(T) plus a list of constants; every constant is resolved and must belong to a documented family. The verdict of the node is "
               "membership of its audited name (for every name), and what _construct resolves is that name, so no other name is accepted in any position.")
BUDGET = {"quick": 150, "thorough": 900}


def prove(P):
    from skops.io import _audit
    for cls in registry():
        P.unit(f"trusted {label(cls)}", label(cls), unit_trust(cls, L.family), policy=NodePolicy())
        P.unit(f"verdict {label(cls)}", label(cls), unit_verdict(cls), policy=NodePolicy())
        P.unit(f"children {label(cls)}", label(cls), unit_children(cls), policy=NodePolicy())
        P.unit(f"construct {label(cls)}", label(cls), unit_construct(cls), policy=NodePolicy())
    for sh in ("list", "tuple", "str", "none", "empty"):
        P.unit(f"get_type_paths({sh})", "_utils.get_type_paths", u_type_paths(sh), policy=NodePolicy())
    P.unit("check_type", "_audit.check_type", u_check_type, policy=NodePolicy())
    P.unit("get_unsafe_set step", "_audit.Node.get_unsafe_set", u_worklist, policy=NodePolicy())
    P.unit("audit_tree", "_audit.audit_tree", u_audit_tree, policy=NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", u_untrusted, policy=NodePolicy())


def guards(P):
    from skops.io import _audit

    class Wide(_audit.Node):
        def __init__(self, state, load_context, trusted=None):
            super().__init__(state, load_context, trusted)
            self.trusted = self._get_trusted(trusted, ["builtins.list", "builtins.getattr"])
            self.children = {}
    P.unit("guard: getattr by default", "guard", unit_trust(Wide, L.family), policy=NodePolicy())


def slots():
    """(label, state, path, member, protocol) of every position whose (module, class) is what gets constructed"""
    for label_, loader, proto, state, members in A.templates():
        for path, node in A.walk(state):
            v0 = isinstance(node.get("content"), dict) and "module_path" in node["content"]
            if node.get("__loader__") in ("MethodNode", "CachedNode"):
                continue
            if "__module__" in node and not v0:
                yield label_, state, path, lambda s, p, m, c: A.put(s, p, dict(A.get(s, p), __module__=m, __class__=c)), members, proto
            if v0:
                yield label_, state, path, lambda s, p, m, c: A.put(s, p + ("content",), {"module_path": m, "function": c}), members, proto


def universe():
    """importable (module, name) pairs of the library and the modules around it"""
    import collections, functools, operator, itertools, subprocess, shutil, pickle, builtins, importlib, ctypes, inspect, runpy, code, pdb, timeit
    import numpy as np, scipy.special, scipy.sparse, sklearn, skops.io
    out = []
    names = ["builtins", "os", "posix", "sys", "subprocess", "shutil", "pickle", "importlib", "collections", "functools", "operator", "_operator", "itertools", "ctypes", "inspect", "runpy", "code", "pdb", "timeit", "types", "io", "_io",
             "numpy", "numpy.random", "numpy.random.mtrand", "numpy.random._generator", "numpy.ma", "numpy.ma.core", "numpy.lib", "numpy.linalg", "numpy._core._multiarray_umath", "numpy.core.multiarray", "numpy.testing", "numpy.lib.npyio", "numpy.ctypeslib", "scipy", "scipy.special",
             "scipy.special._ufuncs", "scipy.sparse", "scipy.sparse._csr", "sklearn", "sklearn.utils", "sklearn.base", "sklearn.tree._tree", "sklearn._loss._loss", "sklearn._loss.loss", "sklearn._loss.link", "sklearn.linear_model._sgd_fast", "quantile_forest",
             "quantile_forest._quantile_forest_fast", "skops.io", "skops.io._utils"]
    names += sorted(m for m in sys.modules if m.startswith("sklearn.") and "tests" not in m)
    for m in names:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k in dir(mod):
            out.append((m, k))
    return out


def mutants(names, rng):
    """names close to the default ones"""
    out = []
    for n in names:
        m, c = n.rsplit(".", 1)
        out += [(m, c + "_"), (m, c[:-1] or "x"), (m + ".x", c), ("x." + m, c), (m.upper(), c), (m, c.swapcase()), (m, c + ".__class__"), (m + "." + c, "__class__"), (m, "__" + c), (m.split(".")[0], c), (m, ""), ("", n), (m, " " + c), (m + "\u200b", c), (m, "_" + c), (m.replace(".", "._"), c), (m.replace("._", "."), c), (m, c.lower()), (m + ".", c), (m, "." + c), ("." + m, c), (m, c + "\n"), (m.replace("_", ""), c)]
    return out


def accepted(item):
    """names of the chunk that this slot accepts although they are of no documented family"""
    import skops.io as sio
    (lab, state, path, proto, members, kind), names = item
    bad = []
    n = 0
    fill = FILL[kind]
    for m, c in names:
        try:
            a = A.pack(fill(state, path, m, c), members, proto)
            u = sio.get_untrusted_types(data=a)
        except Exception:
            continue
        n += 1
        name = f"{m}.{c}"
        if name not in u and not L.family(name):
            refused = ""
            try:
                sio.loads(a)
                refused = "and loads it"
            except Exception as ex:
                refused = f"(loads: {type(ex).__name__})"
            bad.append((name, refused))
            if len(bad) > 3:
                break
    return n, bad


FILL = {"pair": lambda s, p, m, c: A.put(s, p, dict(A.get(s, p), __module__=m, __class__=c, __id__=A.new_id())),
        "v0": lambda s, p, m, c: A.put(s, p + ("content",), {"module_path": m, "function": c}),
        "method": lambda s, p, m, c: A.put(s, p + ("content",), dict(A.get(s, p)["content"], func=c, obj=A.TY(m, c)) )}


def bounded(B):
    B.rule("every default name of every node class, resolved; every name slot of every template and protocol filled with importable names of the standard library, numpy, scipy, sklearn and with near misses of the default "
           "names: a name that get_untrusted_types does not report must resolve to a documented family; load without names refuses what is reported")
    import skops.io as sio
    from skops.io import _trusted_types as tt
    warnings.simplefilter("ignore")
    defaults = set()
    for k, v in vars(tt).items():
        if k.endswith("_NAMES") and isinstance(v, (list, tuple, set)):
            defaults |= set(v)
            for n in v:
                B.case("default-lists", n, n)
                B.check(L.family(n), "family", f"{k} contains {n}, which is of no documented family: {L.resolve(n)}", {"list": k, "name": n})
    defaults = {n for n in defaults if isinstance(n, str) and "." in n}
    uni = universe()
    base = [("os", "system"), ("builtins", "eval"), ("builtins", "getattr"), ("builtins", "type"), ("builtins", "object"), ("builtins", "complex"), ("builtins", "memoryview"), ("builtins", "frozenset"), ("functools", "reduce"), ("functools", "partial"),
            ("operator", "methodcaller"), ("operator", "attrgetter"), ("numpy", "load"), ("numpy", "vectorize"), ("numpy", "memmap"), ("numpy", "matrix"), ("numpy", "dtype"), ("numpy", "fromfile"), ("numpy", "frompyfunc"), ("scipy.special", "errstate"),
            ("collections", "Counter"), ("collections", "namedtuple"), ("sklearn.utils", "Bunch"), ("sklearn", "set_config"), ("sklearn.base", "clone"), ("sklearn.tree._tree", "_build_pruned_tree_ccp"), ("joblib", "load"), ("sklearn.datasets", "load_files"), ("skops.io", "loads"), ("vpcan0", "Cls"),
            ("scipy.special", "roots_hermite"), ("numpy", "apply_along_axis"), ("numpy", "save"), ("scipy.sparse", "load_npz"), ("numpy.random", "default_rng"), ("numpy.random.mtrand", "seed"), ("sklearn.pipeline", "make_pipeline"),
            ("sklearn.utils._estimator_html_repr", "_HTMLDocumentationLinkMixin"), ("sklearn.externals._packaging.version", "parse")]
    sl = []
    for lab, state, path, f, members, proto in slots():
        kind = "v0" if isinstance(A.get(state, path).get("content"), dict) and "module_path" in A.get(state, path)["content"] else "pair"
        sl.append((lab, state, path, proto, members, kind))
    work = []
    for s in sl:
        work.append((s, base))
    # one slot per (loader, protocol) gets the large universe
    seen = {}
    for s in sl:
        node = A.get(s[1], s[2])
        seen.setdefault((node["__loader__"], s[3] != A.current() and s[3], s[5]), s)
    reps = list(seen.values())
    near = mutants(sorted(defaults), B.rng)
    for s in reps:
        pool = uni + near
        xs = pool if B.thorough else B.rng.sample(pool, 1500)
        cut = 400
        work += [(s, xs[i:i + cut]) for i in range(0, len(xs), cut)]
        dn = [tuple(n.rsplit(".", 1)) for n in (sorted(defaults) if B.thorough else B.rng.sample(sorted(defaults), 150))]
        work.append((s, dn))
    for (s, names), (st, r) in A.isolated(accepted, work, chunk=4, timeout=240):
        rep = {"template": s[0], "position": list(s[2]), "protocol": s[3]}
        if st != "ok":
            B.fail("probe", f"{s[0]} {s[2]}: {st} {r}", rep)
            continue
        for i in range(r[0]):
            B.case("names", f"{s[0]}:{s[2]}:{hash(tuple(names))}:{i}", f"{s[0]} at {s[2]} <- {names[0]}")
        for name, how in r[1]:
            B.fail("accepted", f"{s[0]}: position {'/'.join(map(str, s[2]))} (protocol {s[3]}) accepts {name} by default {how}", dict(rep, name=name))
        if B.time_left() < 0:
            break
    # functions of methods, and refusal
    A.install_canaries(os.getcwd())
    for lab, state, members, proto, mc in list(A.slot_archives(base[:8])) + list(A.alias_archives())[::3]:
        a = A.pack(state, members, proto)
        try:
            u = sio.get_untrusted_types(data=a)
        except Exception:
            continue
        if not u:
            continue
        B.case("refused", lab)
        try:
            sio.loads(a)
        except Exception:
            pass
        else:
            B.fail("loaded", f"{lab}: loads without trusted succeeds although {u} is reported", {"label": lab, "state": state})
    for func in ("predict", "__init__", "__reduce__", "fit", "set_params", "__class__", "tobytes", "dump", "tofile", "append"):
        for what, obj in (("estimator", A.data("corpus")["logreg"]["state"]), ("array", A.data("corpus")["arr"]["state"]), ("list", A.L(A.J(1))), ("dict", A.D(a=A.J(1))), ("type", A.TY("builtins", "list")), ("json", A.J("x"))):
            m = A.mem(A.data("corpus")["arr"]["members"]) if what == "array" else {}
            a = A.pack(A.ME(obj, func), m)
            B.case("methods", f"{what}.{func}")
            try:
                u = sio.get_untrusted_types(data=a)
            except Exception:
                continue
            B.check(any(x.endswith("." + func) for x in u), "method", f"method {func} of a {what} is accepted by default: {u}", {"state": A.ME(obj, func)})
