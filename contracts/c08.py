"""C08 Archives of every supported protocol keep loading with the right loader."""
from __future__ import annotations
import io, json, os, sys, warnings, zipfile
from contracts.auditproof import *
from contracts import archives as A, corpus, objects as O

LEVEL = "proof"
NOTE = "loader selection (get_tree for every registered loader and protocol, unknown loaders, load/loads passing the archive's protocol) is proved; that each loader restores the object is bounded (committed archives)"
TRUSTED = ["committed archives data/corpus*.json were written by the verified tree and by the original tree"]
ASSUMPTIONS = ["archives of protocols 0 and 1 are made from current ones by the documented format differences (function and generator nodes)",
               "archives of protocol 1 and older hold no seed sequence for generators"]
EXPLANATION = ("get_tree is executed symbolically for every (loader, protocol) with protocols 0..current+2 and a symbolic later one: it builds the class registered for the smallest protocol not below the archive's, passes on the "
               "trusted names, and raises TypeError naming the loader when there is none. Bounded: archives written by the original and the current tree, relabelled with every protocol, load to the object they represent; "
               "everything dump emits has a loader registered for the current protocol.")
BUDGET = {"quick": 150, "thorough": 900}
PYVC = True


def prove(P):
    from skops.io import _audit
    import skops.io._persist
    cur = A.current()
    loaders = sorted({l for l, p in _audit.NODE_TYPE_MAPPING})
    for l in loaders + ["NoSuchNode"]:
        for p in range(cur + 3):
            P.unit(f"get_tree {l} protocol {p}", "_audit.get_tree", u_get_tree(l, p, expected_class(l, p)), policy=NodePolicy())
    P.unit("load", "_persist.load", u_load("load"), policy=NodePolicy())
    P.unit("loads", "_persist.loads", u_load("loads"), policy=NodePolicy())
    P.unit("get_untrusted_types", "_persist.get_untrusted_types", u_untrusted, policy=NodePolicy())


def guards(P):
    from skops.io import _audit
    wrong = _audit.NODE_TYPE_MAPPING[("ListNode", A.current())]
    P.unit("guard: wrong class", "guard", u_get_tree("DictNode", A.current(), wrong), policy=NodePolicy())
    P.unit("guard: unknown is an error", "guard", u_get_tree("DictNode", A.current(), None), policy=NodePolicy())


def downgrade(state, protocol):
    """the same content as an archive of an older protocol holds it; None when it cannot be expressed"""
    if isinstance(state, list):
        return [downgrade(x, protocol) for x in state]
    if not isinstance(state, dict):
        return state
    s = {k: downgrade(v, protocol) for k, v in state.items()}
    l = s.get("__loader__")
    if l == "FunctionNode" and protocol == 0:
        return {"__class__": "function", "__module__": "builtins", "__loader__": l, "content": {"module_path": s["__module__"], "function": s["__class__"]}, "__id__": s["__id__"]}
    if l == "RandomGeneratorNode" and protocol < 2:
        return A.strip_seed(s, raw=protocol == 0)
    return s


def has(state, loader):
    return any(n["__loader__"] == loader for _, n in A.walk(state))


def same(a, b, old_gen):
    d = O.diff_obj(a, b, layout=True)
    if d and old_gen and "seed_seq" in d:
        return None
    return d


def load(a):
    import skops.io as sio
    return sio.loads(a, trusted=sio.get_untrusted_types(data=a))


def bounded(B):
    import skops.io as sio
    from skops.io import _audit
    warnings.simplefilter("ignore")
    cur = A.current()
    B.rule("committed archives (written by the original and by the verified tree) relabelled with every protocol 0..current+2 (function and generator nodes in the form of that protocol) load to the object that was dumped, "
           "directly and after nesting; unknown loaders raise TypeError naming the loader; every loader that dump emits for generated objects is registered for the current protocol")
    for name in ("corpus_orig", "corpus"):
        for key, t in A.data(name).items():
            want = corpus.make(key)
            for p in range(cur + 3):
                st = downgrade(t["state"], p)
                gen = p < 2 and has(st, "RandomGeneratorNode")
                for wrap in ((lambda s: s), (lambda s: A.D(x=A.L(A.J(0), s))), (lambda s: A.OB("contracts.objects", "Plain", A.D(a=s)))):
                    a = A.pack(wrap(st), A.mem(t["members"]), p)
                    B.case(name, f"{key}:{p}:{wrap(A.J(1)).get('__loader__')}", f"{key} protocol {p}")
                    rep = {"corpus": name, "key": key, "protocol": p, "state": st}
                    try:
                        got = load(a)
                    except Exception as ex:
                        k = "v0-generator" if gen and p == 0 and "is_self_safe" in str(ex) else "load"
                        B.fail(k, f"{name} {key} relabelled as protocol {p} does not load: {ex!r}", rep)
                        continue
                    w = wrap(A.J(1))["__loader__"]
                    got = got["x"][1] if w == "DictNode" else got.a if w == "ObjectNode" else got
                    d = same(want, got, gen)
                    B.check(not d, "object", lambda: f"{name} {key} relabelled as protocol {p} loads as something else: {d}", rep)
                    if gen and not d:
                        for g in gens(got):
                            g.random(3)
    for l, loader, p0, state, members in A.templates():
        for p in range(cur + 3):
            for bad in ("NoSuchNode", loader + "X", loader.lower(), "", "Node"):
                if any(k[0] == bad for k in _audit.NODE_TYPE_MAPPING):
                    continue
                for st in (dict(state, __loader__=bad), A.L(A.J(1), dict(state, __loader__=bad, __id__=A.new_id()))):
                    a = A.pack(st, members, p)
                    B.case("unknown", f"{l}:{p}:{bad}:{st['__loader__']}")
                    for f in (lambda: sio.loads(a), lambda: sio.get_untrusted_types(data=a), lambda: sio.visualize(a, sink=lambda r, **k: list(r))):
                        try:
                            r = f()
                        except TypeError as ex:
                            B.check(bad in str(ex), "names", f"unknown loader {bad!r} (protocol {p}): the error does not name it: {ex}", {"state": st, "protocol": p})
                        except Exception as ex:
                            B.fail("unknown", f"unknown loader {bad!r} (protocol {p}) raises {ex!r} instead of TypeError", {"state": st, "protocol": p})
                        else:
                            B.fail("unknown", f"unknown loader {bad!r} (protocol {p}) is accepted", {"state": st, "protocol": p})
    # what dump emits
    reg = {l for l, p in _audit.NODE_TYPE_MAPPING if p == cur}
    mk = [(f"corpus {k}", lambda k=k: corpus.make(k)) for k in corpus.KEYS]
    mk += [(f"exotic {i}", lambda f=f: f(B.rng)) for i, f in enumerate(O.exotic_makers())]
    mk += [(f"generated {i}", lambda: O.any_value(B.rng, 3)) for i in range(B.n(300, 5000))]
    for lab, f in mk:
        try:
            data = sio.dumps(f())
        except Exception:
            continue
        sch = json.loads(zipfile.ZipFile(io.BytesIO(data)).read("schema.json"))
        B.case("emitted", lab)
        B.check(sch.get("protocol") == cur, "protocol", f"dumps writes protocol {sch.get('protocol')}", {"object": lab})
        for path, n in A.walk(sch):
            B.check(n["__loader__"] in reg, "emitted", f"dumps of {lab} emits {n['__loader__']}, which has no loader for protocol {cur}", {"object": lab, "node": n})
        # every node of the archive is built by the class registered for it
    # a value that is dumped now loads the same under every label whose nodes did not change
    for i in range(B.n(150, 2500)):
        v = O.supported(B.rng, 3)
        try:
            data = sio.dumps(v)
            want = load(data)
        except Exception:
            continue
        z = zipfile.ZipFile(io.BytesIO(data))
        sch = json.loads(z.read("schema.json"))
        members = {n: z.read(n) for n in z.namelist() if n != "schema.json"}
        for p in range(cur + 2):
            st = downgrade(sch, p)
            gen = p < 2 and has(st, "RandomGeneratorNode")
            if gen and p == 0:
                continue
            B.case("relabelled", f"{i}:{p}")
            try:
                d = same(want, load(A.pack(st, members, p)), gen)
            except Exception as ex:
                d = repr(ex)
            B.check(not d, "relabel", lambda: f"a dumped value loads differently as protocol {p}: {d}", {"value": repr(v)[:300], "protocol": p})
        if B.time_left() < 0:
            break


def gens(o):
    from contracts.load_common import graph
    return [x for x in graph(o) if isinstance(x, np.random.Generator)]
