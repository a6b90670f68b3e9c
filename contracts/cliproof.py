"""Contracts of _update_file and _convert_file over the ghost trace of file operations."""
from __future__ import annotations
import argparse, json, logging, os, pathlib, pickle, re
from pyvc import fsmodel
from pyvc.engine import Known, Conc, Tup
from pyvc.harness import *


def valid(eng, s, f):
    return eng.prover.valid(list(s.pc), f) == "valid"


def ops_of(eng, s):
    segs = eng.norm_segs(s, fsmodel.trace(s))
    out = []
    for g in segs:
        if not isinstance(g, Known):
            return None
        out += [t.items for t in g.vals]
    return [(o[0].v, o[1:]) for o in out]


def tmp_root(v):
    """the temporary file or directory a path lies in, or None"""
    seen = 0
    while isinstance(v, SVal) and isinstance(v.tag, tuple) and seen < 20:
        seen += 1
        if v.tag[0] == "tmpdir":
            return v
        if v.tag[0] == "path":
            if len(v.tag) > 2:
                if isinstance(v.tag[2], tuple) and v.tag[2][0] == "tmp":
                    return v
                v = v.tag[2]
                continue
            if v.tag[1] is not None:
                v = v.tag[1]
                continue
        return None
    return None


class Logger:
    pass


def logger(eng, st):
    """calls of the logger are recorded, they have no other effect"""
    lg = SVal(z3.Const("logger", V), ("logger",))
    eng.ext_tags = set(eng.ext_tags) | {"logger", "tmpdir", "bytesio", "loaded", "unpickled"}
    for m in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
        def h(e, s, v, a, k, m=m):
            s.ghost["log"] = s.ghost.get("log", ()) + ((m, tuple(a)),)
            yield s, Conc(None)
        eng.attr_overrides[("logger", m + "()")] = h
    return lg


def setup_io(eng, st, mod):
    import skops.io as sio
    fsmodel.install(eng, st, may_raise=True)

    def load(e, s, a, k):
        f = a[0] if a else k.get("file")
        t = a[1] if len(a) > 1 else k.get("trusted", Conc(None))
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("loaded", e.reify(s, f), e.reify(s, t)), ("loaded", f, t))

    def untrusted(e, s, a, k):
        f = k.get("file", k.get("data"))
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("untrusted", e.reify(s, f)), ("list", "str"))

    def dump(e, s, a, k):
        obj = a[0] if a else k.get("obj")
        f = a[1] if len(a) > 1 else k.get("file")
        s1 = s.fork()
        e.fs_op(e, s1, "partial", f)
        yield s1, Raise(ExcV(Exception, (), False))
        e.fs_op(e, s, "dump", f, obj)
        yield s, Conc(None)

    def dumps(e, s, a, k):
        yield s.fork(), Raise(ExcV(Exception, (), False))
        yield s, SVal(e.ufV("dumped", e.reify(s, a[0] if a else k["obj"])), ("bytes",))
    for nm, h in (("load", load), ("get_untrusted_types", untrusted), ("dump", dump), ("dumps", dumps)):
        for o in {getattr(mod, nm, None), getattr(sio, nm)} - {None}:
            eng.contracts[o] = h

    def jloads(e, s, a, k):
        yield s.fork(), Raise(ExcV(ValueError, (), False))
        yield s, e.alloc(s, DictCell((("k", Conc("protocol"), SInt(z3.Int("protocol"))),)))
    eng.ext[json.loads] = jloads
    eng.ext[json.load] = jloads


def u_update(inp, given, inplace):
    """_update_file(input, output, inplace): on every path, also those on which any operation fails, at most one
    complete archive is moved from a temporary file beside the destination onto it, exactly when the archive is older
    than the current protocol and a destination is given; nothing else is touched and the temporary file is removed."""
    def mk(eng):
        import skops.cli._update as up
        from skops.io._protocol import PROTOCOL
        st = init_state(eng)
        setup_io(eng, st, up)
        lg = logger(eng, st)
        mkp = lambda n: SVal(z3.Const(n, V), ("path", None)) if inp == "path" else eng.sym(n, "str", st)
        i = mkp("input")
        o = mkp("output") if given else Conc(None)
        if inp == "path":
            st.assume(V.is_O(i.t))
            if given:
                st.assume(V.is_O(o.t))
        flag = Conc(inplace)
        dest = o if given else i if inplace else None
        proto = z3.Int("protocol")
        name = f"_update_file(output={'given' if given else None}, inplace={inplace}, {inp})"
        n = done = 0
        for s, v in eng.call(st.fork(), Conc(up._update_file), [i, o, flag], {"logger": lg}):
            if not eng.feasible(s):
                continue
            n += 1
            ops = ops_of(eng, s)
            if ops is None:
                raise Unsupported("unbounded file operations")
            moves, complete, temps, cleaned, bad = [], [], [], [], []
            for k, a in ops:
                if k == "mktemp":
                    temps.append(a[0])
                    want = eng.ufV("path.parent", eng.reify(s, dest)) if dest is not None else None
                    got = eng.reify(s, a[1])
                    par = want is not None and (got.eq(want) or got.eq(eng.ufV("path.parent", eng.ufV("path", eng.reify(s, dest)))) or valid(eng, s, got == want))
                    if not par:
                        bad.append(f"the temporary file is not created beside the destination: {got}")
                elif k in ("dump", "partial"):
                    if tmp_root(a[0]) is None:
                        bad.append(f"the archive is written to {a[0]} directly")
                    elif k == "dump":
                        ok = isinstance(a[1], SVal) and isinstance(a[1].tag, tuple) and a[1].tag[0] == "loaded" and fsmodel.same_path(eng, s, a[1].tag[1], i)
                        if not ok:
                            bad.append("something else than the loaded object is dumped")
                        complete.append(a[0])
                elif k in ("replace", "move"):
                    if dest is None or not fsmodel.same_path(eng, s, a[1], dest):
                        bad.append(f"{a[1]} is overwritten")
                    if not any(eng.same(s, a[0], c) for c in complete):
                        bad.append("a file that is not a complete archive is moved to the destination")
                    moves.append(a)
                elif k in ("cleanup", "remove"):
                    r = tmp_root(a[0])
                    if r is None:
                        bad.append(f"{a[0]} is removed")
                    else:
                        cleaned.append(r)
                else:
                    t = tmp_root(a[0])
                    if t is None:
                        bad.append(f"{k} {a[0]}")
            eng.oblige_bool(f"{name}#{n}: nothing but a temporary file and the destination is touched", not bad, "; ".join(bad)[:600])
            for t in temps:
                eng.oblige_bool(f"{name}#{n}: the temporary file is removed", any(eng.reify(s, t).eq(eng.reify(s, c)) for c in cleaned), str(ops)[:400])
            if moves:
                done += 1
                eng.oblige_bool(f"{name}#{n}: the destination is replaced once", len(moves) == 1, str(moves)[:300])
                eng.oblige_bool(f"{name}#{n}: only an older archive is rewritten, and only if one destination is given", dest is not None and not (given and inplace) and valid(eng, s, proto < PROTOCOL), str(s.pc)[-300:])
            elif not isinstance(v, Raise):
                need = dest is not None and not (given and inplace)
                eng.oblige_bool(f"{name}#{n}: without a move there was nothing to do", not need or valid(eng, s, proto >= PROTOCOL), "returns without writing the destination")
            if given and inplace:
                eng.oblige_bool(f"{name}#{n}: output and inplace together are an error", isinstance(v, Raise) and not ops, str(v))
        eng.oblige_bool(f"{name}: reachable", n > 0 and (done > 0) == (dest is not None and not (given and inplace)), f"{n} paths, {done} write", kind="vacuity")
    return mk


def u_update_main(eng):
    """main passes input, output and inplace on as they are given"""
    import skops.cli._update as up
    for given in (True, False):
        st = init_state(eng)
        setup_io(eng, st, up)
        lg = logger(eng, st)
        eng.ext[logging.basicConfig] = lambda e, s, a, k: iter([(s, Conc(None))])
        eng.attr_overrides[("logger", "setLevel()")] = lambda e, s, v, a, k: iter([(s, Conc(None))])
        calls = []

        def upd(e, s, a, k):
            v = dict(zip(("input_file", "output_file", "inplace", "logger"), a))
            v.update(k)
            calls.append((s.fork(), v))
            yield s, Conc(None)
        eng.contracts[up._update_file] = upd
        i, o = eng.sym("input", "str", st), eng.sym("output", "str", st)
        if given:
            st.assume(z3.Length(eng.str_of(o)) > 0)
        flag = SBool(z3.Bool("inplace"))
        ns = eng.alloc(st, ObjCell(argparse.Namespace, {"input": i, "output_file": o if given else Conc(None), "inplace": flag, "loglevel": Conc(0)}))
        ends = [(s, v) for s, v in eng.call(st.fork(), Conc(up.main), [ns], {"logger": lg}) if eng.feasible(s)]
        ends = [x for x in ends if not isinstance(x[1], Raise)]
        calls = [c for c in calls if eng.feasible(c[0])]
        eng.oblige_bool(f"update main (output {given}): one call of _update_file", len(calls) == len(ends) > 0, f"{len(calls)} {len(ends)}")
        for s, v in calls:
            eng.oblige_bool(f"update main (output {given}): the input is passed on", fsmodel.same_path(eng, s, v["input_file"], i), str(v))
            out = v.get("output_file", Conc(None))
            eng.oblige_bool(f"update main (output {given}): the output is passed on", fsmodel.same_path(eng, s, out, o) if given else isinstance(out, Conc) and out.v is None, str(out))
            eng.oblige_bool(f"update main (output {given}): inplace is passed on", "inplace" in v and eng.same(s, v["inplace"], flag), str(v.get("inplace")))


def u_convert(eng):
    """_convert_file: the output is opened only after dumps has succeeded, once, and receives exactly its bytes; the
    object dumped is the one unpickled from the input; a warning with the untrusted names is logged iff there are any"""
    import skops.cli._convert as cv
    st = init_state(eng)
    setup_io(eng, st, cv)
    eng.fs_may_raise = False
    lg = logger(eng, st)

    def pl(e, s, a, k):
        yield s.fork(), Raise(ExcV(Exception, (), False))
        f = a[0]
        tag = f.tag if isinstance(f, SVal) and isinstance(f.tag, tuple) else ("",)
        src = tag[1] if tag[0] == "file" else tag[2] if tag[:2] == ("bytes", "content") else f
        yield s, SVal(e.ufV("unpickled", e.reify(s, src)), ("unpickled", src))
    eng.ext[pickle.load] = pl
    eng.ext[pickle.loads] = pl
    i, o = SVal(z3.Const("input", V), ("path", None)), SVal(z3.Const("output", V), ("path", None))
    obj = eng.ufV("unpickled", i.t)
    data = eng.ufV("dumped", obj)
    un = SVal(eng.ufV("untrusted", data), ("list", "str"))
    n = done = 0
    for s, v in eng.call(st.fork(), Conc(cv._convert_file), [i, o], {"logger": lg}):
        if not eng.feasible(s):
            continue
        n += 1
        ops = ops_of(eng, s)
        if ops is None:
            raise Unsupported("unbounded file operations")
        if isinstance(v, Raise):
            eng.oblige_bool(f"_convert_file#{n}: a failure leaves all files untouched", not ops, str(ops)[:300])
            continue
        done += 1
        ok = len(ops) == 2 and ops[0][0] == "open" and fsmodel.same_path(eng, s, ops[0][1][0], o) and ops[0][1][1].v == "wb" and ops[1][0] == "write" \
            and valid(eng, s, eng.reify(s, ops[1][1][1]) == data)
        eng.oblige_bool(f"_convert_file#{n}: the output is written once, with the dumped bytes of the unpickled object", ok, str(ops)[:400])
        warned = [a for m, a in s.ghost.get("log", ()) if m in ("warning", "warn")]
        some = eng.truth(s, un)
        eng.oblige_bool(f"_convert_file#{n}: a warning is logged exactly if there are untrusted types", valid(eng, s, some) if warned else valid(eng, s, z3.Not(some)), f"{len(warned)} warnings; {s.pc}"[:400])
        for a in warned[:1]:
            t = eng.str_of(a[0]) if a else None
            parts = concat(t) if t is not None else []
            eng.oblige_bool(f"_convert_file#{n}: the warning lists them", any(str(x).replace("\n", "").startswith("s(") and "untrusted(dumped(" in str(x).replace("\n", "").replace(" ", "") and not re.search("slice|extract|getitem|item|nth", str(x)) for x in parts), str(parts)[:400])
    eng.oblige_bool("_convert_file: reachable", n > 1 and done > 1, f"{n} {done}", kind="vacuity")


def concat(t):
    """the parts of a concatenation"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in concat(x)]
    return [t]


def u_convert_main(eng):
    """main: the output given, else <cwd>/<stem of the input>.skops"""
    import skops.cli._convert as cv
    for given in (True, False):
        st = init_state(eng)
        setup_io(eng, st, cv)
        eng.ext[logging.basicConfig] = lambda e, s, a, k: iter([(s, Conc(None))])
        calls = []

        def conv(e, s, a, k):
            v = dict(zip(("input_file", "output_file"), a))
            v.update(k)
            calls.append((s.fork(), v))
            yield s, Conc(None)
        eng.contracts[cv._convert_file] = conv
        i, o = eng.sym("input", "str", st), eng.sym("output", "str", st)
        if given:
            st.assume(z3.Length(eng.str_of(o)) > 0)
        ns = eng.alloc(st, ObjCell(argparse.Namespace, {"input": i, "output_file": o if given else Conc(None), "loglevel": Conc(0)}))
        ends = [x for x in eng.call(st.fork(), Conc(cv.main), [ns], {}) if eng.feasible(x[0]) and not isinstance(x[1], Raise)]
        calls = [c for c in calls if eng.feasible(c[0])]
        eng.oblige_bool(f"convert main (output {given}): one call of _convert_file", len(calls) == len(ends) > 0, f"{len(calls)} {len(ends)}")
        for s, v in calls:
            eng.oblige_bool(f"convert main (output {given}): the input is passed on", fsmodel.same_path(eng, s, v["input_file"], i), str(v))
            if given:
                eng.oblige_bool("convert main: the output is passed on", fsmodel.same_path(eng, s, v["output_file"], o), str(v))
            else:
                p = None
                for s1, p0 in eng.ext[pathlib.Path](eng, s, [i], {}):
                    stem = V.s(eng.ufV("path.stem", p0.t))
                    p = eng.ufV("path.join", z3.Const("cwd", V), V.S(z3.Concat(stem, z3.StringVal(".skops"))))
                got = eng.reify(s, v["output_file"])
                eng.oblige_bool("convert main: the default output is <cwd>/<stem>.skops", valid(eng, s, got == p), f"{got} / {p}"[:500])
