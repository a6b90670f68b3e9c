"""Contracts on saving as a whole (C12, C20): dump, dumps and the function that writes the archive.

The whole call is executed symbolically for an arbitrary object; get_state is used through its contract (it raises, or
returns a dict of its own and uses the context it is given). Every effect on the archive, the buffer and the sink is
recorded in order; the obligations are about that record."""
from __future__ import annotations
import io, json, pathlib, zipfile
import numpy as np
from pyvc.harness import *
from pyvc.engine import Known
from pyvc import fsmodel
from contracts.nodeproof import cell

# arguments of json.dumps that change the layout of the text only
LAYOUT = {"indent", "separators", "sort_keys", "ensure_ascii", "check_circular"}


def valid(eng, s, g):
    return eng.prover.valid(s.pc, g) == "valid"


def log(s, *x):
    s.ghost["trace"] = s.ghost.get("trace", ()) + (x,)


class SavePolicy(Policy):
    values_only = True
    def __init__(self):
        self.writes = []

    def event(self, eng, st, kind, **kw):
        if kind in ("live_write", "global_write"):
            self.writes.append((kind, str(kw.get("obj", "")) + " " + str(kw.get("name", ""))))
            log(st, "live", kind, kw)


def setup(eng, st):
    """contracts of the externals; the trace of effects is in the ghost state"""
    from skops.io import _persist as ps, _utils as us
    fsmodel.install(eng, st)

    def op(e, s, name, *vals):
        log(s, "fs", name, *vals)
    # the operations on sinks go to the same trace
    def h_open(e, s, args, kw):
        mode = args[1] if len(args) > 1 else kw.get("mode", Conc("r"))
        f = SVal(z3.Const(e.fresh("file"), V), ("file", args[0], mode, Conc(None)))
        op(e, s, "open", args[0], mode, f)
        yield s, f
    eng.ext[open] = eng.ext[io.open] = h_open
    eng.attr_overrides[("path", "open()")] = lambda e, s, v, a, k: h_open(e, s, [v] + list(a), k)

    def f_write(e, s, v, a, k):
        op(e, s, "write", v, a[0])
        yield s, Conc(None)
    eng.attr_overrides[("file", "write()")] = f_write

    def p_bytes(e, s, v, a, k):
        for s1, f in h_open(e, s, [v, Conc("wb")], {}):
            op(e, s1, "write", f, a[0])
            op(e, s1, "close", f)
            yield s1, Conc(None)
    eng.attr_overrides[("path", "write_bytes()")] = p_bytes
    fclose = lambda e, s, v, *a: (log(s, "fs", "close", v), iter([(s, Conc(None))]))[1]
    eng.attr_overrides[("with_exit", "file")] = fclose
    eng.attr_overrides[("file", "close()")] = fclose

    def zf(e, s, args, kw):
        kw = dict(kw)
        for n, a in zip(("file", "mode", "compression", "allowZip64", "compresslevel"), args):
            kw[n] = a
        z = SVal(z3.Const(e.fresh("zipfile"), V), ("zip", kw["file"], kw.get("mode", Conc("r"))))
        log(s, "zip", z, kw)
        yield s, z
    eng.ext[zipfile.ZipFile] = zf

    def zclose(e, s, v, *a):
        log(s, "close", v)
        yield s, Conc(None)
    eng.attr_overrides[("with_exit", "zip")] = zclose
    eng.attr_overrides[("zip", "close()")] = zclose
    eng.attr_overrides[("zip", "__enter__()")] = lambda e, s, v, a, k: iter([(s, v)])
    eng.attr_overrides[("with", "zip")] = lambda e, s, v: v

    def writestr(e, s, v, a, k):
        log(s, "writestr", v, a[0] if a else k["zinfo_or_arcname"], a[1] if len(a) > 1 else k["data"], dict(k), len(a))
        yield s, Conc(None)
    eng.attr_overrides[("zip", "writestr()")] = writestr

    def bio(e, s, args, kw):
        b = SVal(z3.Const(e.fresh("bytesio"), V), ("bytesio",))
        if args or kw:
            raise Unsupported("BytesIO with content")
        yield s, b
    eng.ext[io.BytesIO] = bio

    def content(e, s, v, a, k):
        if a or k:
            raise Unsupported("part of a buffer")
        log(s, "content", v)
        yield s, SVal(e.ufV("bytesio.content", v.t), ("bytes",))
    for nm in ("getbuffer", "getvalue"):
        eng.attr_overrides[("bytesio", nm + "()")] = content
    for nm in ("seek", "tell", "read", "write", "truncate", "readinto", "read1"):
        def odd(e, s, v, a, k, nm=nm):
            log(s, "buffer", nm, v)
            raise Unsupported(f"{nm} on the buffer")
        eng.attr_overrides[("bytesio", nm + "()")] = odd
    eng.ext[bytes] = lambda e, s, a, k: iter([(s, a[0])]) if a and isinstance(a[0], SVal) and a[0].tag == ("bytes",) else (_ for _ in ()).throw(Unsupported("bytes()"))

    def get_state(e, s, a, k):
        args = dict(zip(("value", "save_context"), a))
        args.update(k)
        s2 = s.fork()
        log(s2, "get_state", args["value"], args["save_context"], None)
        yield s2, Raise(ExcV(Exception, (), False))
        c = cell(s, args["save_context"])
        zip_ = c.attrs.get("zip_file") if isinstance(c, ObjCell) else None
        memo = c.attrs.get("memo") if isinstance(c, ObjCell) else None
        mc = cell(s, memo) if memo is not None else None
        log(s, "get_state", args["value"], args["save_context"], {
            "zip": zip_, "protocol": c.attrs.get("protocol") if isinstance(c, ObjCell) else None,
            "memo_fresh": isinstance(mc, DictCell) and not mc.segs, "memo": memo})
        # the contents that get_state writes, and the memo that it fills: the ids stand for the objects as long as it does
        log(s, "writestr", zip_, None, None, {}, 2)
        if isinstance(memo, Ref):
            s.heap[memo.addr] = DictCell(((("k", SInt(z3.Int(e.fresh("id"))), args["value"]),)))
        d = e.alloc(s, DictCell((("s", e.items_of(SVal(z3.Const("state0", V), ("dict", "str", None)))),)))
        s.ghost["state0"] = d
        yield s, d
    for f in {getattr(ps, "get_state", None), us.get_state} - {None}:
        eng.contracts[f] = get_state

    def dumps(e, s, a, k):
        s2 = s.fork()
        log(s2, "json", a, k)
        yield s2, Raise(ExcV(TypeError, (), False))
        log(s, "json", a, k)
        yield s, SStr(V.s(e.ufV("json.dumps", e.reify(s, a[0] if a else k["obj"]))))
    eng.ext[json.dumps] = dumps

    def jdump(e, s, a, k):
        raise Unsupported("json.dump")
    eng.ext[json.dump] = jdump
    return ps


def entries(eng, s, ref):
    """(unknown part, {key: value}) of the dict that is written"""
    c = cell(s, ref)
    if not isinstance(c, DictCell):
        return None, {}
    known, rest = {}, []
    for g in c.segs:
        if g[0] == "k" and isinstance(g[1], Conc):
            known[g[1].v] = g[2]
        else:
            rest.append(g)
    return rest, known


def names_schema(v):
    return isinstance(v, Conc) and v.v == "schema.json"


def u_save(sink, other=None):
    """dump to a path / an open file, or dumps"""
    def mk(eng):
        st = init_state(eng)
        import skops
        from skops.io._protocol import PROTOCOL
        pol = eng.policy = SavePolicy()
        ps = setup(eng, st)
        obj = SVal(z3.Const("obj", V), ("obj",))
        comp, lvl = SInt(z3.Int("compression")), SVal(z3.Const("compresslevel", V), None)
        if sink == "path":
            f = SVal(z3.Const("dest", V), ("path", None))
        elif sink == "str":
            f = eng.sym("dest", "str", st)
        elif sink == "file":
            f = SVal(z3.Const("dest", V), ("file", SVal(z3.Const("name", V), ("path", None)), Conc("wb"), Conc(None)))
        fn = other or (ps.dumps if sink == "bytes" else ps.dump)
        n = 0
        O = lambda name, ok, d="": eng.oblige_bool(f"{sink}#{n}: {name}", ok, "" if ok else d)
        for s, v in eng.run(fn, [obj] + ([] if sink == "bytes" else [f]), {"compression": comp, "compresslevel": lvl}, st):
            if not eng.feasible(s):
                continue
            tr = s.ghost.get("trace", ())
            text = "; ".join(" ".join(str(x)[:60] for x in t) for t in tr)
            if isinstance(v, Raise):
                continue      # C18: nothing is left behind
            n += 1
            kinds = [t[0] for t in tr]
            O("nothing outside the call is written", "live" not in kinds, text)
            # one archive, written with the compression asked for, to a buffer of the call or to the sink itself
            zs = [t for t in tr if t[0] == "zip"]
            O("one archive is made", len(zs) == 1, text)
            if len(zs) != 1:
                continue
            z, kw = zs[0][1], zs[0][2]
            O("the archive is written from the beginning", isinstance(kw.get("mode"), Conc) and kw["mode"].v in ("w", "x"), show(eng, s, kw.get("mode", Conc("r"))))
            c = kw.get("compression", Conc(zipfile.ZIP_STORED))
            O("with the compression asked for", isinstance(c, SInt) and valid(eng, s, c.t == comp.t), show(eng, s, c))
            l = kw.get("compresslevel", Conc(None))
            O("with the level asked for", eng.same(s, l, lvl), show(eng, s, l))
            # the state of the object
            gs = [(i, t) for i, t in enumerate(tr) if t[0] == "get_state"]
            O("the state of the object is taken once", len(gs) == 1 and eng.same(s, gs[0][1][1], obj), text)
            if len(gs) != 1 or gs[0][1][3] is None:
                continue
            i_gs, info = gs[0][0], gs[0][1][3]
            O("with a context of this archive", info["zip"] is not None and eng.same(s, info["zip"], z), text)
            O("with a context of the current protocol", info["protocol"] is not None and eng.same(s, info["protocol"], Conc(PROTOCOL)), show(eng, s, info["protocol"]))
            O("with a memo of its own, empty", info["memo_fresh"], show(eng, s, info["memo"]) if info["memo"] is not None else "no memo")
            # schema.json
            ws = [(i, t) for i, t in enumerate(tr) if t[0] == "writestr" and t[2] is not None]
            O("one member is written beside the contents: schema.json", len(ws) == 1 and names_schema(ws[0][1][2]) and eng.same(s, ws[0][1][1], z), text)
            js = [t for t in tr if t[0] == "json"]
            if len(ws) != 1 or len(js) != 1:
                O("the schema is json", False, text)
                continue
            i_ws = ws[0][0]
            O("with the compression of the archive", not set(ws[0][1][4]) - {"zinfo_or_arcname", "data"} and ws[0][1][5] <= 2, str(ws[0][1][4]))
            a, k = js[0][1], js[0][2]
            src = a[0] if a else k["obj"]
            O("json is valid: only its layout is chosen", set(k) - {"obj"} <= LAYOUT | {"allow_nan"} and not ("allow_nan" in k and not isinstance(k["allow_nan"], Conc)), str(sorted(k)))
            O("all of the json text is written", eng.same(s, strip_bytes(ws[0][1][3]), SStr(V.s(eng.ufV("json.dumps", eng.reify(s, src))))), show(eng, s, ws[0][1][3]))
            # the members of the root are the state, the protocol and the version
            rest, known = entries(eng, s, src)
            O("the schema holds the state", rest is not None and len(rest) == 1 and rest[0][0] == "s" and eng.same_segs(s, (rest[0][1],), (eng.items_of(SVal(z3.Const("state0", V), ("dict", "str", None))),)), show(eng, s, src))
            O("the schema holds protocol and version, nothing else", set(known) == {"protocol", "_skops_version"}, show(eng, s, src))
            O("the protocol is the current one", "protocol" in known and eng.same(s, known["protocol"], Conc(PROTOCOL)), show(eng, s, src))
            O("the version is the one of skops", "_skops_version" in known and eng.same(s, known["_skops_version"], Conc(skops.__version__)), show(eng, s, src))
            O("the schema is written after the state is taken", i_gs < i_ws, text)
            # what arrives
            cl = [i for i, t in enumerate(tr) if t[0] == "close" and eng.same(s, t[1], z)]
            O("the archive is complete: closed after its last member", len(cl) >= 1 and cl[0] > i_ws, text)
            buf = kw["file"]
            fs = [(i, t) for i, t in enumerate(tr) if t[0] == "fs"]
            whole = SVal(eng.ufV("bytesio.content", buf.t), ("bytes",)) if isinstance(buf, SVal) and buf.tag == ("bytesio",) else None
            if whole is None:
                # written to the sink itself
                O("the sink is the one asked for", sink != "bytes" and eng.same(s, fsmodel.strip_path(buf), fsmodel.strip_path(f)), text)
                O("nothing else is written to it", not fs, text)
                continue
            taken = [i for i, t in enumerate(tr) if t[0] == "content"]
            O("the content is taken once the archive is complete", bool(taken) and all(i > cl[0] for i in taken) if cl else False, text)
            if sink == "bytes":
                O("the bytes of the archive are returned", eng.same(s, v, whole), show(eng, s, v))
                O("nothing is written elsewhere", not fs, text)
            elif sink == "file":
                O("the archive is written to the file, nothing else", len(fs) == 1 and fs[0][1][1] == "write" and eng.same(s, fs[0][1][2], f) and eng.same(s, fs[0][1][3], whole), text)
            else:
                ops = [t for _, t in fs]
                ok = [t[1] for t in ops] == ["open", "write", "close"] and fsmodel.same_path(eng, s, ops[0][2], f) and isinstance(ops[0][3], Conc) and ops[0][3].v in ("wb", "bw", "xb", "wb+", "w+b") \
                    and eng.same(s, ops[1][2], ops[0][4]) and eng.same(s, ops[2][2], ops[0][4])
                O("the file is opened, written and closed", ok, text)
                O("with the bytes of the archive", ok and eng.same(s, ops[1][3], whole), text)
        eng.oblige_bool(f"{sink}: reachable", n > 0, kind="vacuity")
    return mk


def strip_bytes(v):
    return v


def u_clear_memo(eng):
    """the memo is emptied, and nothing else happens"""
    import skops.io._utils as us
    st = init_state(eng)
    memo = eng.alloc(st, DictCell((("s", eng.items_of(SVal(z3.Const("m", V), ("dict", "int", None)))),)))
    ctx = eng.alloc(st, ObjCell(us.SaveContext, {"zip_file": SVal(z3.Const("out", V), ("outzip",)), "protocol": Conc(2), "memo": memo}))
    n = 0
    for s, r in eng.run(us.SaveContext.clear_memo, [ctx], {}, st):
        n += 1
        c = cell(s, ctx).attrs["memo"]
        ok = not isinstance(r, Raise) and isinstance(cell(s, c), DictCell) and not cell(s, c).segs
        eng.oblige_bool(f"clear_memo: the memo is empty #{n}", ok, show(eng, s, c))
    eng.oblige_bool("clear_memo: reachable", n > 0, kind="vacuity")


def u_context(which):
    """two contexts share nothing"""
    def mk(eng):
        import skops.io._utils as us
        cls = getattr(us, which)
        st = init_state(eng)
        pol = eng.policy = SavePolicy()

        def two():
            return cls("z1", protocol=2), cls("z2", protocol=2)
        n = 0
        for s, r in eng.run(two, [], {}, st):
            if isinstance(r, Raise) or not isinstance(r, Tup):
                eng.oblige_bool(f"{which}: can be made #{n}", False, str(r))
                continue
            n += 1
            a, b = (cell(s, x) for x in r.items)
            shared = [k for k, x in a.attrs.items() if isinstance(x, Ref) and isinstance(b.attrs.get(k), Ref) and x.addr == b.attrs[k].addr]
            livev = [k for k, x in a.attrs.items() if isinstance(x, Conc) and isinstance(x.v, (dict, list, set))]
            eng.oblige_bool(f"{which}: what one context fills is not seen by another #{n}", not shared and not livev, f"shared: {shared + livev}")
            m = a.attrs.get("memo")
            eng.oblige_bool(f"{which}: the memo is empty at first #{n}", isinstance(m, Ref) and isinstance(cell(s, m), DictCell) and not cell(s, m).segs, show(eng, s, m) if m is not None else "")
        eng.oblige_bool(f"{which}: nothing outside is written", not pol.writes, str(pol.writes))
        eng.oblige_bool(f"{which}: reachable", n > 0, kind="vacuity")
    return mk


def prove_save(P):
    for d in ("path", "str", "file", "bytes"):
        P.unit(f"save to {d}", "dumps" if d == "bytes" else "dump", u_save(d), policy=SavePolicy())


def prove_contexts(P):
    P.unit("clear_memo", "SaveContext.clear_memo", u_clear_memo)
    for c in ("SaveContext", "LoadContext"):
        P.unit(f"{c}: nothing shared", c, u_context(c))


def prove(P):
    prove_save(P)
    prove_contexts(P)


def guards(G):
    from skops.io import _persist as ps, _utils as us
    import skops

    def early(obj, *, compression=0, compresslevel=None):
        buffer = io.BytesIO()
        with zipfile.ZipFile(buffer, "w", compression=compression, compresslevel=compresslevel) as zip_file:
            save_context = us.SaveContext(zip_file=zip_file)
            state = us.get_state(obj, save_context)
            state["protocol"] = save_context.protocol
            state["_skops_version"] = skops.__version__
            zip_file.writestr("schema.json", json.dumps(state))
            return buffer.getvalue()

    def plain(obj, *, compression=0, compresslevel=None):
        buffer = io.BytesIO()
        with zipfile.ZipFile(buffer, "w") as zip_file:
            save_context = us.SaveContext(zip_file=zip_file)
            state = us.get_state(obj, save_context)
            state["protocol"] = save_context.protocol
            state["_skops_version"] = skops.__version__
            zip_file.writestr("schema.json", json.dumps(state))
        return buffer.getvalue()
    G.unit("guard: content taken before the archive is closed", "guard", u_save("bytes", early), policy=SavePolicy())
    G.unit("guard: compression ignored", "guard", u_save("bytes", plain), policy=SavePolicy())
