"""Trusted model of file operations: every operation appends to a ghost trace (a heap list,
so loops summarise it) and may raise when the policy asks for it."""
from __future__ import annotations
import io, os, pathlib, shutil, tempfile, zipfile, contextlib
from .values import *
from .values import z3, V, Unsupported
from .engine import Raise, ExcV, Known, _name


def install(eng, st, may_raise=False):
    tr = eng.alloc(st, ListCell(()))
    st.ghost["fs"] = tr.addr
    eng.fs_may_raise = may_raise

    def op(e, s, name, *vals):
        a = s.ghost["fs"]
        c = s.heap[a]
        s.heap[a] = ListCell(c.segs + (Known((Tup((Conc(name),) + tuple(vals)),)),), "list")

    def maybe(e, s, exc=OSError):
        if e.fs_may_raise:
            s2 = s.fork()
            yield s2, Raise(ExcV(exc, (), False))

    def h_open(e, s, args, kw):
        mode = args[1] if len(args) > 1 else kw.get("mode", Conc("r"))
        enc = kw.get("encoding", args[3] if len(args) > 3 else Conc(None))
        yield from maybe(e, s)
        if isinstance(mode, Conc) and any(c in mode.v for c in "wax+"):
            op(e, s, "open", args[0], mode, enc)
            yield from ((s2, r) for s2, r in maybe(e, s))
        f = SVal(z3.Const(e.fresh("file"), V), ("file", args[0], mode, enc))
        yield s, f
    eng.ext[open] = eng.ext[io.open] = h_open

    def f_write(e, s, v, args, kw):
        yield from maybe(e, s, Exception)
        op(e, s, "write", v, args[0])
        yield from maybe(e, s)
        yield s, Conc(None)
    eng.attr_overrides[("file", "write()")] = f_write
    eng.attr_overrides[("file", "writelines()")] = lambda e, s, v, a, k: _writelines(e, s, v, a, op)
    eng.attr_overrides[("file", "close()")] = lambda e, s, v, a, k: iter([(s, Conc(None))])
    eng.attr_overrides[("file", "flush()")] = lambda e, s, v, a, k: iter([(s, Conc(None))])
    eng.attr_overrides[("file", "fileno()")] = lambda e, s, v, a, k: iter([(s, SInt(e.ufV("fileno", v.t, res=z3.IntSort())))])
    eng.attr_overrides[("file", "read()")] = lambda e, s, v, a, k: iter([(s, content(e, s, v.tag[1]))])
    eng.attr_overrides[("file", "__enter__()")] = lambda e, s, v, a, k: iter([(s, v)])
    eng.attr_overrides[("file", "name")] = lambda e, s, v, n: iter([(s, v.tag[1])])

    def content(e, s, p):
        return SVal(e.ufV("file.content", e.reify(s, p)), ("bytes", "content", p))

    # paths: pure values; Path(x) keeps the identity of x
    def h_path(e, s, args, kw):
        if len(args) == 1 and isinstance(args[0], SVal) and isinstance(args[0].tag, tuple) and args[0].tag[0] == "path":
            yield s, args[0]
        elif len(args) == 1:
            a = args[0]
            yield s, SVal(e.ufV("path", _pt(e, s, a)), ("path", a))
        else:
            for s1, p in list(h_path(e, s, args[:1], {})):
                t = p.t
                for a in args[1:]:
                    t = e.ufV("path.join", t, e.reify(s1, a))
                yield s1, SVal(t, ("path", None, args[0]))
    eng.ext[pathlib.Path] = h_path
    for nm in ("parent", "name", "stem", "suffix"):
        eng.attr_overrides[("path", nm)] = (lambda nm: lambda e, s, v, n: iter([(s, SVal(e.ufV(f"path.{nm}", v.t), ("path", None)) if nm == "parent" else SStr(V.s(e.ufV(f"path.{nm}", v.t))))]))(nm)
    def p_text(e, s, v, args, kw):
        enc = kw.get("encoding", args[1] if len(args) > 1 else Conc(None))
        op(e, s, "open", v, Conc("w"), enc)
        f = SVal(z3.Const(e.fresh("file"), V), ("file", v, Conc("w"), enc))
        op(e, s, "write", f, args[0])
        yield s, Conc(None)
    eng.attr_overrides[("path", "write_text()")] = p_text
    def p_bytes(e, s, v, args, kw):
        op(e, s, "open", v, Conc("wb"), Conc(None))
        f = SVal(z3.Const(e.fresh("file"), V), ("file", v, Conc("wb"), Conc(None)))
        op(e, s, "write", f, args[0])
        yield s, Conc(None)
    eng.attr_overrides[("path", "write_bytes()")] = p_bytes
    def p_read(e, s, v, a, k):
        yield from maybe(e, s)
        yield s, content(e, s, v)
    eng.attr_overrides[("path", "read_bytes()")] = p_read
    eng.attr_overrides[("path", "open()")] = lambda e, s, v, a, k: h_open(e, s, [v] + list(a), k)
    eng.fs_op = op


    install_more(eng, op, maybe, h_path)


def install_more(eng, op, maybe, h_path):
    """temporary files, renaming, deleting, archives"""
    def join(e, s, base, *parts):
        b = e.reify(s, base)
        for x in parts:
            b = e.ufV("path.join", b, e.reify(s, x))
        return SVal(b, ("path", None, base))
    def truediv(e, s, a, b):
        if isinstance(a, SVal) and isinstance(a.tag, tuple) and a.tag[0] == "path":
            return join(e, s, a, b)
    eng.binop_hooks.append(lambda e, s, o, a, b: truediv(e, s, a, b) if o == "Div" else None)
    eng.ext[os.path.join] = lambda e, s, a, k: iter([(s, join(e, s, *a))])
    eng.attr_overrides[("path", "joinpath()")] = lambda e, s, v, a, k: iter([(s, join(e, s, v, *a))])
    eng.attr_overrides[("path", "__str__")] = lambda e, s, v: v
    eng.ext[os.fspath] = lambda e, s, a, k: iter([(s, a[0])])
    for nm in ("absolute", "resolve", "expanduser"):
        eng.attr_overrides[("path", nm + "()")] = lambda e, s, v, a, k: iter([(s, v)])
    eng.ext[os.path.abspath] = eng.ext[os.path.realpath] = lambda e, s, a, k: h_path(e, s, a, {})
    for nm in ("exists", "is_file", "is_dir", "samefile", "is_absolute", "is_symlink"):
        eng.attr_overrides[("path", nm + "()")] = (lambda nm: lambda e, s, v, a, k: iter([(s, SBool(z3.Bool(e.fresh(nm))))]))(nm)
    for f in (os.path.exists, os.path.isfile, os.path.isdir, os.path.samefile):
        eng.ext[f] = (lambda f: lambda e, s, a, k: iter([(s, SBool(z3.Bool(e.fresh(f.__name__))))]))(f)
    for nm in ("with_name", "with_suffix", "with_stem", "relative_to"):
        eng.attr_overrides[("path", nm + "()")] = (lambda nm: lambda e, s, v, a, k: iter([(s, SVal(e.ufV(f"path.{nm}", v.t, *[e.reify(s, x) for x in a]), ("path", None, ("sibling", v))))]))(nm)
    eng.ext[os.path.dirname] = lambda e, s, a, k: h_dirname(e, s, a)
    def h_dirname(e, s, a):
        for s1, v in h_path(e, s, a, {}):
            yield s1, SVal(e.ufV("path.parent", v.t), ("path", None))
    eng.ext[os.path.basename] = lambda e, s, a, k: iter([(s, SStr(V.s(e.ufV("path.name", e.reify(s, a[0])))))])
    eng.ext[pathlib.Path.cwd] = lambda e, s, a, k: iter([(s, SVal(z3.Const("cwd", V), ("path", None)))])
    eng.ext[os.getcwd] = eng.ext[pathlib.Path.cwd]

    def tempdir(e, s, args, kw):
        yield from maybe(e, s)
        d = kw.get("dir", args[2] if len(args) > 2 else Conc(None))
        t = SVal(z3.Const(e.fresh("tmpdir"), V), ("tmpdir", d))
        op(e, s, "mktemp", t, d)
        yield s, t
    eng.ext[tempfile.TemporaryDirectory] = tempdir
    def tmp_path(v):
        return SVal(v.t, ("path", None, ("tmp", v.tag[1])))
    eng.attr_overrides[("with", "tmpdir")] = lambda e, s, v: tmp_path(v)
    eng.attr_overrides[("tmpdir", "name")] = lambda e, s, v, n: iter([(s, tmp_path(v))])
    def cleanup(e, s, v, *a):
        op(e, s, "cleanup", v)
        yield s, Conc(None)
    eng.attr_overrides[("with_exit", "tmpdir")] = cleanup
    eng.attr_overrides[("tmpdir", "cleanup()")] = cleanup
    def mkdtemp(e, s, args, kw):
        for s1, v in tempdir(e, s, args, kw):
            yield s1, v if isinstance(v, Raise) else tmp_path(v)
    eng.ext[tempfile.mkdtemp] = mkdtemp
    def mkstemp(e, s, args, kw):
        for s1, v in mkdtemp(e, s, args, kw):
            yield s1, v if isinstance(v, Raise) else Tup((SInt(z3.Int(e.fresh("fd"))), v))
    eng.ext[tempfile.mkstemp] = mkstemp
    eng.ext[os.close] = lambda e, s, a, k: iter([(s, Conc(None))])
    def ntf(e, s, args, kw):
        for s1, v in mkdtemp(e, s, [], {k: x for k, x in kw.items() if k == "dir"}):
            if isinstance(v, Raise):
                yield s1, v
                continue
            f = SVal(z3.Const(e.fresh("file"), V), ("file", v, Conc("w+b"), Conc(None), kw.get("delete", Conc(True))))
            yield s1, f
    eng.ext[tempfile.NamedTemporaryFile] = ntf
    def fs_exit(e, s, v, *a):
        if len(v.tag) > 4 and isinstance(v.tag[4], Conc) and v.tag[4].v:
            op(e, s, "remove", v.tag[1])
        yield s, Conc(None)
    eng.attr_overrides[("with_exit", "file")] = fs_exit

    def two(name):
        def h(e, s, args, kw):
            yield from maybe(e, s)
            a = list(args) + [kw[k] for k in ("src", "dst", "target") if k in kw]
            op(e, s, name, *a[:2])
            yield s, Conc(None)
        return h
    for f in (os.replace, os.rename):
        eng.ext[f] = two("replace")
    eng.ext[shutil.move] = two("move")
    for f in (shutil.copy, shutil.copy2, shutil.copyfile):
        eng.ext[f] = two("copy")
    eng.ext[shutil.copymode] = eng.ext[shutil.copystat] = lambda e, s, a, k: iter([(s, Conc(None))])
    for nm in ("replace", "rename"):
        eng.attr_overrides[("path", nm + "()")] = lambda e, s, v, a, k: two("replace")(e, s, [v] + list(a), k)
    def one(name):
        def h(e, s, args, kw):
            yield from maybe(e, s)
            op(e, s, name, *args[:1])
            yield s, Conc(None)
        return h
    for f in (os.remove, os.unlink, os.rmdir, shutil.rmtree):
        eng.ext[f] = one("remove")
    for f in (os.makedirs, os.mkdir):
        eng.ext[f] = one("mkdir")
    for nm, o in (("unlink", "remove"), ("rmdir", "remove"), ("mkdir", "mkdir"), ("touch", "touch")):
        eng.attr_overrides[("path", nm + "()")] = (lambda o: lambda e, s, v, a, k: one(o)(e, s, [v], {}))(o)

    def zf(e, s, args, kw):
        yield from maybe(e, s, Exception)
        mode = args[1] if len(args) > 1 else kw.get("mode", Conc("r"))
        if not (isinstance(mode, Conc) and mode.v == "r"):
            buf = args[0]
            if not (isinstance(buf, SVal) and isinstance(buf.tag, tuple) and buf.tag[0] == "bytesio"):
                op(e, s, "open", args[0], mode, Conc(None))
        yield s, SVal(z3.Const(e.fresh("zipfile"), V), ("zip", args[0], mode))
    eng.ext[zipfile.ZipFile] = zf
    def zread(e, s, v, a, k):
        yield from maybe(e, s, Exception)
        yield s, SVal(e.ufV("zip.read", e.reify(s, v.tag[1]), e.reify(s, a[0])), ("bytes",))
    eng.attr_overrides[("zip", "read()")] = zread
    def zopen(e, s, v, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", Conc("r"))
        if not (isinstance(mode, Conc) and mode.v == "r"):
            raise Unsupported("member of an archive opened for writing")
        for s1, d in zread(e, s, v, a, k):
            yield s1, d if isinstance(d, Raise) else SVal(d.t, ("member",))
    eng.attr_overrides[("zip", "open()")] = zopen
    eng.ext_tags = set(eng.ext_tags) | {"member"}
    eng.attr_overrides[("member", "read()")] = lambda e, s, v, a, k: iter([(s, SVal(v.t, ("bytes",)))])
    eng.attr_overrides[("member", "close()")] = lambda e, s, v, a, k: iter([(s, Conc(None))])
    def zwrite(e, s, v, a, k):
        yield from maybe(e, s, Exception)
        b = v.tag[1]
        if not (isinstance(b, SVal) and isinstance(b.tag, tuple) and b.tag[0] == "bytesio"):
            op(e, s, "zipwrite", b, *a)
        yield s, Conc(None)
    eng.attr_overrides[("zip", "writestr()")] = zwrite
    eng.attr_overrides[("zip", "close()")] = lambda e, s, v, a, k: iter([(s, Conc(None))])

    def bio(e, s, args, kw):
        yield s, SVal(z3.Const(e.fresh("bytesio"), V), ("bytesio",))
    eng.ext[io.BytesIO] = bio
    for nm in ("getbuffer", "getvalue", "read"):
        eng.attr_overrides[("bytesio", nm + "()")] = lambda e, s, v, a, k: iter([(s, SVal(e.ufV("bytesio.content", v.t), ("bytes",)))])
    eng.attr_overrides[("bytes", "tobytes()")] = lambda e, s, v, a, k: iter([(s, v)])
    for nm in ("seek", "tell", "flush"):
        eng.attr_overrides[("bytesio", nm + "()")] = lambda e, s, v, a, k: iter([(s, Conc(0))])
    eng.attr_overrides[("bytesio", "write()")] = lambda e, s, v, a, k: iter([(s, Conc(0))])


def _pt(e, s, a):
    """term of the path an argument denotes: Path(Path(x)) == Path(x), str(Path(x)) == x"""
    return e.reify(s, a)


def _writelines(e, s, v, args, op):
    def body(s2, elem):
        op(e, s2, "write", v, elem)
        yield s2, None
    for s1, segs in e.iterate(s, args[0]):
        for s2, o in e.loop(s1, segs, body):
            yield s2, Conc(None)


def trace(s):
    c = s.heap[s.ghost["fs"]]
    return c.segs


def show_trace(eng, s):
    from .harness import show
    return show(eng, s, Ref(s.ghost["fs"]))


def same_path(eng, s, a, b):
    a, b = strip_path(a), strip_path(b)
    return eng.same(s, a, b)


def strip_path(a):
    while isinstance(a, SVal) and isinstance(a.tag, tuple) and a.tag[0] == "path" and len(a.tag) > 1 and a.tag[1] is not None:
        a = a.tag[1]
    return a


def final_text(eng, s, path):
    """('text', value, encoding) when the trace is: open path for writing once, writes, nothing else"""
    segs = eng.norm_segs(s, trace(s))
    if not all(isinstance(x, Known) for x in segs) or not segs:
        return None
    ops = segs[0].vals
    first = ops[0].items
    if first[0].v != "open" or not same_path(eng, s, first[1], path) or not isinstance(first[2], Conc) or first[2].v not in ("w", "wt", "wb"):
        return None
    vals = []
    for o in ops[1:]:
        if o.items[0].v != "write":
            return None
        vals.append(o.items[2])
    enc = first[3].v if isinstance(first[3], Conc) else None
    enc = enc.lower().replace("utf8", "utf-8") if isinstance(enc, str) else enc
    if len(vals) == 1:
        return ("text", vals[0], enc)
    if not vals:
        return ("text", Conc(""), enc)
    ts = [eng.str_of(v) for v in vals]
    if any(t is None for t in ts):
        return None
    return ("text", SStr(z3.Concat(*ts)), enc)
