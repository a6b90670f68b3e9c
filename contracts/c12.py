"""C12 Archives are well-formed and independent of sink and compression."""
from __future__ import annotations
import io, json, os, pathlib, re, tempfile, warnings, zipfile
import numpy as np
from contracts import archives as A, objects as O, zoo
from contracts import rtproof as RT, saveproof as SP, idproof as ID
from contracts.select import Only

LEVEL = "proof"
NOTE = ('dump/dumps and all below get_state under contract for all objects, compressions and sinks; for every kind of value the state is json, names class, module, a registered loader, and the members it writes are flat, new and referred to; that zipfile and json write what they are asked to is trusted; bounded: generated objects, sinks and compressions')
BUDGET = {"quick": 60, "thorough": 800}
TRUSTED = ['zipfile.ZipFile writes a valid archive of the members given to it', 'json.dumps without default gives valid json for dicts with distinct string keys, lists, strings, ints, bools, None and finite floats', 'uuid4 never repeats']
ASSUMPTIONS = ['the induction over the nesting of a value (the child of the state of v builds v) is an argument on paper: each unit discharges one step for all values of one kind']
EXPLANATION = ('proved: one archive is made with the compression and level asked for, the state is taken once with a fresh context of this archive, schema.json is written once after it with exactly the state, protocol and version, the archive is closed before its bytes are taken, and exactly these bytes arrive at each sink; for each kind the state is json, complete, and consistent with the members; bounded: archives of generated objects.')


def prove(P):
    SP.prove_save(P)
    RT.prove(Only(P, keep=r"json|is a string|is flat|refers to|written only|file of the state|is registered|is a dict"))
    ID.prove_state(P)


def guards(G):
    SP.guards(G)

COMPRESSIONS = [(zipfile.ZIP_STORED, None), (zipfile.ZIP_STORED, 5), (zipfile.ZIP_DEFLATED, None), (zipfile.ZIP_DEFLATED, 0), (zipfile.ZIP_DEFLATED, 1), (zipfile.ZIP_DEFLATED, 6), (zipfile.ZIP_DEFLATED, 9),
                (zipfile.ZIP_BZIP2, None), (zipfile.ZIP_BZIP2, 1), (zipfile.ZIP_BZIP2, 9), (zipfile.ZIP_LZMA, None), (zipfile.ZIP_LZMA, 3)]


def strict(txt):
    def bad(x):
        raise ValueError(f"{x} is not valid JSON")

    def pairs(ps):
        ks = [k for k, _ in ps]
        if len(set(ks)) != len(ks):
            raise ValueError(f"repeated keys {sorted({k for k in ks if ks.count(k) > 1})[:3]}")
        return dict(ps)
    return json.loads(txt, parse_constant=bad, object_pairs_hook=pairs)


def is_node(x):
    """a dict whose values for these keys are strings (in the content of a dict with such keys, they are nodes)"""
    return any(isinstance(x.get(k), str) for k in ("__loader__", "__class__", "__module__"))


def nodes_below(state, path=()):
    """(path, dict) of everything in the places where nodes are expected: the root and what names a loader or a class"""
    if isinstance(state, dict):
        if is_node(state) or not path:
            yield path, state
        for k, v in state.items():
            yield from nodes_below(v, path + (k,))
    elif isinstance(state, list):
        for i, v in enumerate(state):
            yield from nodes_below(v, path + (i,))


def malformed(data):
    """the reasons why these bytes are no well-formed archive"""
    import skops
    from skops.io._audit import NODE_TYPE_MAPPING
    from skops.io._protocol import PROTOCOL
    bad = []
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        if z.testzip():
            bad.append(("zip", f"the member {z.testzip()} is damaged"))
    except Exception as ex:
        return [("zip", f"no zip file: {ex}")]
    names = z.namelist()
    if len(set(names)) != len(names):
        bad.append(("repeated", f"repeated members {sorted({n for n in names if names.count(n) > 1})[:3]}"))
    if names.count("schema.json") != 1:
        return bad + [("schema", f"{names.count('schema.json')} schema.json")]
    try:
        s = strict(z.read("schema.json").decode("utf-8"))
    except Exception as ex:
        return bad + [("json", f"schema.json is not valid: {ex}")]
    if not isinstance(s, dict) or s.get("protocol") != PROTOCOL or type(s.get("protocol")) is not int:
        bad.append(("protocol", f"protocol {s.get('protocol')!r}"))
    if s.get("_skops_version") != skops.__version__:
        bad.append(("version", f"version {s.get('_skops_version')!r}"))
    loaders = {l for l, p in NODE_TYPE_MAPPING if p == PROTOCOL}
    used = set()
    for path, n in nodes_below(s):
        at = "/".join(map(str, path))[:120]
        if n.get("__loader__") not in loaders:
            bad.append(("loader", f"loader {n.get('__loader__')!r} at {at}"))
        for k in ("__class__", "__module__"):
            if not isinstance(n.get(k), str) or not n[k]:
                bad.append(("name", f"{k} {n.get(k)!r} at {at}"))
        if type(n.get("__id__")) is not int:
            bad.append(("id", f"id {n.get('__id__')!r} at {at}"))
        if "file" in n:
            if n["file"] not in names:
                bad.append(("missing", f"{n['file']!r} at {at} does not exist"))
            used.add(n["file"])
    extra = set(names) - used - {"schema.json"}
    if extra:
        bad.append(("extra", f"members nobody refers to: {sorted(extra)[:3]}"))
    for n in names:
        if "/" in n or "\\" in n or os.path.isabs(n) or n in (".", "..") or ":" in n or not n:
            bad.append(("flat", f"member name {n!r}"))
    return bad


def canonical(data):
    """the archive with ids and uuids replaced by their order of appearance"""
    z = zipfile.ZipFile(io.BytesIO(data))
    s = json.loads(z.read("schema.json"))
    ids, files = {}, {}

    def go(x):
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                if k == "__id__" and is_node(x):
                    v = ids.setdefault(v, len(ids))
                elif k == "file" and is_node(x):
                    v = files.setdefault(v, len(files))
                else:
                    v = go(v)
                out[k] = v
            return out
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    schema = go(s)
    order = [files.get(n, n) for n in z.namelist()]
    return json.dumps(schema), order, {files.get(n, n): z.read(n) for n in z.namelist() if n != "schema.json"}


def same_contents(a, b):
    """equal bytes, or (long doubles have padding bytes that hold anything) arrays of equal values"""
    if set(a) != set(b):
        return False
    for k in a:
        if a[k] != b[k]:
            try:
                x, y = np.load(io.BytesIO(a[k])), np.load(io.BytesIO(b[k]))
            except Exception:
                return False
            if x.dtype != y.dtype or not padded(x.dtype) or x.flags.f_contiguous != y.flags.f_contiguous or O.diff_obj(x, y):
                return False
    return True


def padded(dt):
    """whether values of the dtype have bytes that mean nothing"""
    if dt.names:
        return dt.itemsize > sum(dt.fields[n][0].itemsize for n in dt.names) or any(padded(dt.fields[n][0]) for n in dt.names)
    if dt.subdtype:
        return padded(dt.subdtype[0])
    return dt.char in "gG"


class Chunked(io.RawIOBase):
    """a file object that only knows write()"""

    def __init__(self):
        self.parts = []

    def writable(self):
        return True

    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


class Writer:
    def __init__(self):
        self.data = bytearray()

    def write(self, b):
        self.data += b


def sinks(obj, root, comp, level, rng):
    """[(label, bytes)] of the same object through different sinks"""
    import skops.io as sio
    kw = {}
    if comp is not None:
        kw = {"compression": comp, "compresslevel": level}
    out = [("dumps", sio.dumps(obj, **kw))]
    p = os.path.join(root, "a b.skops")
    sio.dump(obj, p, **kw)
    out.append(("str", open(p, "rb").read()))
    q = pathlib.Path(root) / "é.zip"
    q.write_bytes(b"x" * 100000)       # something longer was there
    sio.dump(obj, q, **kw)
    out.append(("Path", q.read_bytes()))
    b = io.BytesIO()
    sio.dump(obj, b, **kw)
    out.append(("BytesIO", b.getvalue()))
    with open(p, "wb") as f:
        sio.dump(obj, f, **kw)
        closed = f.closed
    out.append(("file", open(p, "rb").read()))
    if closed:
        out.append(("closed", b""))
    with open(p, "wb", buffering=0) as f:
        sio.dump(obj, f, **kw)
    out.append(("unbuffered file", open(p, "rb").read()))
    c = Chunked()
    sio.dump(obj, c, **kw)
    out.append(("raw", b"".join(c.parts)))
    w = Writer()
    sio.dump(obj, w, **kw)
    out.append(("writer", bytes(w.data)))
    with tempfile.NamedTemporaryFile(dir=root) as f:
        sio.dump(obj, f, **kw)
        f.flush()
        out.append(("temporary file", open(f.name, "rb").read()))
    os.unlink(p)
    os.unlink(q)
    return out


def objects(B, n):
    rng = B.rng
    out = []
    for k, mk in enumerate(O.exotic_makers()):
        try:
            out.append((f"exotic:{k}", mk(rng)))
        except Exception:
            pass
    for i in range(n):
        r = rng.random()
        if r < 0.75:
            out.append((f"value {i}", O.any_value(rng, rng.choice([0, 1, 2, 3]))))
        else:
            out.append((f"supported {i}", O.supported(rng, rng.choice([1, 2, 3]))))
    return out


def estimators(B, n):
    rng = B.rng
    for i in range(n):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                e = zoo.composition(rng)
                e = zoo.fitted(rng, e) or e
            except Exception:
                continue
        yield f"estimator {i}: {str(e)[:80]}", (e[0] if isinstance(e, tuple) else e)


def bounded(B):
    import skops.io as sio
    root = os.path.join(os.getcwd(), "c12")
    os.makedirs(root, exist_ok=True)
    warnings.simplefilter("ignore")
    objs = objects(B, B.n(2500, 30000))
    B.rule("every archive that dump/dumps produce is examined: zip, strict JSON, protocol, version, loader/class/module/id of every node, members and references, flat names")
    n = 0
    for label, obj in objs:
        if B.time_left() < 30:
            break
        try:
            data = sio.dumps(obj)
        except Exception:
            continue
        n += 1
        B.case("wellformed", f"{label} {data.__hash__()}", label)
        for k, w in malformed(data):
            B.fail(f"{k}", f"{w}; {label}: {str(obj)[:150]!r}", {"object": repr(obj)[:500], "label": label})
    for label, obj in boundaries(B):
        boundary_case(B, label, obj, root)
    m = 0
    small = [(l, o) for l, o in objs]
    B.rng.shuffle(small)
    for label, obj in small[:B.n(120, 3000)]:
        if B.time_left() < 20:
            break
        m += sink_case(B, label, obj, root)
    for label, e in estimators(B, B.n(25, 400)):
        if B.time_left() < 5:
            break
        m += sink_case(B, label, e, root)
    B.rule(f"{m} objects through 9 sinks x {len(COMPRESSIONS)} compressions (a sample of 3 each, deflated with each level over all objects): identical up to ids and uuids, and loaded objects equal")


def boundaries(B):
    """strings whose archives are exactly a multiple of a block long, or one byte more or less"""
    import skops.io as sio
    for p in (10, 12, 13, 16, 17, 20) + ((14, 15, 18, 21, 22) if B.thorough else ()):
        for k in (-1, 0, 1):
            n, m = (1 << p) * B.rng.choice([1, 2, 3]) + k, 0
            if n > 1 << 21 and not B.thorough:
                n = (1 << p) + k
            for _ in range(20):
                d = n - len(sio.dumps("x" * m))
                if d == 0:
                    yield f"archive of {n} bytes", "x" * m
                    break
                m = max(0, m + d)


def boundary_case(B, label, obj, root):
    """an archive of exactly that length through every sink, uncompressed"""
    import skops.io as sio
    ref = canonical(sio.dumps(obj))
    for how in range(4):     # the length of the ids can change from call to call
        for sink, data in sinks(obj, root, None, None, B.rng):
            B.case("boundary", f"{label} {sink} {how}", f"{label} {sink}")
            rep = {"label": label, "sink": sink, "length": len(data), "object": f"'x' * {len(obj)}"}
            if sink == "closed":
                B.fail("closed", f"dump closes the file it was given; {label}", rep)
                continue
            want = len(sio.dumps(obj))
            if abs(len(data) - want) > 64:
                B.fail("length", f"{sink} receives {len(data)} bytes, dumps gives {want}; {label}", rep)
                return
            for k, w in malformed(data):
                B.fail(k, f"{w} with {sink}; {label}", rep)
                return
            if not all(same_contents(a, b) if i == 2 else a == b for i, (a, b) in enumerate(zip(ref, canonical(data)))):
                B.fail("boundary", f"the archive differs between dumps and {sink}; {label}", rep)
                return
        if how == 0 and len(obj) > 1 << 18:
            break


def sink_case(B, label, obj, root):
    import skops.io as sio
    try:
        base = sio.dumps(obj)
    except Exception:
        return 0
    ref = canonical(base)
    try:
        U = sio.get_untrusted_types(data=base)
        loaded = sio.loads(base, trusted=U)
        ok = True
    except Exception as ex:
        ok, loaded = False, type(ex)
    for comp, level in B.rng.sample(COMPRESSIONS, 3):
        for sink, data in sinks(obj, root, comp, level, B.rng):
            B.case("sink", f"{label} {sink} {comp} {level}", f"{label} {sink} {comp}/{level}")
            rep = {"label": label, "sink": sink, "compression": comp, "level": level}
            if sink == "closed":
                B.fail("closed", f"dump closes the file it was given; {label}", rep)
                continue
            for k, w in malformed(data):
                B.fail(k, f"{w} with {sink}, compression {comp}/{level}; {label}", rep)
                return 1
            got = canonical(data)
            for part, a, b in zip(("schema", "order of members", "contents"), ref, got):
                if not (same_contents(a, b) if part == "contents" else a == b):
                    B.fail("sink-" + part, f"{part} differs between dumps and {sink} with compression {comp}/{level}; {label}: {str(a)[:150]} / {str(b)[:150]}", rep)
                    break
            if comp is not None and len(base) > 0:
                z = zipfile.ZipFile(io.BytesIO(data))
                if any(i.compress_type != comp for i in z.infolist()):
                    B.fail("compression", f"members are not compressed by the requested method {comp}; {label}", rep)
        try:
            again = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
            d = O.diff_obj(loaded, again, layout=False) if ok else "loads now"
            if d:
                B.fail("load", f"the object loaded from another compression differs: {d}; {label}", rep)
        except Exception as ex:
            if ok:
                B.fail("load", f"loads raises {type(ex).__name__} for compression {comp}; {label}", rep)
    return 1
