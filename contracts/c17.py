"""C17 `skops convert` produces an equivalent, auditable archive."""
from __future__ import annotations
import io, json, os, pickle, re, shutil, sys, warnings, zipfile
from contracts.cliproof import *
from contracts import archives as A, corpus, objects as O
from contracts.io_common import snapshot, diff

LEVEL = "proof"
NOTE = "_convert_file and main under contract on all paths (ghost trace of file operations and of the log); equality of the loaded object is C04's and evaluated here on real pickles (bounded)"
TRUSTED = ["pickle.load returns the object that was pickled and writes nothing", "logging delivers the messages", "pathlib: stem of a path, join"]
ASSUMPTIONS = ["dumps/loads give an equal object or raise (C04)", "failures of the operating system while the finished archive is written are outside: the property speaks of objects that cannot be persisted"]
EXPLANATION = ("On every path of _convert_file the output file is opened only after dumps has succeeded for the object unpickled from the input, and receives exactly its bytes in one write; a path that raises touches no file; "
               "a warning whose text contains the joined names is logged exactly if get_untrusted_types of these bytes is not empty. main passes the given output on, or <cwd>/<stem>.skops. Bounded: real runs of main_cli.")
BUDGET = {"quick": 120, "thorough": 900}


def prove(P):
    P.unit("_convert_file", "_convert._convert_file", u_convert)
    P.unit("convert main", "_convert.main", u_convert_main)


def guards(P):
    import skops.cli._convert as cv

    def early(input_file, output_file):
        with open(output_file, "wb") as f:
            f.write(cv.dumps(1))

    def g(eng):
        st = init_state(eng)
        setup_io(eng, st, cv)
        eng.fs_may_raise = False
        for s, v in eng.call_closure(st.fork(), eng.closure_of(early), [SVal(z3.Const("i", V), ("path", None)), SVal(z3.Const("o", V), ("path", None))], {}):
            if isinstance(v, Raise):
                eng.oblige_bool("guard: opened before dumps", not ops_of(eng, s))
    P.unit("guard: output opened before dumps", "guard", g)


# ------------------------------------------------------------------ bounded
class Unpersistable:
    def __getstate__(self):
        from contracts import c17
        if getattr(c17, "PICKLING", False):
            return {"a": 1}
        raise ValueError("no state")


PICKLING = False


def objects_(B):
    import collections, datetime, decimal, fractions, logging, threading, uuid
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import GridSearchCV
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    for k in corpus.KEYS:
        yield f"corpus {k}", corpus.make(k)
    for i in range(B.n(150, 1500)):
        yield f"generated {i}", O.any_value(B.rng, 3)
    for i in range(B.n(150, 1500)):
        yield f"supported {i}", O.supported(B.rng, 3)
    p = O.Plain()
    p.a = [1]
    yield "one untrusted", p
    yield "nested untrusted", {"k": [(p, 1), {"x": O.Plain()}]}
    yield "untrusted type", [os.PathLike, O.Plain]
    many = [datetime.date, datetime.timezone, decimal.Decimal, fractions.Fraction, uuid.UUID, pathlib.PurePosixPath, os.PathLike, O.Plain, O.MyList, O.MyDict, O.Outer, O.Colour, O.Slots, O.ListState, O.TupleState, O.MyInt, O.Outer.Inner,
            collections.Counter, collections.UserDict, collections.ChainMap, logging.Logger, threading.Event]
    for n in (5, 9, 11, 15, len(many)):
        yield f"{n} untrusted types", many[:n]
        yield f"{n} untrusted types, other order", many[::-1][:n]
    yield "search", GridSearchCV(LogisticRegression(), {"C": [1, 2]}, cv=2).fit([[0], [1], [2], [3]], [0, 1, 0, 1])
    yield "unfitted search", GridSearchCV(LogisticRegression(), {"C": [1, 2]})
    yield "pipeline", make_pipeline(StandardScaler(), LogisticRegression()).fit([[0], [1], [2], [3]], [0, 1, 0, 1])
    yield "forest", RandomForestClassifier(2, random_state=0).fit([[0], [1], [2], [3]], [0, 1, 0, 1])
    for n in (1, 2, 3):
        yield f"unpersistable {n}", [1, {"a": (Unpersistable(),) * n}]


def bounded(B):
    global PICKLING
    import logging
    import skops.io as sio
    from contracts import c17
    warnings.simplefilter("ignore")
    home = os.getcwd()
    root = os.path.join(home, "c")
    rec = []

    class H(logging.Handler):
        def emit(self, r):
            rec.append((r.levelno, r.getMessage()))
    h = H(level=0)
    lg = logging.getLogger()
    lg.addHandler(h)
    B.rule("main_cli(['convert', ...]) on pickles (all protocols) of the corpus, of generated objects and of objects that cannot be persisted x outputs (default, relative, nested, absolute, existing) x names of the input "
           "(several dots, none, spaces, unicode, hidden, other directory); files before and after, warnings, and the loaded object are compared")
    names = ["model.pkl", "model.v1.2.pkl", "noext", "sp ace.pickle", "\u00fc.pkl", ".hidden", "sub/in.pkl", "sub/deep/a.b.c", "../out/x.pkl", "model.skops", "a.skops.pkl", "abs", "model.pkl.gz.bak", "x..pkl"]
    outs = [None, None, "out.skops", "sub/o.skops", "old.skops", "./o", "../out/ab s.skops", "ABS/o.skops", "noext2", "\u00fc.out"]
    try:
        for i, (lab, obj) in enumerate(objects_(B)):
            try:
                c17.PICKLING = True
                data = pickle.dumps(obj, protocol=B.rng.choice([2, 3, 4, 5]))
                back = pickle.loads(data)
            except Exception:
                continue
            finally:
                c17.PICKLING = False
            for rep_ in range(1 if not B.thorough else 3):
                if os.path.isdir(root):
                    shutil.rmtree(root)
                w = os.path.join(root, "w")
                os.makedirs(os.path.join(w, "sub", "deep"))
                os.makedirs(os.path.join(root, "out"))
                os.chdir(w)
                name = B.rng.choice(names)
                inp = os.path.join(w, "in.abs.pkl") if name == "abs" else name
                out = B.rng.choice(outs)
                if out and out.startswith("ABS"):
                    out = os.path.join(root, "out", "o.skops")
                with open(inp, "wb") as f:
                    f.write(data)
                for old in ("old.skops", "in.abs.skops", "x.skops", "out.skops", "model.skops", "model.v1.2.skops"):
                    if B.rng.random() < 0.7 and not os.path.exists(old):
                        with open(old, "wb") as f:
                            f.write(b"previous" * B.rng.choice([9, 40000]))
                args = [inp] + (["-o", out] if out else []) + B.rng.choice([[], [], ["-v"], ["-vv"]])
                stem = os.path.basename(inp)
                if "." in stem[1:]:
                    # pathlib's stem
                    k = stem.rindex(".")
                    stem = stem[:k] if 0 < k < len(stem) - 1 else stem
                dest = os.path.normpath(os.path.join("w", out if out else stem + ".skops")) if not (out and os.path.isabs(out)) else os.path.relpath(out, root)
                if os.path.normpath(os.path.join(root, dest)) == os.path.normpath(os.path.join(w, inp)):
                    continue
                rep = {"object": lab, "args": args, "pickle": data[:2000].hex()}
                before = snapshot(root)
                rec.clear()
                err = None
                from skops.cli.entrypoint import main_cli
                try:
                    main_cli(["convert"] + args)
                except BaseException as ex:
                    if isinstance(ex, (KeyboardInterrupt, MemoryError, TimeoutError)):
                        raise
                    err = ex
                after = snapshot(root)
                df = {k: v for k, v in diff(before, after).items() if before.get(k, ("",))[0] != "dir" and after.get(k, ("",))[0] != "dir"}
                what = f"convert {' '.join(args)} of {lab}"
                try:
                    want = sio.dumps(back)
                except Exception as ex:
                    want = None
                B.case("convert", f"{lab}{args}", what)
                if want is None:
                    B.check(err is not None, "accepted", f"{what}: succeeds although dumps raises", rep)
                    B.check(not df, "failed", lambda: f"{what}: the object cannot be persisted, files: {df}", rep)
                    continue
                if err is not None:
                    B.fail("error", f"{what}: raises {err!r}", rep)
                    continue
                B.check(set(df) == {dest} or not df and False, "files", lambda: f"{what}: changed {df}, expected only {dest}", rep)
                if dest not in after:
                    continue
                got = after[dest][1]
                try:
                    U = sio.get_untrusted_types(data=got)
                except Exception as ex:
                    B.fail("archive", f"{what}: the output is no archive: {ex!r}", rep)
                    continue
                warned = [m for l, m in rec if l >= logging.WARNING]
                B.check(len(warned) == bool(U), "warning", lambda: f"{what}: {len(warned)} warnings for the untrusted types {U}", rep)
                for u in U:
                    B.check(bool(warned) and re.search(r"(?<![\w.])" + re.escape(u) + r"(?!\w|\.\w)", warned[0]) is not None, "listed", lambda: f"{what}: the warning {warned} does not list {u}", rep)
                with zipfile.ZipFile(io.BytesIO(got)) as z:
                    first = min(x.header_offset for x in z.infolist())
                B.check(first == 0, "prefix", lambda: f"{what}: the archive is preceded by {got[:first][:80]!r}", rep)
                try:
                    r = sio.loads(got, trusted=U)
                except Exception:
                    try:
                        sio.loads(want, trusted=U)
                    except Exception:
                        continue
                    B.fail("load", f"{what}: the output does not load", rep)
                    continue
                d = O.diff_obj(back, r, layout=False)
                B.check(not d, "equal", lambda: f"{what}: the loaded object differs: {d}", rep)
            if B.time_left() < 5:
                break
        # inputs that cannot be converted at all
        os.chdir(w)
        for bad, content in (("broken.pkl", b"not a pickle"), ("empty.pkl", b""), ("missing.pkl", None), ("cut.pkl", pickle.dumps(list(range(1000)))[:500])):
            for out in (None, "old.skops", "fresh.skops"):
                if content is not None:
                    with open(bad, "wb") as f:
                        f.write(content)
                with open("old.skops", "wb") as f:
                    f.write(b"previous")
                before = snapshot(root)
                err = None
                try:
                    main_cli(["convert", bad] + (["-o", out] if out else []))
                except BaseException as ex:
                    err = ex
                df = diff(before, snapshot(root))
                B.case("bad input", f"{bad}{out}")
                B.check(err is not None and not df, "bad-input", lambda: f"convert {bad} -o {out}: {err!r}, files {df}", {"input": bad, "output": out})
    finally:
        lg.removeHandler(h)
        os.chdir(home)
