"""C16 `skops update` upgrades old archives without ever endangering the original."""
from __future__ import annotations
import io, itertools, json, os, shutil, signal, sys, tempfile, time, warnings, zipfile
from contracts.cliproof import *
from contracts import archives as A, corpus, objects as O
from contracts.c08 import downgrade, same, has
from contracts.io_common import snapshot, diff

LEVEL = "proof"
NOTE = ("_update_file and main under contract on all paths including every failing file operation (ghost trace of file operations); that os.replace of a file in the same directory is atomic is trusted; "
        "equality of the updated object, real crash points and process-level effects are bounded")
TRUSTED = ["os.replace within one directory is atomic", "tempfile.TemporaryDirectory creates a new directory and removes it on exit", "dump writes only to the path it is given (C18)",
           "load/get_untrusted_types only read (C02)"]
ASSUMPTIONS = ["the destination given by -o is another file than the input (with -o naming the input itself, leaving it untouched or completely rewriting it are both accepted)"]
EXPLANATION = ("On every path of _update_file - input as str or path, output given or not, inplace or not, any protocol number, every load/dump/file operation failing or not - the trace of file operations "
               "holds nothing but the creation of a temporary directory beside the destination, one dump of the loaded object into it, at most one replacement of the destination by that complete file, and the "
               "removal of the temporary directory; the replacement happens exactly if the archive is older and one destination is given. Hence at every point of the execution the destination holds its previous "
               "content or the complete archive. Bounded: real runs through main_cli over archives x outputs x flags, processes killed before every file operation, injected errors, full disk.")
BUDGET = {"quick": 150, "thorough": 900}


def prove(P):
    for inp in ("path", "str"):
        for given in (True, False):
            for inplace in (True, False):
                P.unit(f"_update_file {inp} output={given} inplace={inplace}", "_update._update_file", u_update(inp, given, inplace))
    P.unit("update main", "_update.main", u_update_main)


def guards(P):
    import skops.cli._update as up

    def direct(input_file, output_file=None, inplace=False, logger=None):
        m = up.load(input_file, trusted=up.get_untrusted_types(file=input_file))
        up.dump(m, output_file)

    def g(eng):
        st = init_state(eng)
        setup_io(eng, st, up)
        for s, v in eng.call_closure(st.fork(), eng.closure_of(direct), [SVal(z3.Const("i", V), ("path", None)), SVal(z3.Const("o", V), ("path", None))], {}):
            eng.oblige_bool("guard: written directly", all(tmp_root(a[0]) is not None for k, a in ops_of(eng, s) if k in ("dump", "partial")))
    P.unit("guard: destination written directly", "guard", g)


# ------------------------------------------------------------------ bounded
def cli(args):
    from skops.cli.entrypoint import main_cli
    main_cli(["update"] + args)


def child(f, timeout=60):
    """runs f in a forked process: exit code or 'signal n' / 'timeout'"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(0)
            f()
            rc = 0
        except SystemExit as ex:
            rc = 71
        except BaseException:
            rc = 72
        finally:
            os._exit(rc)
    t = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.time() - t > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "timeout"
        time.sleep(0.001)


def archives(B):
    """(label, object, bytes, protocol)"""
    cur = A.current()
    d = A.data("corpus_orig")
    keys = [k for k in d if k not in ("gen", "genMT", "genS", "genP")]
    pick = ["logreg_fit", "pipe", "nested", "rstate", "csr", "func"] + B.rng.sample(keys, B.n(5, len(keys)))
    for k in dict.fromkeys(pick):
        if k not in d:
            continue
        t = d[k]
        for p in range(cur + 2):
            st = downgrade(t["state"], p)
            yield f"{k} protocol {p}", corpus.make(k), A.pack(st, A.mem(t["members"]), p), p
    # untrusted types inside
    yield "untrusted protocol 0", None, A.pack(A.L(A.OB("contracts.objects", "Plain", A.D(a=A.J(1))), A.TY("os", "getcwd" if False else "PathLike")), {}, 0), 0


def ready(root, data):
    """a fresh scratch tree with the input and other files"""
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(os.path.join(root, "w", "sub", "deep"))
    os.makedirs(os.path.join(root, "tmp"))
    os.makedirs(os.path.join(root, "else where"))
    w = os.path.join(root, "w")
    with open(os.path.join(w, "in.skops"), "wb") as f:
        f.write(data)
    with open(os.path.join(w, "sub", "in.v1.skops"), "wb") as f:
        f.write(data)
    with open(os.path.join(w, "old.skops"), "wb") as f:
        f.write(b"previous content of the destination" * 10)
    with open(os.path.join(w, "sub", "old"), "wb") as f:
        f.write(b"")
    os.chdir(w)
    tempfile.tempdir = os.path.join(root, "tmp")
    os.environ["TMPDIR"] = os.path.join(root, "tmp")


def outputs(root):
    return [None, "new.skops", "old.skops", "sub/new.skops", "sub/deep/n.skops", "./new.skops", "sub/../x.skops", os.path.join(root, "w", "abs.skops"), os.path.join(root, "else where", "ab s.skops"),
            "../else where/n\u00e9w", "sub/old", "noext", ".hidden", "sub/in.skops"]


def loads_equal(path, obj, proto):
    import skops.io as sio
    try:
        with zipfile.ZipFile(path) as z:
            sch = json.loads(z.read("schema.json"))
        if sch["protocol"] != A.current():
            return f"has protocol {sch['protocol']}"
        got = sio.load(path, trusted=sio.get_untrusted_types(file=path))
    except Exception as ex:
        return f"does not load: {ex!r}"
    if obj is None:
        return None
    d = same(obj, got, proto < 2)
    return f"loads to something else: {d}" if d else None


def judge(B, what, before, after, dest_rel, out, obj, proto, should, data, rep, finished=True):
    """the files may differ in the destination only"""
    df = diff(before, after)
    df = {k: v for k, v in df.items() if not (before.get(k, ("",))[0] == "dir" and after.get(k, ("",))[0] == "dir")}
    extra = {k: v for k, v in df.items() if k != dest_rel}
    if finished:
        B.check(not extra, "files", lambda: f"{what}: {extra}", rep)
    else:
        # a killed process may leave a temporary file, nothing else
        bad = {k: v for k, v in extra.items() if v != "created"}
        B.check(not bad, "files", lambda: f"{what}: {bad}", rep)


def bounded(B):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    home = os.getcwd()
    root = os.path.join(home, "u")
    os.makedirs(root, exist_ok=True)
    cur = A.current()
    B.rule("main_cli(['update', ...]) on archives of every protocol 0..current+1 (written by the original tree, relabelled) x 14 outputs (none, new, existing, nested, absolute, other directory, relative with .., without "
           "suffix) x --inplace x input as relative/nested/absolute path; all files of the scratch tree (including TMPDIR) compared before and after, the destination loaded and compared")
    for k, (lab, obj, data, p) in enumerate(archives(B)):
        ready(root, data)
        outs = outputs(root)
        combos = [(o, i) for o in outs for i in (False, True)]
        if not B.thorough and k > 3:
            combos = [(None, True), (None, False)] + B.rng.sample(combos, 5)
        for out, inplace in combos:
            inp = B.rng.choice(["in.skops", "sub/in.v1.skops", os.path.join(root, "w", "in.skops"), "./in.skops"])
            ready(root, data)
            before = snapshot(root)
            args = [inp] + (["-o" if B.rng.random() < 0.5 else "--output-file", out] if out else []) + (["--inplace"] if inplace else []) + B.rng.choice([[], ["-v"], ["-vv"]])
            rep = {"archive": lab, "args": args}
            both = bool(out) and inplace
            err = None
            try:
                cli(args)
            except SystemExit as ex:
                err = ex
            except Exception as ex:
                err = ex
            B.case("cli", f"{lab}{args}", f"{lab}: update {' '.join(args)}")
            dest = out if out else inp if inplace else None
            drel = os.path.relpath(os.path.join(root, "w", dest), root) if dest else None
            if drel:
                drel = os.path.normpath(drel)
            after = snapshot(root)
            what = f"update {' '.join(args)} of {lab}"
            should = p < cur and dest and not both
            if both:
                B.check(err is not None, "both", f"{what}: output and --inplace together are accepted", rep)
            if not should:
                df = diff(before, after)
                B.check(not df, "untouched", lambda: f"{what}: {df}", rep)
                if p <= cur and not both:
                    B.check(err is None, "error", f"{what}: raises {err!r}", rep)
                continue
            B.check(err is None, "error", f"{what}: raises {err!r}", rep)
            judge(B, what, before, after, drel, out, obj, p, should, data, rep)
            w = loads_equal(os.path.join(root, drel), obj, p) if os.path.isfile(os.path.join(root, drel)) else "does not exist"
            B.check(not w, "result", lambda: f"{what}: the destination {w}", rep)
    # failures and crashes
    B.rule("the process is killed (also when the directories are different file systems), or OSError/KeyboardInterrupt raised, before each of its file operations (write, flush, close, replace, ...), and the disk is full: the destination holds its complete previous content "
           "or the complete archive, the input is unaltered, and no temporary file remains unless the process was killed")
    t = A.data("corpus_orig")
    big = A.pack(A.L(*[downgrade(t["logreg_fit"]["state"], 1)] * 1, A.J("x" * 300000)), A.mem(t["logreg_fit"]["members"]), 1)
    small = A.pack(downgrade(t["nested"]["state"], 0), A.mem(t["nested"]["members"]), 0)
    for lab, data, p in (("big", big, 1), ("small", small, 0)):
        for args, dest in ((["in.skops", "-o", "old.skops"], "old.skops"), (["in.skops", "--inplace"], "in.skops"), (["in.skops", "-o", "sub/new.skops"], "sub/new.skops")):
            for mode in ("kill", "killx", "oserror", "interrupt", "fsize"):
                k = 0
                while k < 400 and B.time_left() > 5:
                    ready(root, data)
                    prev = os.path.exists(dest) and open(dest, "rb").read()
                    before = snapshot(root)
                    if mode == "fsize":
                        limit = (0, 100, 1000, 4096, 20000)[k] if k < 5 else None
                        if limit is None:
                            break

                        def run(limit=limit):
                            import resource
                            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                            cli(args)
                    else:
                        def run(k=k, mode=mode):
                            if mode == "killx":
                                mounts(root)
                                mode = "kill"
                            faulty(k, mode)
                            cli(args)
                            os._exit(42)
                    rc = child(run)
                    after = snapshot(root)
                    rep = {"archive": lab, "args": args, "fault": mode, "point": k}
                    what = f"update {' '.join(args)} of {lab}, {mode} at {k}"
                    B.case("faults", f"{lab}{args}{mode}{k}", what)
                    judge(B, what, before, after, os.path.normpath(os.path.join("w", dest)), dest, None, p, True, data, rep, finished="kill" not in mode and rc != 73)
                    now = os.path.exists(dest) and open(dest, "rb").read()
                    if now != prev:
                        w = "is gone" if now is False else loads_equal(dest, None, p)
                        B.check(not w, "partial", lambda: f"{what}: the destination {w} ({len(now or b'')} bytes)", rep)
                    if rc == 42 or mode == "fsize" and rc == 0:
                        B.check(now != prev, "result", f"{what}: nothing was written", rep)
                        break
                    if not B.thorough and k > 60:
                        k += 7
                    k += 1
    os.chdir(home)
    logging.disable(logging.NOTSET)


def mounts(root):
    """stand-in: the directories below root are different file systems"""
    def dev(p):
        return os.path.relpath(os.path.realpath(os.fspath(p)), os.path.realpath(root)).split(os.sep)[0]
    for n in ("rename", "replace", "link"):
        def f(a, b, *r, _o=getattr(os, n), **k):
            if dev(a) != dev(b):
                raise OSError(18, "Invalid cross-device link")
            return _o(a, b, *r, **k)
        setattr(os, n, f)


OPS = {"write", "writelines", "flush", "close", "replace", "rename", "open", "truncate", "unlink", "remove", "rmdir", "mkdir", "fsync", "sendfile", "copy_file_range", "link", "symlink", "chmod", "utime"}
CLEAN = {"unlink", "remove", "rmdir", "close", "scandir", "flush"}


def faulty(k, mode):
    """the k-th file operation of this process (after the archive was read) fails"""
    n = [0]

    def prof(frame, ev, arg):
        if ev != "c_call" or getattr(arg, "__name__", "") not in OPS:
            return
        f = frame
        while f and "skops" not in f.f_code.co_filename and "zipfile" not in f.f_code.co_filename and "tempfile" not in f.f_code.co_filename and "shutil" not in f.f_code.co_filename:
            f = f.f_back
        if not f:
            return
        g = frame
        while mode != "kill" and g:
            # (removing the temporary files cannot succeed when it fails itself)
            if "rmtree" in g.f_code.co_name or g.f_code.co_name == "cleanup" or arg.__name__ in CLEAN:
                return
            g = g.f_back
        n[0] += 1
        if n[0] == k + 1:
            if mode == "kill":
                os._exit(9)
            sys.setprofile(None)
            raise OSError(28, "No space left on device") if mode == "oserror" else KeyboardInterrupt()
    sys.setprofile(prof)
