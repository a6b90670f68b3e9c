"""C20 Calls are independent of history and of concurrent calls."""
from __future__ import annotations
import copy, hashlib, io, json, os, random, re, shutil, sys, tempfile, threading, time, warnings, zipfile
import numpy as np
from contracts import archives as A, objects as O, zoo
from contracts import frames as FR
from contracts.c12 import canonical, padded

LEVEL = "proof"
NOTE = ('frame conditions of all units of the other properties (dump, load, audit, visualize, card, markdown): nothing that outlives a call is written, and contexts, cards, sections and parsers share no container; threads: follows for code that shares nothing (on paper), evaluated on one-preemption schedules and free-running threads; library internals (sklearn, numpy) trusted and bounded')
BUDGET = {"quick": 75, "thorough": 800}
TRUSTED = ['library code called by skops (sklearn, numpy, scipy, json, zipfile, rich, jinja) depends only on its arguments']
ASSUMPTIONS = ['what is not under contract in the other properties has no frame obligation', 'caches of pure functions would be refused by the frame condition']
EXPLANATION = ('proved: frame condition of every function under contract; two cards/sections/parsers/contexts share no container and start empty; bounded: results of first calls in fresh processes against results after generated histories, one-preemption schedules and free-running threads.')


def prove(P):
    FR.prove(P)


def guards(G):
    FR.guards(G)

# ------------------------------------------------------------------ the calls, by label
class Out(io.TextIOBase):
    """stdout of each thread"""

    def __init__(self, real):
        self.real, self.local = real, threading.local()

    def write(self, s):
        b = getattr(self.local, "b", None)
        if b is None:
            return self.real.write(s)
        b.append(s)
        return len(s)

    def flush(self):
        pass

    def take(self, fn):
        self.local.b = []
        try:
            fn()
            return "".join(self.local.b)
        finally:
            self.local.b = None


def norm(txt):
    txt = re.sub(r"0x[0-9a-f]+", "0x", str(txt))
    txt = re.sub(r"sk-container-id-\d+", "sk-container-id", txt)
    txt = re.sub(r"sk-estimator-id-\d+", "sk-estimator-id", txt)
    txt = re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "uuid", txt)
    return re.sub(r"\b\d{9,}\.(npy|npz|bin)", r"id.\1", txt)


def archive_text(data):
    schema, order, contents = canonical(data)
    return schema + str(order) + str(sorted((str(k), content_key(v)) for k, v in contents.items()))


def content_key(b):
    """the bytes, without those of long doubles and structures that mean nothing"""
    if b[:6] == b"\x93NUMPY":
        a = np.load(io.BytesIO(b))
        if padded(a.dtype):
            return f"{a.dtype.str} {a.shape} {a.flags.f_contiguous} {[repr(x) for x in a.flat]}"
    return hashlib.sha1(b).hexdigest()


class World:
    """what the calls work on; built before any call of the library"""

    def __init__(self, rng, n_obj, n_est):
        self.objs, self.kinds, self.files = [], [], {}
        for i in range(n_obj):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.objs.append(self.value(rng))
                self.kinds.append("value")
        for i in range(n_est):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    e = zoo.composition(rng)
                    f = zoo.fitted(rng, e)
                    self.objs.append(f[1] if isinstance(f, tuple) else e)
                    self.kinds.append("estimator")
                except Exception:
                    pass
        self.ests = [i for i, k in enumerate(self.kinds) if k == "estimator"]
        self.data = {}
        self.docs = []
        for i in range(6):
            from contracts.c15 import Gen
            g = Gen(random.Random(rng.random()))
            bl = [g.header(1)]
            for _ in range(rng.randint(2, 8)):
                bl.append(g.header(rng.randint(1, 4)) if rng.random() < 0.4 else (g.block(2), None))
            self.docs.append(json.dumps({"pandoc-api-version": [1, 23], "meta": {}, "blocks": [b for b, _ in bl]}))

    @staticmethod
    def value(rng):
        r = rng.random()
        if r < 0.25:
            return [O.supported(rng, 2) for _ in range(rng.randint(1, 4))]
        if r < 0.4:
            return {f"k{i}": O.supported(rng, 2) for i in range(rng.randint(1, 4))}
        if r < 0.8:
            return O.any_value(rng, 2)
        return O.supported(rng, 2)


def guard(fn):
    try:
        return norm(fn())
    except RecursionError as ex:
        return "RecursionError"
    except Exception as ex:
        return norm(f"raises {type(ex).__name__}: {ex}")[:3000]


def trust(W, how, untrusted):
    if how == "all":
        return list(untrusted)
    if how == "none":
        return None
    return [t for t in untrusted if hash_text(t) % 2]


def hash_text(t):
    return sum(map(ord, t)) * 2654435761 % 2**32 >> 7


def call(W, label, out, root):
    """the text of the result of one call"""
    import skops.io as sio
    kind, i, how = label
    if kind == "dumps":
        if how == "path":
            p = os.path.join(root, f"{threading.get_ident()}.skops")

            def viapath():
                sio.dump(W.objs[i], p)
                return archive_text(open(p, "rb").read())
            return guard(viapath)
        return guard(lambda: archive_text(sio.dumps(W.objs[i])))
    if kind == "bytes":
        try:
            return sio.dumps(W.objs[i])
        except Exception:
            return None
    if kind in ("loads", "untrusted", "visualize"):
        data = W.data[i]
        if kind == "untrusted":
            return guard(lambda: sio.get_untrusted_types(data=data))
        if kind == "visualize":
            return guard(lambda: out.take(lambda: sio.visualize(data, show=how.split(",")[0], trusted=None if how.endswith("none") else list(U_of(W, i)))))
        t = trust(W, how, U_of(W, i))
        keep = None if t is None else list(t)

        def load():
            o = sio.loads(data, trusted=t)
            return fingerprint(o)
        r = guard(load)
        return r + ("" if t == keep else f" and trusted became {t}")
    if kind == "doc":
        from skops.card._parser import PandocParser

        def parse():
            c = PandocParser(W.docs[i]).generate()
            return c.render() + repr(c)
        return guard(parse)
    if kind == "card":
        return guard(lambda: card_text(W, random.Random(i * 7919 + 1), int(how), root))
    raise ValueError(kind)


def U_of(W, i):
    return W.files.get(i, [])


def fingerprint(o):
    import skops.io as sio
    try:
        t = archive_text(sio.dumps(o))
    except Exception as ex:
        t = f"{type(ex).__name__}"
    return f"{type(o).__module__}.{type(o).__qualname__} {t}"


TABLE = {"a": [1, 2], "b": ["x", "y"]}
SECTIONS = {"Top": "hello", "Top/Sub": "[CONTENT]", "Else": "x"}
SHARED_META = {}


def card_steps(W, rng, n):
    """a card and the steps on it, one at a time, each a text"""
    from skops.card import Card
    from skops.card._model_card import Templates
    e = W.objs[rng.choice(W.ests)] if W.ests else None
    tpl = rng.choice(["skops", "skops", "hub", None, SECTIONS])
    kw = {"model_diagram": rng.choice(["auto", True, False])}
    if rng.random() < 0.3:
        kw["trusted"] = True
    card = Card(e, template=tpl, **kw)
    names = ["Model description", "Intended uses & limitations", "Top", "Top/Sub", "New", "New/A/B", "Metrics", "Hyperparameters", "Citation"]
    for j in range(n):
        r = rng.randint(0, 12)
        name = rng.choice(names)
        txt = f"text {rng.randint(0, 99)}"

        def step():
            if r == 0:
                return repr(card.add(**{name: txt}))
            if r == 1:
                return repr(card.add_metrics(**{rng.choice("abc"): rng.random()}))
            if r == 2:
                return repr(card.add_metrics(section=name, description=txt, **{rng.choice("xyz"): rng.randint(0, 9)}))
            if r == 3:
                return repr(card.add_hyperparams(section=name))
            if r == 4:
                return repr(card.add_model_plot(section=name))
            if r == 5:
                return repr(card.add_table(**{name: TABLE}))
            if r == 6:
                return repr(card.add_plot(**{name: "fig.png"}))
            if r == 7:
                return repr(card.delete(name))
            if r == 8:
                return card.get_toc()
            if r == 9:
                return repr(card.select(name))
            if r == 10:
                card.select(name).content = txt
                return ""
            if r == 11:
                return card.render()
            return repr(card)
        try:
            yield norm(step())
        except Exception as ex:
            yield norm(f"raises {type(ex).__name__}: {ex}")
    yield norm(card.render())
    yield norm(str(vars(card.get_model() if e is not None and hasattr(e, "__dict__") else card).keys()))


def card_text(W, rng, n, root):
    return "\n--\n".join(card_steps(W, rng, n))


def labels(W, rng):
    out = []
    for i in range(len(W.objs)):
        out += [("dumps", i, rng.choice(["bytes", "path"]))]
    for i in W.data:
        out += [("loads", i, "all"), ("untrusted", i, "")]
        if rng.random() < 0.5:
            out += [("loads", i, rng.choice(["none", "some"]))]
        if rng.random() < 0.5:
            out += [("visualize", i, rng.choice(["all", "untrusted", "trusted"]) + rng.choice([",none", ",all"]))]
    for i in range(len(W.docs)):
        out += [("doc", i, "")]
    for i in range(24):
        out += [("card", i, str(rng.choice([2, 4, 8])))]
    return out


# ------------------------------------------------------------------ perturbations whose results have known labels
def perturb(W, rng, ref, root, out, bad):
    """multi-call scripts on the same live object, file or list; the expected results are those of the fresh processes"""
    import skops.io as sio
    r = rng.randint(0, 6)
    if r == 0:      # the same list object with other contents
        ks = [i for i, o in enumerate(W.objs) if type(o) is list and ("dumps", i, "bytes") in ref]
        if len(ks) > 1:
            a, b = rng.sample(ks, 2)
            l = list(W.objs[a])
            guard(lambda: sio.dumps(l))
            l[:] = W.objs[b]
            bad.append(("the same list with other items", ("dumps", b, "bytes"), guard(lambda: archive_text(sio.dumps(l)))))
    elif r == 1:    # the same dict object with other contents
        ks = [i for i, o in enumerate(W.objs) if type(o) is dict and ("dumps", i, "bytes") in ref]
        if len(ks) > 1:
            a, b = rng.sample(ks, 2)
            d = dict(W.objs[a])
            guard(lambda: sio.dumps(d))
            d.clear()
            d.update(W.objs[b])
            bad.append(("the same dict with other items", ("dumps", b, "bytes"), guard(lambda: archive_text(sio.dumps(d)))))
    elif r in (2, 3):    # the same path with another archive
        ks = list(W.data)
        a, b = rng.sample(ks, 2)
        p = os.path.join(root, f"same{threading.get_ident()}.skops")
        size = max(len(W.data[a]), len(W.data[b])) + 1
        for k in (a, b):
            with open(p, "wb") as f:
                f.write(W.data[k])
            if size - len(W.data[k]) < 60000:
                # the same size
                with zipfile.ZipFile(p, "a") as z:
                    z.comment = b"x" * (size - len(W.data[k]))
            os.utime(p, (1, 1))
            if r == 2:
                guard(lambda: sio.load(p, trusted=list(U_of(W, k))))
            else:
                guard(lambda: sio.get_untrusted_types(file=p))
        bad.append(("the same path with another archive", ("loads", b, "all"), guard(lambda: fingerprint(sio.load(p, trusted=list(U_of(W, b)))))))
        bad.append(("the same path with another archive", ("untrusted", b, ""), guard(lambda: sio.get_untrusted_types(file=p))))
        bad.append(("the same path with another archive", ("visualize", b, "all,none"), guard(lambda: out.take(lambda: sio.visualize(p)))))
    elif r == 4:    # the loaded object is changed, then loaded again
        k = rng.choice(list(W.data))

        def twice():
            o = sio.loads(W.data[k], trusted=list(U_of(W, k)))
            spoil(o)
            return fingerprint(sio.loads(W.data[k], trusted=list(U_of(W, k))))
        bad.append(("a second load after the first object was changed", ("loads", k, "all"), guard(twice)))
    elif r == 5:    # one trusted list for several archives
        ks = rng.sample(list(W.data), 2)
        t = list(U_of(W, ks[1]))
        guard(lambda: sio.loads(W.data[ks[0]], trusted=t))
        guard(lambda: sio.loads(W.data[ks[0]], trusted=list(U_of(W, ks[0]))))
        bad.append(("one trusted list for two archives", ("loads", ks[1], "all"), guard(lambda: fingerprint(sio.loads(W.data[ks[1]], trusted=t)))))
    else:           # two cards step by step
        i, j = rng.sample(range(24), 2)
        steps = {k: next((l for l in ref if l[0] == "card" and l[1] == k), None) for k in (i, j)}
        if all(steps.values()):
            texts = {k: [] for k in steps}
            gens = {k: card_steps(W, random.Random(k * 7919 + 1), int(steps[k][2])) for k in steps}
            while gens:
                k = rng.choice(list(gens))
                try:
                    texts[k].append(next(gens[k]))
                except StopIteration:
                    del gens[k]
                except Exception as ex:
                    texts[k] = [norm(f"raises {type(ex).__name__}: {ex}")[:3000]]
                    del gens[k]
            for k in steps:
                bad.append(("two cards used in turns", steps[k], "\n--\n".join(texts[k])))


def spoil(o, depth=0):
    """change what can be changed in place"""
    try:
        if isinstance(o, list):
            for x in o:
                spoil(x, depth + 1)
            o.append("spoiled")
        elif isinstance(o, dict):
            for x in list(o.values()):
                spoil(x, depth + 1)
            o["spoiled"] = 1
        elif isinstance(o, (set, bytearray)):
            o.clear()
        elif isinstance(o, np.ndarray):
            if o.dtype.hasobject:
                for x in o.flat:
                    spoil(x, depth + 1)
            o[...] = np.zeros((), o.dtype)
        elif isinstance(o, tuple):
            for x in o:
                spoil(x, depth + 1)
        elif hasattr(o, "__dict__") and not isinstance(o, type) and depth < 6:
            for x in list(vars(o).values()):
                spoil(x, depth + 1)
            o.__dict__["spoiled"] = 1
    except Exception:
        pass


# ------------------------------------------------------------------ schedules
def preempted(W, a, b, k, out, root):
    """result of a, with all of b executed at the k-th line of the library that a executes (None if it has fewer lines)"""
    import sys as _s
    state = {"n": 0, "done": False, "b": None}

    def other():
        state["b"] = call(W, b, out, root)

    def local(frame, event, arg):
        if event == "line" and not state["done"]:
            state["n"] += 1
            if state["n"] >= k:
                state["done"] = True
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return local

    def tracer(frame, event, arg):
        return local if not state["done"] and "/skops/" in frame.f_code.co_filename else None
    res = {}

    def run():
        _s.settrace(tracer)
        try:
            res["a"] = call(W, a, out, root)
        finally:
            _s.settrace(None)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return res.get("a"), state["b"], state["n"], state["done"]


def job(W, ref, what, seed, seconds, root):
    """in a child: mismatches found in one history or schedule"""
    warnings.simplefilter("ignore")
    rng = random.Random(seed)
    out = Out(sys.stdout)
    sys.stdout = out
    root = tempfile.mkdtemp(dir=root)
    ls = list(ref)
    t0, bad, n, sample, seen = time.time(), [], 0, [], []
    end = t0 + seconds

    def check(label, got, why):
        if label in ref and got != ref[label]:
            d = first_diff(ref[label], got)
            bad.append((why, label, d, seen[-12:]))

    if what == "history":
        order = ls[:]
        rng.shuffle(order)
        for label in order + rng.choices(ls, k=100000):
            if time.time() > end or len(bad) > 5:
                break
            check(label, call(W, label, out, root), "after other calls")
            seen.append(label)
            n += 1
            if rng.random() < 0.3:
                ps = []
                perturb(W, rng, ref, root, out, ps)
                for why, l, got in ps:
                    n += 1
                    check(l, got, why)
                    seen.append((why, l))
    elif what == "threads":
        sys.setswitchinterval(1e-6)
        cnt = [0] * 6

        def work(k):
            r = random.Random(seed * 31 + k)
            o = out
            # some threads hammer the same calls
            mine = ls if k % 2 else r.sample(ls, min(6, len(ls)))
            while time.time() < end and len(bad) < 5:
                label = r.choice(mine)
                check(label, call(W, label, o, root), "while other threads execute calls")
                cnt[k] += 1
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        n = sum(cnt)
        sys.setswitchinterval(0.005)
    elif what == "preempt":
        while time.time() < end and len(bad) < 5:
            a, b = rng.choice(ls), rng.choice(ls)
            # a call of the same kind is more likely to meet the same state
            if rng.random() < 0.5:
                b = rng.choice([l for l in ls if l[0] == a[0]])
            _, _, total, _ = preempted(W, a, a, 10**9, out, root)
            if not total:
                continue
            ks = {rng.randint(1, total) for _ in range(4)} | {rng.choice([1, total])}
            for k in ks:
                if time.time() > end:
                    break
                x, y, at, done = preempted(W, a, b, k, out, root)
                n += 1
                check(a, x, f"with {b} executed at line event {k} of {total}")
                if done:
                    check(b, y, f"executed at line event {k} of {total} of {a}")
    shutil.rmtree(root, ignore_errors=True)
    sys.stdout = out.real
    return n, [(w, l, d, [str(x)[:200] for x in s]) for w, l, d, s in bad]


def first_diff(a, b):
    a, b = str(a), str(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, k - 60):k + 80]!r} became ...{b[max(0, k - 60):k + 80]!r}"


def pin_html_ids():
    """scikit-learn numbers its diagrams (the length of the number shows in what the card's repr shortens)"""
    import sklearn.utils._estimator_html_repr as h
    if hasattr(h, "_IDCounter"):
        h._IDCounter.get_id = lambda self: self.prefix + "-0"


def bounded(B):
    import skops.io, skops.card      # imported, but never called in this process
    rng = B.rng
    warnings.simplefilter("ignore")
    root = os.path.join(os.getcwd(), "c20")
    os.makedirs(root, exist_ok=True)
    pin_html_ids()
    W = World(rng, B.n(60, 300), B.n(14, 60))
    t = B.time_left()

    def fresh(label):
        warnings.simplefilter("ignore")
        out = Out(sys.stdout)
        sys.stdout = out
        try:
            return call(W, label, out, root)
        finally:
            sys.stdout = out.real
    # the archives that the loading calls work on, each made by the first call of a process
    for label, (k, v) in A.isolated(fresh, [("bytes", i, "") for i in range(len(W.objs))], timeout=30, chunk=1, procs=6):
        if k == "ok" and v is not None:
            W.data[label[1]] = v
    n = len(W.objs)
    tpl = A.templates()
    for x in rng.sample(range(len(tpl)), min(len(tpl), B.n(12, 60))):
        try:
            W.data[n + x] = pack_template(tpl[x])
        except Exception:
            pass

    def types(label):
        import skops.io as sio
        try:
            return sio.get_untrusted_types(data=W.data[label])
        except Exception:
            return []
    for i, (k, v) in A.isolated(types, list(W.data), timeout=30, chunk=1, procs=6):
        if k == "ok":
            W.files[i] = v
    ls = labels(W, rng)
    ls = list(dict.fromkeys(ls + [("dumps", i, "bytes") for i in range(n)] + [("visualize", i, "all,none") for i in list(W.data)[:20]]))
    ref, unstable = {}, 0
    for label, (k, v) in A.isolated(fresh, ls, timeout=40, chunk=1, procs=7):
        if k == "ok":
            ref[label] = v
    for label, (k, v) in A.isolated(fresh, list(ref), timeout=40, chunk=1, procs=7):
        if k != "ok" or v != ref[label]:
            unstable += 1
            del ref[label]
    B.rule(f"{len(ref)} calls (dumps to bytes and paths, loads with all/some/no types trusted, get_untrusted_types, visualize, card scripts, parser) executed as the first call of a process; "
           f"{unstable} left out because two fresh processes disagree")
    if unstable > 0.1 * max(1, len(ref)):
        B.fail("unstable", f"{unstable} of {unstable + len(ref)} calls give different results in two fresh processes", {})
    secs = max(6.0, (B.time_left() - 10) / 2.2)
    jobs = []
    for r in range(2):
        jobs += [("history", B.seed * 100 + 10 * r + j, secs) for j in range(3)] + [("threads", B.seed * 100 + 50 + r, secs)] + [("preempt", B.seed * 100 + 70 + 10 * r + j, secs) for j in range(3)]
    found = 0
    for (what, seed, s), (k, v) in A.isolated(lambda x: job(W, ref, *x, root), jobs, timeout=secs * 3 + 120, chunk=1, procs=7):
        if k != "ok":
            B.fail("job", f"{what} with seed {seed}: {str(v)[:600]}", {"what": what, "seed": seed})
            continue
        cnt, bad = v
        for i in range(cnt):
            B.case(what, f"{what} {seed} {i}", f"{what} seed {seed}: {cnt} calls")
        for why, label, d, hist in bad:
            B.fail(f"{what}", f"{label} {why}: {d}", {"mode": what, "seed": seed, "label": list(label), "history": hist})
    B.rule("histories: every call in random orders (3-6 processes), with scripts on the same live object, path, trusted list and on pairs of cards; "
           "schedules: all of one call at a random line event of another; 6 free-running threads with a switch interval of 1 microsecond")


def pack_template(t):
    label, loader, protocol, state, members = t
    return A.pack(state, members, protocol)
