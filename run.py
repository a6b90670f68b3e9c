#!/opt/venv/bin/python
"""Check one property: run.py <id> [quick|thorough]. Exit 0 held, 1 violation, 2 error of the check."""
import sys, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "4")
import hashlib, importlib, json, random, tempfile, time, traceback, warnings
warnings.simplefilter("ignore")

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Bounded:
    """Run-time evaluation of the executable contracts on generated inputs (labelled bounded)."""

    def __init__(self, pid, tier, seed, known, budget):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed * 1000003 + int(pid[1:]))
        self.known = known
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.rules = []
        self.fails = []
        self.seen_known = {}
        self.exhaustive = []
        self.deadline = time.time() + budget
        self.per = {}
        self.stop_after = int(os.environ.get("VERIF_STOP", "5"))
        self.last = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def time_left(self):
        return self.deadline - time.time()

    def rule(self, txt):
        self.rules.append(txt)

    def case(self, group, key, sample=None):
        """count one evaluation"""
        self.evaluations += 1
        self.last = str(key)[:1000]
        self.per[group] = self.per.get(group, 0) + 1
        if len(self.distinct) < 2_000_000:
            self.distinct.add((group, hash(key) if not isinstance(key, (str, int)) else key))
        if sample is not None and self.per[group] <= 2 and len(self.samples) < 40:
            self.samples.append({"group": group, "case": str(sample)[:400]})

    def fail(self, key, what, replay):
        """key: stable identification of the failing input class; known keys are findings"""
        k = f"{self.pid}:{key}"
        if k in self.known:
            self.seen_known.setdefault(k, what)
            return
        self.fails.append({"key": key, "what": str(what)[:2000], "replay": replay})
        if len(self.fails) >= self.stop_after:
            raise Enough()

    def check(self, ok, key, what, replay):
        if not ok:
            self.fail(key, what() if callable(what) else what, replay() if callable(replay) else replay)
        return ok


class Enough(Exception):
    pass


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == pid and e["status"] == "known":
                known[f"{pid}:{e['key']}"] = e["what"]
    import skops
    assert skops.__file__ == "/repo/skops/__init__.py", skops.__file__
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    home = os.getcwd()
    os.chdir(scratch)
    try:
        code = check(pid, tier, seed, t0, known, scratch)
    finally:
        os.chdir(home)
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return code


def check(pid, tier, seed, t0, known, scratch):
    mod = importlib.import_module(f"contracts.{pid.lower()}")
    # --- proof layer
    units, backends, solver_time, calls = [], {}, 0.0, 0
    if hasattr(mod, "prove"):
        from pyvc.harness import Proofs
        P = Proofs(budget=getattr(mod, "UNIT_BUDGET", 60))
        mod.prove(P)
        units = P.units
        backends, solver_time, calls = P.prover.backends, P.prover.time, P.prover.calls
    obls = [o for u in units for o in u["obligations"]]
    failed = [o for o in obls if o.status != "discharged"]
    # vacuity guards: units whose obligations must NOT all discharge
    guards = []
    if hasattr(mod, "guards"):
        from pyvc.harness import Proofs
        G = Proofs(budget=30)
        mod.guards(G)
        for u in G.units:
            guards.append((u["unit"], u["reach"], bool(u["obligations"]) and any(o.status != "discharged" for o in u["obligations"])))
    t1 = time.time()
    # --- bounded layer
    B = Bounded(pid, tier, seed, known, getattr(mod, "BUDGET", {"quick": 120, "thorough": 1500})[tier])
    err = None
    if hasattr(mod, "bounded"):
        import signal

        def hang(*_):
            raise TimeoutError("the code under test does not terminate (in time)")
        signal.signal(signal.SIGALRM, hang)
        signal.alarm(int(1.5 * (B.deadline - time.time())) + 60)
        try:
            mod.bounded(B)
            signal.alarm(0)
        except Enough:
            pass
        except Exception as ex:
            signal.alarm(0)
            tb = traceback.extract_tb(ex.__traceback__)
            stuck = isinstance(ex, TimeoutError) and "does not terminate" in str(ex)
            if not stuck and not any(f.filename.startswith("/repo/skops") for f in tb):
                raise
            # the code under test raised where its specification returns, or does not come back
            B.fails.append({"key": "hang" if stuck else "exception", "what": f"unexpected {type(ex).__name__}: {ex}", "replay": {"traceback": traceback.format_exc().splitlines()[-30:], "last_case": B.last}})
    t2 = time.time()
    # --- verdict
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    lines, viol = [], 0
    seen = set()
    for f in B.fails:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        viol += 1
        path = os.path.join(rep_dir, f"{pid}-{hashlib.sha1((f['key'] + str(f['what'])).encode('utf8', 'backslashreplace')).hexdigest()[:12]}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "kind": "failing-input", "key": f["key"], "what": f["what"], "replay": f["replay"],
                       "failed_obligations": [{"name": o.name, "function": o.function, "detail": o.detail} for o in failed][:10]}, fh, indent=1, default=repr)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"  failing input [{f['key']}]: {str(f['what'])[:500]}".encode("utf8", "backslashreplace").decode())
    for o in failed:
        print(f"  obligation not discharged: {o.name} ({o.function}) {o.status}: {o.detail[:600]}")
    if failed and not B.fails:
        viol += 1
        path = os.path.join(rep_dir, f"{pid}-obl-{hashlib.sha1(failed[0].name.encode()).hexdigest()[:12]}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "kind": "obligation", "failed": [{"name": o.name, "function": o.function, "status": o.status, "solver": o.model, "detail": o.detail} for o in failed]}, fh, indent=1, default=repr)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for k, w in known.items():
        if k in B.seen_known:
            print(f"KNOWN-FINDING: property={pid} {k.split(':', 1)[1]}: {w}")
        else:
            print(f"note: listed finding {k} did not reproduce in this run")
    for u in units:
        if u["reach"] != "ok":
            print(f"  out of reach on this tree (bounded only): {u['unit']}: {u['reason'][-400:]}")
    bad_guard = [g for g in guards if g[1] == "ok" and not g[2]]
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": len(obls), "discharged": len(obls) - len(failed),
        "checker_cmd": f"/opt/venv/bin/python /verif/run.py {pid}",
        "trusted_base": sorted(set(getattr(mod, "TRUSTED", [])) | {f"assumed contract: {a}" for u in units for a in u["assumed"]} | {"pyvc symbolic executor (values as mathematical ints/unicode strings)", "z3 5.x / cvc5"}),
        "units": [{"unit": u["unit"], "function": u["function"], "reach": u["reach"], "obligations": len(u["obligations"]), "discharged": sum(o.status == "discharged" for o in u["obligations"]), "time_s": u["time"], "reason": u["reason"][-300:]} for u in units],
        "functions_under_contract": sorted({x for u in units if u["reach"] == "ok" for x in u["inlined"] if not x.startswith(("contracts.", "__main__"))}),
        "backends": backends, "solver_time_s": round(solver_time, 2), "solver_calls": calls,
        "out_of_reach": [u["unit"] for u in units if u["reach"] != "ok"],
        "guards_refuted": [g[0] for g in guards if g[2]],
        "evaluations": B.evaluations, "distinct_nontrivial": len(B.distinct),
        "rule": "bounded layer (never counted as proved): " + "; ".join(B.rules) if B.rules else "no bounded layer",
        "samples": B.samples, "bounded_groups": B.per,
        "explanation": getattr(mod, "EXPLANATION", ""),
        "proof_s": round(t1 - t0, 1), "bounded_s": round(t2 - t1, 1),
    }
    if B.exhaustive:
        cov["exhaustive_groups"] = B.exhaustive
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    print(f"{pid}: obligations {len(obls) - len(failed)}/{len(obls)} discharged in {sum(u['reach'] == 'ok' for u in units)}/{len(units)} units, solver {solver_time:.1f}s; bounded evaluations {B.evaluations}; {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    if viol:
        return 1
    if bad_guard:
        print("error: vacuity guard discharged:", bad_guard)
        return 2
    if level == "proof" and not obls and not B.evaluations:
        print("error: nothing was checked")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
