#!/usr/bin/env python3
"""seed.py SPEC.py... : turn planted-bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source run with cwd /repo, or DEMO_SH)."""
import os, shutil, subprocess, sys, json
SC = "/tmp/seedrepo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="4", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/plugins")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(specs, tests=True):
    sh("rm", "-rf", SC)
    sh("cp", "-a", "/repo", SC)
    for spec in specs:
        g = {}
        exec(open(spec).read(), g)
        sh("git", "-C", SC, "checkout", "-q", "--", ".")
        bad = None
        for f, old, new in g["EDITS"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(g["ID"], "BAD EDIT", bad); continue
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", g["ID"])
        patch = sh("git", "-C", SC, "diff").stdout
        t = f"/tmp/seedtmp/{g['ID']}"
        os.makedirs(t, exist_ok=True)
        if "DEMO_SH" in g:
            demo = g["DEMO_SH"]
        else:
            open(t + "/demo.py", "w").write(g["DEMO"])
            demo = '#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$HERE/demo.py"\n'
        open(t + "/demo.sh", "w").write(demo)
        os.chmod(t + "/demo.sh", 0o755)
        w = sh("bash", t + "/demo.sh", cwd=SC, env=ENV)
        sh("git", "-C", SC, "stash", "-q")
        wo = sh("bash", t + "/demo.sh", cwd=SC, env=ENV)
        sh("git", "-C", SC, "stash", "pop", "-q")
        if w.returncode == 0 or wo.returncode != 0:
            print(g["ID"], "DEMO with", w.returncode, "without", wo.returncode, (wo.stdout + wo.stderr)[-600:], (w.stdout + w.stderr)[-300:]); continue
        if tests:
            r = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-p", "vp_seed", "--timeout=300", "-n", "0", "-m", "not inference", "skops", cwd=SC, env=ENV) if False else \
                sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-p", "vp_seed", "--timeout=300", "--continue-on-collection-errors", "-m", "not inference", "skops", cwd=SC, env=ENV)
            last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
            if "1185 passed, 6 failed" not in last and "6 failed, 1185 passed" not in last:
                print(g["ID"], "TESTS", last, [l for l in r.stdout.splitlines() if l.startswith("FAILED")][:9]); continue
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(t):
            shutil.copy(os.path.join(t, n), d)
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        print(g["ID"], "ok: demo fails with", (w.stdout + w.stderr).strip().splitlines()[-1][:150] if (w.stdout + w.stderr).strip() else w.returncode)
    sh("rm", "-rf", SC, "/tmp/seedtmp")


if __name__ == "__main__":
    a = sys.argv[1:]
    main([x for x in a if x != "--notests"], "--notests" not in a)
