"""Makes and confirms planted bugs: seeds.py [ID ...] writes /verif/seeded/<id>/ for each entry of seedlist.py that
passes: the patch applies, the stable tests pass with it, the demonstration exits 0 without and nonzero with it.
seeds.py --catch [ID ...] applies each to /repo, runs the property's quick check, and undoes it."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
L = []
def seed(id, prop, edits, demo, needs, breaks): L.append((id, prop, edits, demo, needs, breaks))
exec(open(f"{HERE}/seedlist.py").read())
args = [a for a in sys.argv[1:] if not a.startswith("-")]
sel = [s for s in L if not args or s[0] in args or s[1] in args]
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mpl"}
DEMO = """#!/bin/bash
# cwd: the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONPATH="$PWD"
exec timeout -k 5 280 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
def run(cmd, cwd, t=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
def catch():
    for id, prop, *_ in sel:
        p = f"/verif/seeded/{id}/patch.diff"
        if not os.path.exists(p): print(id, "absent"); continue
        assert not run(["git", "status", "--short"], "/repo").stdout.strip()
        assert run(["git", "apply", p], "/repo").returncode == 0, id
        try:
            r = run([PY, "-m", "dst.driver", "check", prop, "--tier", "quick", *[a for a in sys.argv[1:] if a in ("--nomin",)]], "/verif", env={**os.environ})
        finally:
            run(["git", "checkout", "--", "."], "/repo")
        v = [x for x in r.stdout.splitlines() if x.startswith("violation") or x.startswith("VIOLATION")]
        print(id, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}"), "|", (v or [r.stdout[-200:]])[0][:170], "|", (r.stdout.splitlines() or [""])[-1][:70], flush=True)
if "--catch" in sys.argv:
    catch(); sys.exit()
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"] if "stable" in base else base["tests"] if "tests" in base else base)
for id, prop, edits, demo, needs, breaks in sel:
    w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"
    try:
        run(["cp", "-a", "/repo", r], "/")
        d = f"/verif/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = run(["bash", d + "/demo.sh"], r)
        for f, old, new, *nth in edits:
            p = f"{r}/differt2d/{f}"; s = open(p).read(); n = nth[0] if nth else 1
            assert s.count(old) >= n, (id, f, "not found", old[:60])
            pos = -1
            for _ in range(n): pos = s.index(old, pos + 1)
            open(p, "w").write(s[:pos] + new + s[pos + len(old):])
        diff = run(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = run(["bash", d + "/demo.sh"], r)
        if a.returncode != 0 or b.returncode == 0:
            print(id, "DEMO BAD", a.returncode, b.returncode, (a.stdout + a.stderr)[-600:], "|", (b.stdout + b.stderr)[-300:], flush=True); continue
        if "--demo" in sys.argv: print(id, "demo ok |", (b.stdout + b.stderr).strip().splitlines()[-1][:150], flush=True); continue
        env = {**ENV, "PYTHONPATH": r}
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "-n", "8", "--no-cov", "--junitxml=" + w + "/o.xml"], r, env=env)
        tail = t.stdout.strip().splitlines()[-6:]
        chk = run([PY, "-c", "import differt2d; print(differt2d.__file__)"], r, env=env).stdout.strip()
        print(id, prop, "demo ok; tests:", tail[-1], [x for x in tail if "FAILED" in x], chk, flush=True)
    except Exception as e:
        print(id, "ERROR", repr(e)[:300], flush=True)
    finally:
        shutil.rmtree(w)
