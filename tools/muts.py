"""Batch of hand-written mutants: muts.py [PROP ...]; reports which checks catch them."""
import os, shutil, subprocess, sys, tempfile
M = []
def m(pid, f, old, new, nth=1): M.append((pid, f, old, new, nth))
exec(open(os.path.join(os.path.dirname(__file__), "mutlist.py")).read())
want = sys.argv[1:]
for i, (pid, f, old, new, nth) in enumerate(M):
    if want and pid not in want and f"{pid}.{i}" not in want: continue
    d = tempfile.mkdtemp(prefix="mut")
    shutil.copytree("/repo/differt2d", d + "/differt2d", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/differt2d/{f}"; s = open(p).read()
    if s.count(old) < nth:
        print(pid, i, "NOT FOUND", old[:50]); shutil.rmtree(d); continue
    pos = -1
    for _ in range(nth): pos = s.index(old, pos + 1)
    open(p, "w").write(s[:pos] + new + s[pos + len(old):])
    env = {**os.environ, "DST_PACKAGE_DIR": d + "/differt2d"}
    for q in pid.split("+"):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "dst.driver", "check", q, "--nomin"], cwd="/verif", env=env, capture_output=True, text=True)
        line = [x for x in r.stdout.splitlines() if x.startswith("violation") or "HARNESS" in x] or [r.stdout[-200:] + r.stderr[-300:]]
        last = r.stdout.splitlines()[-1] if r.stdout else ""
        print(q, i, {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}"), "|", repr(new[:60]), "|", line[0][:150], "|", last[:80], flush=True)
    shutil.rmtree(d)
