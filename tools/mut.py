"""Runs a check against a mutated copy of the package: mut.py PROP FILE 'old' 'new' [--runs N]."""
import os, shutil, subprocess, sys, tempfile

pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
shutil.copytree("/repo/differt2d", d + "/differt2d", ignore=shutil.ignore_patterns("__pycache__"))
p = f"{d}/differt2d/{f}"
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
n = s.count(old)
assert n >= 1, "not found"
open(p, "w").write(s.replace(old, new, 1))
env = {**os.environ, "DST_PACKAGE_DIR": d + "/differt2d"}
r = subprocess.run(["/opt/venv/bin/python", "-m", "dst.driver", "check", pid, *sys.argv[5:]], cwd="/verif", env=env, capture_output=True, text=True)
print(f"[{n} matches] exit", r.returncode)
print("\n".join(x[:400] for x in r.stdout.splitlines()[-6:]))
print(r.stderr[-500:])
shutil.rmtree(d)
