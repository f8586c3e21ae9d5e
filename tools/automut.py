"""Systematic mutants: automut.py list | run [--from N] [--out FILE]. Each is run against the checks of the properties
that its function serves, until one reports it; survivors are listed with their diff."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
PK = "/repo/differt2d"
MAP = [  # (file, function regex, properties)
    ("logic.py", r"^(set_approx|enable_approx|disable_approx)$", "C01 C03"),
    ("logic.py", r"^(logical_|greater|less|is_true|is_false|true_value|false_value)", "C02 C03"),
    ("optimize.py", r".*", "C08 C07"),
    ("scene.py", r"^(from_geojson|_)$", "C09"),
    ("scene.py", r"^random_uniform_scene$", "C07"),
    ("scene.py", r"^plot$", "C13"),
    ("scene.py", r"^(with_|update_|rename_|add_|filter_objects|stack|from_mapping|__|get_object)", "C10 C04"),
    ("scene.py", r"^(all_path|all_valid|get_interacting|all_transmitter)", "C04 C05 C07 C14"),
    ("scene.py", r"^accumulate_over_paths$", "C05 C02"),
    ("scene.py", r"^accumulate_on_", "C06 C07 C02"),
    ("abc.py", r"^plot$", "C13"),
    ("abc.py", r"^sample$", "C07"),
    ("geometry.py", r"^plot$", "C13"),
    ("geometry.py", r"^(from_tx_objects_rx|path_from|is_valid|on_objects|intersects|contains|intersects_)", "C02 C04 C06 C08"),
    ("geometry.py", r"^(segments_intersect|intersects_with)", "C02"),
]
def muts(f):
    src = open(f"{PK}/{f}").read(); tree = ast.parse(src); lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def span(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def walk(node, fn):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef,)):
                if any("overload" in ast.unparse(d) for d in c.decorator_list): continue
                yield from walk(c, fn or c.name)
            else:
                if fn: yield fn, c
                yield from walk(c, fn)
    out = []
    def add(fn, n, new, why):
        a, z = span(n); out.append((f, fn, n.lineno, a, z, new, why))
    body_of = {}
    for fn, n in walk(tree, None):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
        if isinstance(n, ast.keyword): continue
        if isinstance(n, (ast.Call,)):
            for k in n.keywords:
                if k.arg:
                    a = off[k.lineno - 1] + k.col_offset; z = off[k.end_lineno - 1] + k.end_col_offset
                    m = re.match(rb"\s*,", b[z:]); z += m.end() if m else 0
                    if not m:
                        m2 = re.search(rb",\s*$", b[:a]); a = m2.start() if m2 else a
                    out.append((f, fn, k.lineno, a, z, "", f"drop {k.arg}"))
                elif isinstance(k.value, (ast.Name,)):
                    a = off[k.lineno - 1] + k.col_offset; z = off[k.end_lineno - 1] + k.end_col_offset
                    m = re.match(rb"\s*,", b[z:]); z += m.end() if m else 0
                    out.append((f, fn, k.lineno, a, z, "", "drop **"))
            if len(n.args) >= 2:
                x, y = n.args[0], n.args[1]
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred) and ast.unparse(x) != ast.unparse(y) and ast.unparse(n.func) not in ("range", "isinstance") and not re.search("maximum|minimum|logical_|allclose|cast$", ast.unparse(n.func)):
                    a, _ = span(x); _, z = span(y)
                    out.append((f, fn, n.lineno, a, z, f"{ast.unparse(y)}, {ast.unparse(x)}", "swap args"))
            for x in n.args:
                if isinstance(x, ast.Starred): 
                    a, z = span(x); m = re.match(rb"\s*,", b[z:]); z += m.end() if m else 0
                    out.append((f, fn, x.lineno, a, z, "", "drop *"))
        if isinstance(n, (ast.If, ast.IfExp)):
            add(fn, n.test, f"not ({ast.unparse(n.test)})", "negate")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            for o, q in ((ast.Lt, "<="), (ast.LtE, "<"), (ast.Gt, ">="), (ast.GtE, ">")):
                if isinstance(n.ops[0], o): add(fn, n, f"{l} {q} {r}", "cmp")
        if isinstance(n, ast.BinOp):
            l, r = ast.unparse(n.left), ast.unparse(n.right)
            for o, q in ((ast.Add, "-"), (ast.Sub, "+"), (ast.Mult, "/"), (ast.Div, "*")):
                if isinstance(n.op, o): add(fn, n, f"(({l}) {q} ({r}))", "arith")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool): add(fn, n, str(not n.value), "flip")
            elif isinstance(n.value, (int, float)): add(fn, n, str(n.value + 1), "const")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, ast.Tuple):
            add(fn, n, "pass", "delete")
        if isinstance(n, ast.Expr): add(fn, n, "pass", "delete")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) is False and isinstance(n.slice, ast.Name) and isinstance(n.ctx, ast.Load) and n.slice.id.islower():
            pass
    # annotations and defaults of signatures are excluded by position
    skip = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            skip.append((off[n.lineno - 1], off[n.body[0].lineno - 1])); skip += [span(d) for d in n.decorator_list]
        if isinstance(n, ast.AnnAssign): skip.append(span(n.annotation))
    res = []
    for m in out:
        a, z = m[3], m[4]
        if any(s <= a and z <= e for s, e in skip): continue
        new = b[:a] + m[5].encode() + b[z:]
        try: t2 = ast.parse(new)
        except SyntaxError: continue
        if ast.dump(t2) == ast.dump(tree): continue
        res.append((*m, new.decode()))
    return res
def all_muts():
    L = []
    for f in dict.fromkeys(x[0] for x in MAP):
        for m in muts(f):
            for ff, rx, props in MAP:
                if ff == f and re.search(rx, m[1]): L.append((m, props.split())); break
    math = [x for x in L if x[0][1] in ("segments_intersect", "from_tx_objects_rx", "contains_parametric") and x[0][0] == "geometry.py"]
    return [x for x in L if x not in math] + math[::6]
if __name__ == "__main__":
    L = all_muts()
    if sys.argv[1] == "list":
        for i, (m, p) in enumerate(L): print(i, m[0], m[1], m[2], m[6], repr(m[5][:40]), p)
        print(len(L)); sys.exit()
    a = int(sys.argv[2]) if len(sys.argv) > 2 else 0; z = int(sys.argv[3]) if len(sys.argv) > 3 else len(L)
    st = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    for i in range(a, min(z, len(L)), st):
        m, props = L[i]
        d = tempfile.mkdtemp(prefix="am")
        shutil.copytree(PK, d + "/differt2d", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/differt2d/{m[0]}", "w").write(m[7])
        env = {**os.environ, "DST_PACKAGE_DIR": d + "/differt2d"}
        got = "SURVIVED"; line = ""
        for q in props:
            r = subprocess.run([sys.executable if "venv" in sys.executable else "/opt/venv/bin/python", "-m", "dst.driver", "check", q, "--nomin"], cwd="/verif", env=env, capture_output=True, text=True)
            if r.returncode:
                got = f"{q} rc={r.returncode}"; line = ([x for x in r.stdout.splitlines() if x.startswith("violation") or "HARNESS" in x] or [(r.stdout[-150:] + r.stderr[-200:])])[0][:140]; break
        o = open(f"{PK}/{m[0]}").read().splitlines()[m[2] - 1].strip()
        print(i, m[0], m[1], m[2], m[6], repr(m[5][:50]), "|", o[:70], "|", got, "|", line.replace("\n", " "), flush=True)
        shutil.rmtree(d)
