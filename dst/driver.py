"""
Runs checks: distributes seeds over worker processes, minimises and replays
violations, writes evidence.

  python -m dst.driver check C01 [--tier quick|thorough] [--seed N]
  python -m dst.driver replay FILE
  python -m dst.driver selftest [C01 ...] [--runs N]
"""

import argparse
import collections
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
NWORKERS = 8


def hashseed(seed, w):
    return (seed * 1000003 + w * 7919 + 17) % 4294967295


class Worker:
    def __init__(self, w=0, hseed=0):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hseed)
        env["PYTHONPATH"] = HERE
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.w = w
        self.hseed = hseed
        self.err = []
        self.p = subprocess.Popen(
            [PY, "-X", "faulthandler", "-m", "dst.worker"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, cwd=HERE, env=env,
        )
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._readerr, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                self.err.append(line)
        self.q.put(None)

    def _readerr(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-60]

    def send(self, t):
        try:
            self.p.stdin.write(json.dumps(t) + "\n")
            self.p.stdin.flush()
        except OSError:
            pass

    def get(self, timeout):
        """Next message; None when the worker died; raises queue.Empty."""
        return self.q.get(timeout=timeout)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            pass


class Failure(Exception):
    pass


def start(n, seed, hseeds=None):
    ws = [Worker(w, hashseed(seed, w) if hseeds is None else hseeds[w]) for w in range(n)]
    for w in ws:
        try:
            m = w.get(120)
        except queue.Empty:
            m = None
        if m is None or not m.get("ready"):
            e = "".join(w.err)
            for x in ws:
                x.kill()
            raise Failure("worker did not start:\n" + e[-3000:])
    return ws


def run_one(pid, plan, hseed, prelude=(), log=False, timeout=420, worker=None):
    """One plan in a fresh process (or in ``worker``)."""
    w = worker or start(1, 0, [hseed])[0]
    try:
        w.send({"cmd": "plan", "pid": pid, "plan": plan, "prelude": list(prelude), "log": log})
        try:
            r = w.get(timeout)
        except queue.Empty:
            r = None
        if r is None:
            return {"status": "error", "msg": "worker died or timed out:\n" + "".join(w.err)[-2000:]}
        return r
    finally:
        if worker is None:
            w.kill()


def pin(plan, recorded):
    plan = json.loads(json.dumps(plan))
    if "sched" in plan and recorded:
        plan["sched"]["switches"] = recorded[0]
    return plan


# ---------------------------------------------------------------- minimising


def minimise(pid, plan, kind, hseed, budget, say):
    """Greedy: any smaller plan with the same class of violation."""
    sys.path.insert(0, HERE)
    import importlib

    from . import core

    m = importlib.import_module(f"dst.props.{pid.lower()}")
    shrinker = getattr(m, "shrink", core.generic_shrink)
    pool = start(NWORKERS, 0, [hseed] * NWORKERS)
    t0 = time.time()
    tried = 0
    try:
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            cand = iter(shrinker(plan))
            best = None
            done = False
            while not done and best is None and time.time() - t0 < budget:
                batch = []
                for w in pool:
                    q = next(cand, None)
                    if q is None:
                        done = True
                        break
                    w.send({"cmd": "plan", "pid": pid, "plan": q})
                    batch.append((w, q))
                for w, q in batch:
                    try:
                        r = w.get(max(30.0, budget))
                    except queue.Empty:
                        r = None
                    if r is None:
                        i = pool.index(w)
                        w.kill()
                        pool[i] = start(1, 0, [hseed])[0]
                        continue
                    tried += 1
                    if best is None and r["status"] == "violation" and r["kind"] == kind:
                        q = pin(q, r.get("recorded"))
                        if size(q) < size(plan):
                            best = q
            if best is not None:
                plan = best
                improved = True
    finally:
        for w in pool:
            w.kill()
    say(f"minimisation: {tried} candidates in {time.time() - t0:.0f} s")
    return plan


def size(plan):
    return len(json.dumps(plan))


# -------------------------------------------------------------- known findings


def known_findings(pid):
    """Lines ``finding: property=C01 kind=<kind> match=<regex> :: text``."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out


# --------------------------------------------------------------------- check


def check(pid, tier, seed, nruns=None, quiet=False, nomin=False):
    t0 = time.time()

    def say(*a):
        print(*a, flush=True)

    sys.path.insert(0, HERE)
    import importlib

    from . import core

    m = importlib.import_module(f"dst.props.{pid.lower()}")
    n = nruns or m.RUNS[tier]
    cap = m.WALL[tier] if hasattr(m, "WALL") else {"quick": 400, "thorough": 3300}[tier]
    say(f"seed={seed} property={pid} tier={tier} runs={n} workers={NWORKERS}")
    ws = start(NWORKERS, seed)
    results, violation, error = [], None, None
    known = known_findings(pid)
    hits = collections.Counter()
    stop = False
    for w in ws:
        idx = list(range(w.w, n, NWORKERS))
        w.todo = idx
        w.send({"cmd": "batch", "pid": pid, "seed": seed, "tier": tier, "indices": idx,
                "want": [0, 1, 2], "fresh": w.w % 2 == 0})
        w.last = time.time()
        w.done = not idx
        w.history = []
    viols = []
    groups = {}
    capped = False
    while not stop and not all(w.done for w in ws):
        for w in ws:
            if w.done:
                continue
            try:
                r = w.get(0.05)
            except queue.Empty:
                if time.time() - w.last > 380:
                    error = f"worker {w.w} is stuck:\n" + "".join(w.err)[-3000:]
                    stop = True
                if time.time() - t0 > cap:
                    capped = True
                    stop = True
                continue
            w.last = time.time()
            if r is None:
                error = f"worker {w.w} died:\n" + "".join(w.err)[-3000:]
                stop = True
                break
            if r.get("end"):
                w.done = True
                continue
            if r["status"] == "error":
                error = r["msg"]
                stop = True
                break
            w.history.append(r["index"])
            if r["status"] == "violation":
                k = next((k for k in known if k[0] == r["kind"] and k[1].search(r["msg"])), None)
                if k is not None:
                    hits[k[2]] += 1
                    results.append(r)
                    rest = [i for i in w.todo if i > r["index"]]
                    # the worker stops its batch at a violation: resume after it
                    w.send({"cmd": "batch", "pid": pid, "seed": seed, "tier": tier, "indices": rest,
                            "fresh": w.w % 2 == 0})
                    w.resume = True
                    # swallow the end marker of the interrupted batch
                    try:
                        w.get(60)
                    except queue.Empty:
                        pass
                    continue
                r["w"] = w.w
                r["prelude_idx"] = [i for i in w.history if i < r["index"]]
                r["hashseed"] = w.hseed
                viols.append(r)
                stop = True
                break
            if "group" in r:
                g = groups.setdefault(r["group"], (r["results"], r["index"], w.hseed))
                if g[0] != r["results"]:
                    viols.append({**r, "w": w.w, "hashseed": w.hseed, "other_hashseed": g[2], "prelude_idx": [],
                                  "kind": "differs-between-processes",
                                  "plan": core.generate(pid, seed, r["index"], tier),
                                  "msg": f"the same calls with the same keys gave other results in a process with "
                                         f"PYTHONHASHSEED={w.hseed} than in one with {g[2]}"})
                    stop = True
                    break
            results.append(r)
        if time.time() - t0 > cap and not stop:
            capped = True
            stop = True
    for w in ws:
        w.kill()
    wall_search = time.time() - t0
    status = 0
    if error and not viols:
        say("HARNESS ERROR:", error)
        status = 2
    if viols:
        violation = viols[0]
        status = report(pid, tier, seed, violation, say, nomin)
    for text, c in hits.items():
        say(f"KNOWN-FINDING: property={pid} {text} ({c} runs)")
    evidence(pid, m, tier, seed, results, viols, wall_search, time.time() - t0, capped, core)
    say(f"{pid}: {len(results)} runs, {sum(r['ops'] for r in results)} operations, "
        f"{sum(r['steps'] for r in results)} steps in {wall_search:.0f} s -> exit {status}")
    return status


def two_processes(pid, plan, h1, h2, log=False):
    """The plan in two processes; a violation when the results differ."""
    a, b = run_one(pid, plan, h1, log=log), run_one(pid, plan, h2)
    if a["status"] != "ok" or b["status"] != "ok":
        return a if a["status"] != "ok" else b
    a["digest"] += b["digest"]
    if a["results"] != b["results"]:
        a.update(status="violation", kind="differs-between-processes",
                 msg=f"results {a['results']} with PYTHONHASHSEED={h1}, {b['results']} with {h2}")
    return a


def report_two(pid, tier, seed, v, say):
    from . import core

    plan, h1, h2 = v["plan"], v["other_hashseed"], v["hashseed"]
    say(f"violation in run {v['index']}: {v['kind']}: {v['msg']}")
    r = two_processes(pid, plan, h1, h2)
    bad = r["status"] == "violation"
    for i in range(len(plan["ops"])):
        q = json.loads(json.dumps(plan))
        q["actors"] = [[s for s in a if s["i"] == i][:1] for a in q["actors"]]
        q["actors"] = [a for a in q["actors"] if a][:1]
        if bad and q["actors"]:
            r2 = two_processes(pid, q, h1, h2)
            if r2["status"] == "violation" and r2["kind"] == v["kind"]:
                plan, r = q, r2
                break
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}-{core.plan_hash(plan)}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "index": v["index"], "tier": tier, "hashseed": h1,
                   "other_hashseed": h2, "violation": {"kind": v["kind"], "msg": v["msg"]},
                   "digest": r.get("digest"), "reproduced": bad, "prelude": [], "plan": plan}, f, indent=1)
    say(f"replay: {'reproduced' if bad else 'did not recur'}; {r.get('kind')}: {r.get('msg')}")
    say(f"VIOLATION property={pid} replay={path}")
    return 1


def report(pid, tier, seed, v, say, nomin):
    from . import core

    if "other_hashseed" in v:
        return report_two(pid, tier, seed, v, say)
    plan = pin(v["plan"], v.get("recorded"))
    say(f"violation in run {v['index']}: {v['kind']}: {v['msg']}")
    hs = v["hashseed"]
    prelude = []
    r = run_one(pid, plan, hs)
    if not (r["status"] == "violation" and r["kind"] == v["kind"]):
        # depends on what ran before in the same process: put that in the file
        prev = v["prelude_idx"]
        for k in (1, 4, 16, len(prev)):
            pre = [core.generate(pid, seed, i, tier) for i in prev[-k:]] if k else []
            r = run_one(pid, plan, hs, pre)
            if r["status"] == "violation" and r["kind"] == v["kind"]:
                prelude = pre
                break
            if k >= len(prev):
                break
    reproduced = r["status"] == "violation" and r["kind"] == v["kind"]
    if reproduced and not prelude and not nomin and v["kind"] != "unusable":
        budget = 60 if tier == "quick" else 240
        try:
            small = minimise(pid, plan, v["kind"], hs, budget, say)
            r2 = run_one(pid, small, hs)
            if r2["status"] == "violation" and r2["kind"] == v["kind"]:
                plan, r = small, r2
            else:
                say("the minimised plan does not reproduce in a fresh process; keeping the original")
        except Failure as e:
            say(f"minimisation failed: {e}")
    r3 = run_one(pid, plan, hs, prelude)
    exact = r3.get("digest") == r.get("digest")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}-{core.plan_hash(plan)}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "seed": seed, "index": v["index"], "tier": tier, "hashseed": hs,
             "violation": {"kind": r.get("kind", v["kind"]), "msg": r.get("msg", v["msg"])},
             "digest": r.get("digest"), "reproduced": reproduced, "exact": exact,
             "prelude": prelude, "plan": plan},
            f, indent=1,
        )
    if not reproduced:
        say("note: the violation was observed but did not recur when replayed")
    say(f"replay: {'exact' if exact else 'NOT exact'}; {r.get('kind')}: {r.get('msg')}")
    say(f"VIOLATION property={pid} replay={path}")
    return 1


def evidence(pid, m, tier, seed, results, viols, wall_search, wall, capped, core):
    faults, probes = collections.Counter(), collections.Counter()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
    non = {(r["plan_hash"], r["interleave"]) for r in results if r["nontrivial"]}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(non),
            "rule": m.RULE,
            "samples": [r["plan"] for r in sorted(results, key=lambda r: r["index"]) if "plan" in r][:2],
            "simulated_runs": len(results),
            "runs_per_hour": int(len(results) / max(wall_search, 1e-9) * 3600),
            "operations": sum(r["ops"] for r in results),
            "simulated_time_steps": sum(r["steps"] for r in results),
            "context_switches": sum(r["switches"] for r in results),
            "distinct_interleavings": len({r["interleave"] for r in results}),
            "faults_fired": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "workers": NWORKERS,
            "wall_cap_reached": capped,
            "real_components": m.REAL,
            "stubbed_components": m.STUB,
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []) + [
            "control changes hands only at source lines (C01: bytecode instructions) of differt2d, at its lock "
            "operations and at harness callbacks; JAX, XLA, equinox and matplotlib internals run without preemption",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    if "other_hashseed" in d:
        r = two_processes(d["property"], d["plan"], d["hashseed"], d["other_hashseed"], log=True)
    else:
        r = run_one(d["property"], d["plan"], d["hashseed"], d.get("prelude", []), log=True)
    for line in r.get("log", [])[-60:]:
        print("  ", line)
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "msg", "digest", "steps", "faults")}, indent=1))
    if r["status"] == "violation":
        same = r["digest"] == d["digest"]
        print("same execution as recorded" if same else "not the recorded execution")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def selftest(pids, runs, seed):
    """Determinism: the same seeds in other processes, worker counts and hash seeds."""
    ok = True
    for pid in pids:
        digs = []
        for n, hs in ((4, 1), (4, 2), (3, 3)):
            ws = start(n, seed, [hs * 100 + i for i in range(n)])
            got = {}
            for w in ws:
                w.send({"cmd": "batch", "pid": pid, "seed": seed, "tier": "quick",
                        "indices": list(range(w.w, runs, n))})
            for w in ws:
                while True:
                    r = w.get(400)
                    if r is None or r.get("end"):
                        break
                    if r["status"] != "ok":
                        print(pid, r.get("index"), r["status"], r.get("msg"))
                    if "index" in r:
                        got[r["index"]] = (r["digest"], r["interleave"], r["steps"])
                w.kill()
            digs.append(got)
        diff = [i for i in range(runs) if len({d.get(i) for d in digs}) != 1]
        print(pid, "deterministic" if not diff else f"DIVERGES at {diff[:20]} {[d.get(diff[0]) for d in digs]}",
              f"({runs} runs x {len(digs)})", flush=True)
        ok = ok and not diff
    return 0 if ok else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "selftest", "setup"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--nomin", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        if a.cmd == "check":
            sys.exit(check(a.args[0], tier, a.seed, a.runs, nomin=a.nomin))
        if a.cmd == "replay":
            sys.exit(replay(a.args[0]))
        if a.cmd == "setup":  # nothing to build: shows that the simulator starts here
            for w in start(1, a.seed):
                w.kill()
            print("ready")
            sys.exit(0)
        from .core import PROPS

        sys.exit(selftest(a.args or PROPS, a.runs or 40, a.seed))
    except Failure as e:
        print("HARNESS ERROR:", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
