"""C12: concurrent callers get the results they would get alone."""

import json

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 200, "thorough": 5000}
NJIT = {"quick": 32, "thorough": 1500}
RULE = (
    "two to four callers use the same scenes, objects, callables and option mappings at the same time, in compiled and "
    "uncompiled calls, exact and approximate, under seeded interleavings of single library lines, with first calls that "
    "compile, evictions, raising callbacks and interrupts of single callers; every answer is judged by the reference "
    "model and compared, bit by bit, to the answer of the same call made alone afterwards. Non-trivial: two calls overlapped."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox, optax"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]


def CLEAR(plan):
    return plan["jit"]


def r_family(rng, n, heavy):
    """Calls that use one scene."""
    base = lib.r_tracing(rng, hi=rng.choice([1, 1, 2]), small=True)
    out = []
    while len(out) < n:
        k = rng.choice(["all_paths"] * 3 + ["accumulate"] * 2 + ["candidates", "query", "query"] + ["grid"] * heavy)
        p = lib.OPS[k].gen(rng)
        p["scene"] = base["scene"]
        if "cls" in p:
            p["cls"] = base["cls"]
        if k == "query":
            p["i"] = rng.randrange(len(base["scene"]["objects"]))
            if p["fn"] == "stack" and (len({o["t"] for o in base["scene"]["objects"]}) > 1
                                       or any(o.get("hook") for o in base["scene"]["objects"])):
                p["fn"] = "center"
            if p["fn"] == "get_object" and any(o.get("hook") for o in base["scene"]["objects"]):
                p["fn"] = "bbox"
            if any(o["t"] == "vertex" for o in base["scene"]["objects"]) and p["fn"] == "get_object":
                p["fn"] = "grid"
        out.append([k, p])
    return out


def r_pool(rng, n, heavy=1):
    out = r_family(rng, max(1, n - 1), heavy)
    while len(out) < n:
        k = lib.pick(rng, maxcost=3.5)
        out.append([k, lib.OPS[k].gen(rng)])
    return out


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    n = rng.choice([2, 2, 2, 3, 3, 4])
    pool = r_pool(rng, rng.choice([1, 2, 3]))
    actors = []
    for _ in range(n):
        a = []
        for _ in range(rng.choice([1, 1, 2] if n > 2 else [1, 2, 2, 3])):
            s = {"i": rng.randrange(len(pool)), "mode": "jit" if jit and rng.random() < 0.85 else "eager",
                 "approx": rng.choice([False, False, True, None])}
            if rng.random() < 0.12:
                s["fault"] = rng.choice([{"kind": "raise", "exc": rng.choice(simmod.FAILURES), "at": rng.choice([1, 1, 2, 3, 8])}, core.r_interrupt(rng)])
            elif jit and rng.random() < 0.1:
                s["evict"] = True
            a.append(s)
        actors.append(a)
    if rng.random() < 0.3:
        # everybody does the same
        actors = [json.loads(json.dumps(actors[0])) for _ in actors]
    return {"pool": pool, "actors": actors, "jit": jit, "sched": core.r_sched(rng, n)}


def hooks(sim, fault):
    left = [fault["at"] if fault and fault["kind"] == "raise" else 0]

    def h(tag, *x):
        sim.point(tag)
        left[0] -= 1
        if left[0] == 0:
            sim.count(f"{tag} callback raises")
            raise simmod.make_exc(fault.get("exc", "SimError"))

    return h


def exact(approx):
    return bool(approx)


def execute(plan, rec):
    sim = rec.sim()
    got = []
    running = [0]

    def run(a, body):
        for s in body:
            name, p = plan["pool"][s["i"]]
            f = s.get("fault")
            if s.get("evict"):
                core.clear_caches()
                rec.fault("compiled code evicted")
            running[0] += 1
            if running[0] > 1:
                rec.nontrivial = True
            try:
                with lib.hook(hooks(sim, f)), core.op(
                    sim, a, s["mode"], f if f and f["kind"] == "interrupt" else None,
                ):
                    r = core.call(name, p, s["approx"], s["mode"], f"caller {a.idx}: ")
            except BaseException as e:
                core.guard(e, name)
                rec.fault("call aborted")
                continue
            finally:
                running[0] -= 1
            rec.probe(s["mode"] + " " + name)
            core.judge(name, p, exact(s["approx"]), r, f"caller {a.idx}: {s['mode']} ")
            got.append([a.idx, s, r])

    with lib.sharing():
        for i, body in enumerate(plan["actors"]):
            sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
        core.run_sim(sim, rec)
        unchanged()
        alone = {}
        for idx, s, r in got:
            name, p = plan["pool"][s["i"]]
            k = (s["i"], s["mode"], exact(s["approx"]))
            if k not in alone:
                alone[k] = core.call(name, p, s["approx"], s["mode"], "alone: ")
                rec.result([list(map(str, k)), alone[k]])
            if not lib.same(r, alone[k]):
                raise Violation(
                    "differs-from-alone",
                    f"caller {idx}: {s['mode']} {name} (approx={s['approx']}): {lib.show(r, 500)}, "
                    f"but {lib.show(alone[k], 500)} alone",
                )


def unchanged():
    try:
        lib.check_shared()
    except lib.Bad as e:
        raise Violation("shared-value-changed", str(e)) from None


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            if "evict" in s:
                q = json.loads(json.dumps(plan))
                del q["actors"][i][j]["evict"]
                yield q
