"""C11: a failed or interrupted call leaves nothing behind."""

import json

from .. import core, lib
from .. import sim as simmod
from ..core import Violation
from .c12 import exact, r_pool, unchanged

RUNS = {"quick": 300, "thorough": 6000}
NJIT = {"quick": 56, "thorough": 2000}
RULE = (
    "histories of calls on shared scenes in which calls fail: a user function, filter, custom object or path method "
    "raises at its n-th use, an interrupt arrives at a library line, an iterator is abandoned or closed half-way, inside "
    "and outside approximation scopes, alone or next to other callers. Afterwards defaults, locks, scenes, objects and "
    "mappings must be as before, and the same and other calls must answer as the reference model and a history without "
    "failures do. Non-trivial: a fault was delivered inside a call."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox, optax"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]
EXCS = ["KeyboardInterrupt", "SystemExit", "GeneratorExit", "RecursionError", *simmod.FAILURES]


def CLEAR(plan):
    return plan["jit"]


def r_fault(rng):
    k = rng.random()
    if k < 0.5:
        return core.r_interrupt(rng)
    if k < 0.85:
        return {"kind": "raise", "at": rng.choice([1, 1, 2, 3, 5, 9, 17]), "exc": rng.choice(EXCS)}
    return {"kind": "abandon", "at": rng.randrange(0, 4), "how": rng.choice(["close", "drop", "throw", "hold"])}


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    n = rng.choice([1, 1, 1, 2, 2, 3])
    pool = r_pool(rng, rng.choice([1, 1, 2]))
    actors = []
    for _ in range(n):
        a = []
        for _ in range(rng.choice([1, 2, 3]) if n == 1 else rng.choice([1, 1, 2])):
            s = {"i": rng.randrange(len(pool)), "mode": "jit" if jit and rng.random() < 0.85 else "eager",
                 "approx": rng.choice([False, False, True, None] if n == 1 else [False, True])}
            if rng.random() < (0.8 if n == 1 else 0.6):
                s["fault"] = r_fault(rng)
                s["retry"] = rng.random() < 0.6
            if rng.random() < 0.2:
                s["scope"] = rng.random() < 0.5
            a.append(s)
        actors.append(a)
    return {"pool": pool, "actors": actors, "jit": jit, "sched": core.r_sched(rng, n)}


def hooks(sim, fault):
    left = [fault["at"] if fault and fault["kind"] == "raise" else 0]

    def h(tag, *x):
        sim.point(tag)
        left[0] -= 1
        if left[0] == 0:
            sim.count(f"{tag} callback raises {fault['exc']}")
            raise simmod.make_exc(fault["exc"])

    return h


def iterate(name, p, approx, k, how, kept):
    """Consumes ``k`` entries of an iterator, then leaves it."""
    scene = lib.build_scene(p["scene"])
    kw = lib.trace_kwargs(p, approx)
    if name == "all_paths":
        it = iter(scene.all_valid_paths(**kw) if p["valid"] else scene.all_paths(**kw))
    elif name == "accumulate":
        it = iter(scene.accumulate_over_paths(lib.lib_fun(p["fun"]), **kw, **lib.fun_kwargs(p)))
    else:
        it = iter(lib.grid_call({**p, "reduce": False}, approx, scene, lib.lib_fun(p["fun"])))
    for _ in range(k):
        try:
            next(it)
        except StopIteration:
            return
    if how == "close":
        if hasattr(it, "close"):
            it.close()
    elif how == "throw":
        if hasattr(it, "throw"):
            try:
                it.throw(simmod.make_exc("SimError"))
            except simmod.SimError:
                pass
    elif how == "hold":
        kept.append(it)


def execute(plan, rec):
    sim = rec.sim()
    L = lib.L
    got = []
    kept = []
    alone_only = len(plan["actors"]) == 1

    def attempt(a, s, fault):
        name, p = plan["pool"][s["i"]]
        f = fault or {}
        if "scope" in s:
            with L.enable_approx(s["scope"]):
                return inner(a, s, fault, name, p, f)
        return inner(a, s, fault, name, p, f)

    def inner(a, s, fault, name, p, f):
        approx = exact(s["approx"]) if "scope" in s else s["approx"]
        with lib.mode_ctx(s["mode"]), lib.hook(hooks(sim, fault)), core.op(
            sim, a, s["mode"], f if f.get("kind") == "interrupt" else None,
        ):
            if f.get("kind") == "abandon" and name in ("all_paths", "accumulate", "grid"):
                iterate(name, p, approx, f["at"], f["how"], kept)
                sim.count("iterator " + f["how"])
                return None
            return lib.OPS[name].call(p, approx, None)

    def one(a, s, fault, what):
        name, p = plan["pool"][s["i"]]
        approx = exact(s["approx"])
        before = L.ENABLE_APPROX
        r = None
        try:
            r = attempt(a, s, fault)
        except BaseException as e:
            core.guard(e, f"{what}{s['mode']} {name}")
            if fault is None:
                raise Violation("raised", f"{what}{name}: raised {e!r} although no fault was delivered") from e
            rec.fault("call aborted")
            rec.nontrivial = True
        if alone_only:
            if L.ENABLE_APPROX is not before:
                raise Violation("default-changed", f"{what}{name}: the default is {L.ENABLE_APPROX!r}, it was {before!r}")
            for lock in simmod.LIB_LOCKS:
                if lock.owner is not None:
                    raise Violation("lock-leaked", f"{what}{name}: a lock is still held")
            unchanged()
        if r is not None:
            core.judge(name, p, approx, r, f"{what}{s['mode']} ")
            got.append([s, r])

    def run(a, body):
        for s in body:
            one(a, s, s.get("fault"), f"caller {a.idx}: ")
            if s.get("retry"):
                one(a, {k: v for k, v in s.items() if k != "scope"}, None, f"caller {a.idx}, again: ")
                rec.probe("called again")

    with lib.sharing():
        for i, body in enumerate(plan["actors"]):
            sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
        core.run_sim(sim, rec)
        core.check_quiescent()
        unchanged()
        # every call once more, with no fault
        after = {}
        for s in [s for b in plan["actors"] for s in b]:
            name, p = plan["pool"][s["i"]]
            k = (s["i"], s["mode"], exact(s["approx"]))
            if k not in after:
                after[k] = core.call(name, p, s["approx"], s["mode"], "afterwards: ")
                core.judge(name, p, exact(s["approx"]), after[k], f"afterwards: {s['mode']} ")
                rec.result([list(map(str, k)), after[k]])
        for s, r in got:
            k = (s["i"], s["mode"], exact(s["approx"]))
            if not lib.same(r, after[k]):
                raise Violation(
                    "history-dependent",
                    f"{s['mode']} {plan['pool'][s['i']][0]}: {lib.show(r, 500)} and {lib.show(after[k], 500)}",
                )
        if plan["jit"]:
            # the same calls as if nothing had ever been called before
            core.clear_caches()
            for k in sorted(after, key=str)[:2]:
                name, p = plan["pool"][k[0]]
                r = core.call(name, p, k[2], k[1], "fresh: ")
                if not lib.same(r, after[k]):
                    raise Violation(
                        "history-dependent",
                        f"{k[1]} {name}: {lib.show(after[k], 500)} after the history, {lib.show(r, 500)} without",
                    )
        del kept[:]


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("retry", "scope", "fault"):
                if k in s:
                    q = json.loads(json.dumps(plan))
                    del q["actors"][i][j][k]
                    yield q
