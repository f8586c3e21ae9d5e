"""C03: without an explicit choice the default in force is honoured."""

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 900, "thorough": 9000}
NJIT = {"quick": 96, "thorough": 1500}
RULE = (
    "a caller thread runs operations of the whole API without a choice inside (nested) scopes, after scopes left by "
    "exceptions, after the default was changed and changed back, in callbacks-nested scopes, un-jitted or compiled for "
    "the first time since the caches were cleared, while other threads keep trying to change the default; answers are "
    "judged against a float64 reference model under the default in force. Non-trivial: another thread ran, an exception "
    "left a scope, or a callback nested a scope."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox", "real threads, one released at a time"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]
EXC = ["SimInterrupt", "SimError", "KeyboardInterrupt", "ValueError", "GeneratorExit"]


def CLEAR(plan):
    return plan["jit"]


def r_call(rng, jit):
    name = lib.pick(rng, maxcost=3.5 if rng.random() < 0.9 else 99, truthy=True)
    tiny = rng.random() < 0.08
    if tiny:
        name = "grid"
    c = {"op": "call", "name": name, "p": lib.OPS[name].tiny(rng) if tiny else lib.OPS[name].gen(rng), "mode": "jit" if jit and rng.random() < 0.8 else "eager"}
    if rng.random() < 0.3:
        c["nest"] = sorted(rng.sample(range(1, 7), rng.choice([1, 2])))
    if rng.random() < 0.15:
        c["fail"] = rng.randrange(1, 7)
        c["exc"] = rng.choice(simmod.FAILURES)
    return c


def r_body(rng, jit, n, depth=0):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.55:
            out.append(r_call(rng, jit))
        elif k < 0.8 and depth < 3:
            s = {"op": "scope", "enable": rng.random() < 0.5, "form": rng.choice(["with", "deco", "disable"]),
                 "body": r_body(rng, jit, rng.choice([0, 1, 1]), depth + 1)}
            if rng.random() < 0.4:
                s["raise"] = rng.choice(EXC)
            out.append(s)
        else:
            out.append({"op": "set", "enable": rng.random() < 0.5})
    return out


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    n = rng.choice([1, 2, 2, 3])
    main = []
    for _ in range(rng.choice([1, 1, 2])):
        main.append({"op": "scope", "enable": rng.random() < 0.5, "form": rng.choice(["with", "deco", "disable"]),
                     "body": r_body(rng, jit, rng.choice([1, 2, 3]), 1)})
    if n == 1:
        # nobody else: the plain default counts as well
        main = r_body(rng, jit, rng.choice([2, 3]), 0)
    actors = [main]
    for _ in range(n - 1):
        actors.append([{"op": rng.choice(["set", "set", "scope"]), "form": "with", "enable": rng.random() < 0.5, "body": []}
                       for _ in range(rng.choice([3, 8, 15]))])
    return {"actors": actors, "base": rng.random() < 0.5, "jit": jit, "sched": core.r_sched(rng, n)}


def execute(plan, rec):
    L = lib.L
    L.ENABLE_APPROX = plan["base"]
    sim = rec.sim()
    alone = len(plan["actors"]) == 1
    state = {"on": plan["base"], "depth": 0}  # default in force for the main caller

    def hooks(s):
        n = [0]

        def h(tag, *args):
            n[0] += 1
            sim.point(tag)
            if n[0] in s.get("nest", ()):
                sim.count("scope nested in a callback")
                with L.enable_approx(not state["on"]):
                    sim.point("nested")
            if n[0] == s.get("fail"):
                sim.count("callback failed")
                raise simmod.make_exc(s.get("exc", "SimError"))

        return h

    def call(a, s):
        if s["mode"] == "jit":
            core.clear_caches()
        try:
            with lib.hook(hooks(s)), core.op(sim, a, s["mode"]):
                r = core.call(s["name"], s["p"], None, s["mode"])
        except BaseException as e:
            if not simmod.is_injected(e):
                raise
            return
        rec.result(r)
        rec.probe(f"{s['mode']} {'on' if state['on'] else 'off'} depth {state['depth']}")
        core.judge(s["name"], s["p"], state["on"], r, f"{s['mode']} under default {state['on']}: ")

    def run(a, body, main):
        for s in body:
            if s["op"] == "call":
                if alone or state["depth"]:
                    call(a, s)
            elif s["op"] == "set":
                with core.op(sim, a, "flag"):
                    L.set_approx(s["enable"])
                if main:
                    state["on"] = s["enable"]
            else:
                scope(a, s, main)

    def scope(a, s, main):
        old = state["on"]

        def inside():
            a.live = False
            if main:
                state["on"] = False if s["form"] == "disable" else s["enable"]
                state["depth"] += 1
            try:
                run(a, s["body"], main)
                if s.get("raise"):
                    raise simmod.make_exc(s["raise"])
            finally:
                if main:
                    state["on"] = old
                    state["depth"] -= 1
                a.live = True

        try:
            with core.op(sim, a, "flag"):
                if s["form"] == "deco":
                    L.enable_approx(s["enable"])(inside)()
                else:
                    with L.disable_approx() if s["form"] == "disable" else L.enable_approx(s["enable"]):
                        inside()
        except BaseException as e:
            if isinstance(e, (simmod.SimAbort, Violation)) or not simmod.is_injected(e):
                raise
            rec.fault("scope left by " + s["raise"])

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body, i=i: run(a, body, i == 0))
    core.run_sim(sim, rec)
    L.ENABLE_APPROX = False


shrink = core.generic_shrink
