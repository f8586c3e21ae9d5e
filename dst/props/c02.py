"""C02: an explicit exact/approximate choice overrides the process-wide default."""

from .. import core, lib
from .. import sim as simmod

RUNS = {"quick": 1000, "thorough": 9000}
NJIT = {"quick": 96, "thorough": 1500}
RULE = (
    "1-3 caller threads run operations of the whole API with an explicit choice (alone or compiled) while the "
    "process-wide default is set, scoped and flipped by the same thread, by other threads and by user callbacks in the "
    "middle of the calls, and compiled code is evicted; every answer is judged against a float64 reference model under "
    "the explicit choice. Non-trivial: a switch inside an operation, or a default changed during a call."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox", "real threads, one released at a time"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]


def CLEAR(plan):
    return plan["jit"]


def r_call(rng, jit):
    name = lib.pick(rng, maxcost=3.5 if rng.random() < 0.9 else 99, truthy=True)
    tiny = rng.random() < 0.08
    if tiny:
        name = "grid"
    p = lib.OPS[name].tiny(rng) if tiny else lib.OPS[name].gen(rng)
    c = {"op": "call", "name": name, "p": p, "approx": rng.random() < 0.5,
         "mode": "jit" if jit and rng.random() < 0.85 else "eager"}
    if rng.random() < 0.5:
        c["flip"] = sorted(rng.sample(range(1, 9), rng.choice([1, 2, 3])))
        c["how"] = rng.choice(["set", "scope"])
    return c


def r_body(rng, jit, n, depth=0):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.6:
            out.append(r_call(rng, jit))
        elif k < 0.78 and depth < 2:
            out.append({"op": "scope", "enable": rng.random() < 0.5, "body": r_body(rng, jit, rng.choice([1, 1, 2]), depth + 1)})
        elif k < 0.92 or not jit:
            out.append({"op": "set", "enable": rng.random() < 0.5})
        else:
            out.append({"op": "evict"})
    return out


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    n = rng.choice([1, 2, 2, 3])
    actors = [r_body(rng, jit, rng.choice([1, 2, 3])) for _ in range(n)]
    if n > 1:
        # one thread does nothing but change the default
        actors[-1] = [{"op": "set", "enable": rng.random() < 0.5} if rng.random() < 0.7 else
                      {"op": "scope", "enable": rng.random() < 0.5, "body": []} for _ in range(rng.choice([4, 10, 20]))]
    return {"actors": actors, "base": rng.random() < 0.5, "jit": jit, "sched": core.r_sched(rng, n)}


def execute(plan, rec):
    L = lib.L
    L.ENABLE_APPROX = plan["base"]
    sim = rec.sim()

    def flipper(s, n=[0]):
        n = [0]

        def h(tag, *args):
            n[0] += 1
            sim.point(tag)
            if n[0] in s["flip"]:
                sim.count("default flipped in a callback")
                if s["how"] == "set":
                    L.set_approx(not L.ENABLE_APPROX)
                else:
                    with L.enable_approx(not L.ENABLE_APPROX):
                        pass

        return h

    def run(a, body):
        for s in body:
            if s["op"] == "call":
                before = L.ENABLE_APPROX
                with lib.hook(flipper(s) if "flip" in s else lambda t, *x: sim.point(t)), \
                        core.op(sim, a, s["mode"]):
                    r = core.call(s["name"], s["p"], s["approx"], s["mode"])
                rec.result(r)
                rec.probe(s["mode"])
                rec.probe("opposite default" if before != s["approx"] else "same default")
                if L.ENABLE_APPROX != before:
                    rec.probe("default changed during the call")
                    rec.nontrivial = True
                core.judge(s["name"], s["p"], s["approx"], r, f"actor {a.idx}: {s['mode']} ")
            elif s["op"] == "scope":
                with core.op(sim, a, "flag"):
                    cm = L.enable_approx(s["enable"])
                    cm.__enter__()
                try:
                    run(a, s["body"])
                finally:
                    with core.op(sim, a, "flag"):
                        cm.__exit__(None, None, None)
            elif s["op"] == "set":
                with core.op(sim, a, "flag"):
                    L.set_approx(s["enable"])
            else:
                core.clear_caches()
                rec.fault("compiled code evicted")

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
    core.run_sim(sim, rec)
    L.ENABLE_APPROX = False


shrink = core.generic_shrink
assert simmod
