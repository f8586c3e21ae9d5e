"""C14: compilation state never changes a result."""

import json

import numpy as np

from .. import core, lib, ref
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 200, "thorough": 4000}
RULE = (
    "histories of calls with repeated shapes and equal-looking arguments (scenes with other coordinates, filters and "
    "functions that compare equal or change their behaviour between calls, one option mapping changed between calls), "
    "compiled or not per call and per iterator step, with compiled code evicted before calls and between steps, by one "
    "to three interleaved callers, with failing first calls. Every answer is judged by the reference model; the same "
    "call in the same mode must give the same bits. Non-trivial: a call repeated shapes of an earlier one or code was "
    "evicted."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox, optax (their compilation caches are the system under test)"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]


def CLEAR(plan):
    return True


def vary(rng, name, p):
    """A call of the same structure with other values."""
    if "scene" not in p:
        return lib.OPS[name].gen(rng)
    p = json.loads(json.dumps(p))
    sc = p["scene"]
    if name == "stochastic_paths":
        if rng.random() < 0.6:
            # nothing but the number of steps changes
            p["steps"] = rng.choice([x for x in (2, 4, 7) if x != p["steps"]])
            return p
        p["steps"], p["many"] = rng.choice([2, 4, 7]), rng.choice([1, 2])
        if rng.random() < 0.5:
            p["key"] = rng.randrange(1 << 20)
        for side in ("tx", "rx"):
            sc[side] = [[n, lib.r_node(rng)] for n, _ in sc[side]]
        return p
    if rng.random() < 0.7:
        for side in ("tx", "rx"):
            sc[side] = [[n, lib.r_node(rng)] for n, _ in sc[side]]
    if rng.random() < 0.6:
        sc["objects"] = [
            {**lib.r_object(rng, o["t"]), **({"hook": 1} if o.get("hook") else {})} for o in sc["objects"]
        ]
        if rng.random() < 0.3:
            rng.shuffle(sc["objects"])
    if rng.random() < 0.15:
        # the same names the other way round
        sc["tx"], sc["rx"] = ([[a, x] for (a, _), (_, x) in zip(s[::-1], s)] for s in (sc["tx"], sc["rx"]))
    if "filter" in p and rng.random() < 0.7:
        p["filter"] = rng.choice(["none", "walls", "left", "not_vertex", "nothing", "left"])
    if "ord" in p and rng.random() < 0.2:
        p["ord"] = rng.choice([{}, {"order": 1}, {"order": 0}, {"min_order": 1, "max_order": 1}, {"max_order": 0}])
    if "fun" in p and rng.random() < 0.6:
        for k in ("fargs", "fkw"):
            p.pop(k, None)
        lib.r_fun(rng, p)
    if p.get("cls") in ("Quarter", "Shifted") and rng.random() < 0.6:
        p["cls"] = rng.choice(["Quarter", "Shifted"])
    for k in ("tol", "patch"):
        if k in p and rng.random() < 0.3:
            del p[k]
    if "alpha" in p and rng.random() < 0.5:
        p["alpha"] = rng.choice([1.0, 5.0, 50.0])
    if name == "accumulate" and rng.random() < 0.4:
        p.pop("outer", None)
        if rng.random() < 0.3:
            p["outer"] = rng.choice(["jit", "vmap", "grad"])
    if "xs" in p and rng.random() < 0.5:
        p["xs"] = [rng.randrange(1, 64, 2) / 64.0 for _ in p["xs"]]
    return p


def far(o, q):
    """Whether a point is clearly off the line of a wall."""
    return abs(float(np.dot(ref.normal(o), np.array(q) - np.array(o["xy"][0])))) > 0.05


def ignored_steps(p, a, b):
    """Two results of calls that differ in nothing but the number of steps: is no path of a kind that the steps must
    move any different?"""
    sc = p["scene"]
    tx, rx = dict(map(tuple, sc["tx"])), dict(map(tuple, sc["rx"]))
    n = 0
    for x, y in zip(a, b):
        objs = [sc["objects"][i] for i in x[5]]
        if len(objs) != 1 or objs[0]["t"] == "vertex" or x[5] != y[5]:
            continue
        if not (far(objs[0], tx[x[0]]) and far(objs[0], rx[x[1]])):
            continue
        if not (np.isfinite(x[3]).all() and np.isfinite(y[3]).all()):
            continue
        if not np.array_equal(x[3], y[3]):
            return 0
        # a node mirrored onto the other gives a flat loss of 4
        n += all(z[4] < 3.9 for z in (x, y)) if p["cls"] == "MinPath" and objs[0]["t"] == "wall" else 0
    return n


ITER = ["all_paths", "accumulate", "grid"]


def r_family(rng):
    name = rng.choice(["candidates"] * 4 + ["all_paths"] * 3 + ["accumulate"] * 4 + ["grid"] * 2
                      + ["query", "logic", "segments_intersect", "object", "path_verdict", "minimise",
                         "stochastic_paths"])
    p = lib.OPS[name].gen(rng)
    if name == "grid":
        p["xs"], p["ys"] = p["xs"][:2], p["ys"][:2]
        p["scene"]["objects"] = p["scene"]["objects"][:2]
    if name == "candidates":
        p["scene"]["objects"] = p["scene"]["objects"][:4]
    if name == "accumulate" and rng.random() < 0.25:
        p["outer"] = rng.choice(["jit", "jit", "vmap", "grad"])
    if "cls" in p and rng.random() < 0.3 and name not in ("grid", "stochastic_paths"):
        p["cls"] = "Quarter"
    return name, p


def gen(rng, tier):
    n = rng.choice([1, 1, 1, 2, 3])
    fams = []
    for _ in range(rng.choice([1, 1, 2])):
        name, p = r_family(rng)
        fams.append([name, [p, *[vary(rng, name, p) for _ in range(rng.choice([1, 2, 3]))]]])
    eager_only = rng.random() < 0.1
    actors = []
    for _ in range(n):
        a = []
        for _ in range(rng.choice([3, 4, 6]) if n == 1 else rng.choice([2, 3])):
            f = rng.randrange(len(fams))
            s = {"f": f, "v": rng.randrange(len(fams[f][1])), "approx": rng.choice([False, False, True]),
                 "mode": "eager" if eager_only or rng.random() < 0.15 else "jit"}
            z = rng.random()
            if z < 0.15:
                s["evict"] = True if n > 1 or rng.random() < 0.6 else "restart"
            elif z < 0.22:
                s["fault"] = core.r_interrupt(rng)
            if rng.random() < 0.3:
                s["fresh"] = rng.choice([True, "closure"])
            if fams[f][0] in ITER and rng.random() < 0.35:
                s["steps"] = [rng.choice(["jit", "jit", "eager", "evict"]) for _ in range(rng.choice([2, 3, 5]))]
            a.append(s)
        actors.append(a)
    for f, (name, vs) in enumerate(fams):
        if name == "stochastic_paths":
            vs.append({**vs[0], "steps": 7 if vs[0]["steps"] != 7 else 2})
            s = {"f": f, "approx": rng.random() < 0.5, "mode": "jit"}
            actors[0] += [{**s, "v": 0}, {**s, "v": len(vs) - 1}]
    # "late": answers are judged at the end, so that the values of one call are freed right before the next
    return {"fams": fams, "actors": actors, "sched": core.r_sched(rng, n), "late": rng.random() < 0.6,
            "recycle": rng.random() < 0.8}


def iterator(name, p, approx):
    scene = lib.build_scene(p["scene"])
    if name == "grid":
        q = {**p, "reduce": False}
        return q, iter(lib.grid_call(q, approx, scene, lib.lib_fun(p["fun"]))), lambda e: [e[0], lib.grid_arrays(e[1])]
    kw = lib.trace_kwargs(p, approx)
    if name == "accumulate":
        q = {**p, "reduce": False}
        it = scene.accumulate_over_paths(lib.lib_fun(p["fun"]), **kw, **lib.fun_kwargs(p))
        return q, iter(it), lambda e: [e[0], e[1], lib.num(e[2])]
    if p["valid"]:
        return p, iter(scene.all_valid_paths(**kw)), lambda e: [
            e[0], e[1], None, lib.num(e[2].xys), float(e[2].loss), [int(i) for i in e[3]]]
    return p, iter(scene.all_paths(**kw)), lambda e: [
        e[0], e[1], lib.verdict(e[2]), lib.num(e[3].xys), float(e[3].loss), [int(i) for i in e[4]]]


def execute(plan, rec):
    sim = rec.sim()
    first = {}
    late = []

    def stepped(a, s, name, p):
        """An iterator whose steps run in different modes, with evictions in between."""
        out = []
        modes = list(s["steps"])
        with core.op(sim, a, "jit"):
            q, it, conv = iterator(name, p, s["approx"])
        k = 0
        while True:
            m = modes[k % len(modes)]
            k += 1
            if m == "evict":
                core.clear_caches()
                rec.fault("compiled code evicted between steps")
                m = "jit"
            with lib.mode_ctx(m), lib.hook(lambda t, *x: sim.point(t)), core.op(sim, a, m):
                try:
                    e = next(it)
                except StopIteration:
                    break
                out.append(conv(e))
        rec.probe("iterator steps in several modes", k)
        return q, out

    def run(a, body):
        c = lib.Callables()
        for s in body:
            name, vs = plan["fams"][s["f"]]
            p = vs[s["v"]]
            c.fresh = s.get("fresh", False)
            if s.get("evict") == "restart" and len(plan["actors"]) == 1:
                core.restart()
                rec.fault("process restarted")
                rec.nontrivial = True
            elif s.get("evict"):
                core.clear_caches()
                rec.fault("compiled code evicted")
                rec.nontrivial = True
            what = f"caller {a.idx}: {s['mode']} {name}"
            try:
                if "steps" in s:
                    fixed = lib.Callables()
                    fixed.fresh = True
                    with lib.callables(fixed):
                        p, r = stepped(a, s, name, p)
                else:
                    with lib.callables(c), lib.mode_ctx(s["mode"]), lib.hook(lambda t, *x: sim.point(t)), core.op(
                        sim, a, s["mode"], s.get("fault"),
                    ):
                        r = lib.OPS[name].call(p, s["approx"], None)
            except BaseException as e:
                core.guard(e, what)
                rec.fault("call aborted")
                continue
            if plan.get("late"):
                late.append((name, p, s["approx"], r, what + ": "))
            else:
                core.judge(name, p, s["approx"], r, what + ": ")
            rec.probe(f"{s['mode']} {name}")
            if "steps" in s:
                continue
            k = (s["f"], s["v"], s["mode"], s["approx"])
            if k in first:
                if not lib.same(first[k], r):
                    raise Violation(
                        "depends-on-history", f"{what}: {lib.show(first[k], 500)} first, {lib.show(r, 500)} later"
                    )
                rec.probe("same call again")
            if any(j[0] == k[0] for j in first):
                rec.nontrivial = True
            first[k] = r

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
    with lib.recycling({} if plan.get("recycle") else None):
        core.run_sim(sim, rec)
    for j in late:
        core.judge(*j)
    for k, r in first.items():
        name, vs = plan["fams"][k[0]]
        if name != "stochastic_paths":
            continue
        for j, q in first.items():
            if j[0] != k[0] or j[2:] != k[2:]:
                continue
            a, b = vs[k[1]], vs[j[1]]
            if a["steps"] < b["steps"] and {**a, "steps": 0} == {**b, "steps": 0}:
                rec.probe("calls differing in the number of steps only")
                if ignored_steps(a, r, q):
                    raise Violation(
                        "options-ignored", f"{name}: the same paths with {a['steps']} and {b['steps']} steps: {lib.show(r, 400)}"
                    )
    for k in sorted(first, key=str):
        rec.result([list(map(str, k)), first[k]])


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("evict", "fresh", "steps", "fault"):
                if k in s:
                    q = json.loads(json.dumps(plan))
                    del q["actors"][i][j][k]
                    yield q


assert simmod
