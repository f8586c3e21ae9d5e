"""C04: path iterators deliver each candidate exactly once from their own snapshot."""

import json

import numpy as np

from .. import core, lib, ref
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 400, "thorough": 9000}
NJIT = {"quick": 48, "thorough": 1200}
RULE = (
    "several iterators over paths or valid paths of shared scenes (walls, RIS, vertices, user walls and path methods, "
    "object filters, orders 0-3) are opened, advanced from any thread, abandoned, closed, killed by a failing callback "
    "or an interrupt, while scenes are derived; everything each iterator yielded is judged against an enumeration and "
    "float64 path model. Non-trivial: two iterators interleaved, or one abandoned, closed or killed."
)
REAL = ["differt2d (all of it)", "differt_core path enumeration", "JAX, XLA, equinox"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]


def CLEAR(plan):
    return plan["jit"]


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    scenes = []
    its = []
    nit = rng.choice([1, 2, 2, 3, 4])
    big = rng.random() < 0.15
    for i in range(nit):
        if scenes and rng.random() < 0.6:
            base = scenes[rng.randrange(len(scenes))]
        else:
            p = lib.r_tracing(rng, ntx=rng.choice([0, 1, 1, 1, 2, 2]), nrx=rng.choice([0, 1, 1, 2, 2, 3]), hi=2)
            base = p["scene"]
            scenes.append(base)
        kinds = {o["t"] for o in base["objects"]}
        hooks = {o.get("hook", 0) for o in base["objects"] if o["t"] == "wall"}
        p = lib.r_tracing(rng, 0, 0)
        del p["scene"]
        if len(kinds) > 1 or len(hooks) > 1 or "vertex" in kinds:
            p["cls"] = rng.choice(["Path", "Quarter"])
        n = len(base["objects"])
        p["ord"] = lib.r_order(rng, n, 3 if n <= 2 or big else 2 if n <= 3 else 1)
        its.append({"scene": scenes.index(base), "p": p, "valid": rng.random() < 0.4, "approx": rng.random() < 0.5,
                    "mode": "jit" if jit and rng.random() < 0.85 else "eager"})
    n = rng.choice([1, 1, 2, 2, 3])
    actors = []
    for k in range(n):
        a = []
        for _ in range(rng.choice([3, 6, 10])):
            i = rng.randrange(nit)
            q = rng.random()
            if q < 0.72:
                s = {"op": "next", "it": i, "n": rng.choice([1, 1, 2, 3, 6])}
                z = rng.random()
                if z < 0.08:
                    s["fault"] = core.r_interrupt(rng, 300)
                elif z < 0.16:
                    s["fail"] = rng.randrange(1, 5)
                    s["exc"] = rng.choice(simmod.FAILURES)
                a.append(s)
            elif q < 0.78:
                a.append({"op": "close", "it": i})
            elif q < 0.84:
                a.append({"op": "drop", "it": i})
            elif q < 0.9:
                a.append({"op": "drain", "it": i})
            elif q < (0.94 if jit else 0.91):
                a.append(core.r_fleeting(rng, "all_paths", jit))
            else:
                a.append({"op": "derive", "it": i, "how": rng.choice(["tx", "rx", "objects", "filter", "add"])})
        actors.append(a)
    return {"scenes": scenes, "its": its, "actors": actors, "jit": jit, "drain": rng.random() < 0.6,
            "recycle": rng.random() < 0.5, "sched": core.r_sched(rng, n)}


def execute(plan, rec):
    sim = rec.sim()
    scenes = [lib.build_scene(s) for s in plan["scenes"]]

    class It:
        pass

    its = []
    for d in plan["its"]:
        t = It()
        t.d, t.gen, t.busy, t.got, t.state = d, None, False, [], "new"
        t.p = {**d["p"], "scene": plan["scenes"][d["scene"]]}
        its.append(t)

    def entry(t, e):
        if t.d["valid"]:
            tx, rx, path, c = e
            return [tx, rx, None, lib.num(path.xys), float(path.loss), [int(i) for i in c]]
        tx, rx, v, path, c = e
        return [tx, rx, lib.verdict(v), lib.num(path.xys), float(path.loss), [int(i) for i in c]]

    def open_(t):
        s = scenes[t.d["scene"]]
        kw = lib.trace_kwargs(t.p, t.d["approx"])
        t.gen = (s.all_valid_paths if t.d["valid"] else s.all_paths)(**kw)
        t.state = "open"

    def hooks(s):
        n = [0]

        def h(tag, *args):
            n[0] += 1
            sim.point(tag)
            if n[0] == s.get("fail"):
                sim.count("callback failed")
                raise simmod.make_exc(s.get("exc", "SimError"))

        return h

    def advance(a, t, s, n):
        """Up to ``n`` entries; the iterator is held by this caller meanwhile."""
        if t.busy or t.state in ("closed", "dropped", "dead"):
            return
        t.busy = True
        last[0] = t
        try:
            for _ in range(n):
                what = f"iterator {its.index(t)}"
                try:
                    with lib.mode_ctx(t.d["mode"]), lib.hook(hooks(s)), core.op(sim, a, t.d["mode"], s.get("fault")):
                        if t.state == "new":
                            open_(t)
                        e = next(t.gen)
                except StopIteration:
                    if t.state != "done":
                        t.state = "done"
                        rec.probe("exhausted")
                    with core.op(sim, a, t.d["mode"]):
                        if next(t.gen, None) is not None:
                            raise Violation("resurrected", f"{what} yields again after its end")
                    return
                except BaseException as e:
                    core.guard(e, what)
                    t.state = "dead"
                    rec.fault("iterator killed")
                    return
                t.got.append(entry(t, e))
                rec.result(t.got[-1])
                if prev[0] is not None and prev[0] is not t:
                    rec.probe("interleaved")
                    rec.nontrivial = True
                prev[0] = t
        finally:
            t.busy = False

    last, prev = [None], [None]

    def run(a, body):
        for s in body:
            if s["op"] == "fleeting":
                core.fleeting(sim, rec, a, s)
                continue
            t = its[s["it"]]
            if s["op"] == "next":
                advance(a, t, s, s["n"])
            elif s["op"] == "drain":
                advance(a, t, s, 10**6)
            elif s["op"] == "close":
                if not t.busy and t.state in ("open", "done"):
                    t.busy = True
                    with core.op(sim, a, t.d["mode"]):
                        t.gen.close()
                    t.busy = False
                    t.state = "closed" if t.state == "open" else t.state
                    rec.fault("iterator closed")
            elif s["op"] == "drop":
                if not t.busy and t.state == "open":
                    t.gen = None
                    t.state = "dropped"
                    rec.fault("iterator abandoned")
            else:
                derive(a, t, s)

    def derive(a, t, s):
        sc = scenes[t.d["scene"]]
        P = lib.build_point([0.5, 0.25])
        with core.op(sim, a, "flag"):
            if s["how"] == "tx":
                sc.with_transmitters(zz=P)
            elif s["how"] == "rx":
                sc.update_receivers(zz=P)
            elif s["how"] == "objects":
                sc.with_objects()
            elif s["how"] == "filter":
                sc.filter_objects(lambda o: False)
            else:
                sc.add_objects(*[lib.build_object(o) for o in plan["scenes"][t.d["scene"]]["objects"][:1]])
        rec.probe("derived")

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
    if plan["drain"]:
        # whatever is still alive can be consumed to its end, by anybody
        n = len(plan["actors"])
        pending = [t for t in its]

        def finish(a):
            for t in pending:
                advance(a, t, {}, 10**6)

        main = sim.actors[0].body

        def both(a):
            main(a)
            finish(a)

        sim.actors[0].body = both
        assert n
    with lib.recycling({} if plan.get("recycle") else None):
        core.run_sim(sim, rec)
    for i, t in enumerate(its):
        what = f"iterator {i} ({t.state})"
        try:
            lib.check_iterated(t.p, t.d["approx"], t.got, t.d["valid"], partial=t.state != "done")
            if not t.d["valid"]:
                order(t)
        except lib.Bad as e:
            raise Violation("wrong-entries", f"{what}: {e}") from None
        rec.probe("judged " + t.state)
    for sc, spec in zip(scenes, plan["scenes"]):
        if lib.spec_of_scene(sc) != spec:
            raise Violation("scene-changed", "a scene changed while it was iterated over")


def order(t):
    """Entries of one pair come as one block each: none of a later pair before an earlier one is complete."""
    n = len(ref.candidates(len(t.p["scene"]["objects"]),
                           reject=lib.rejected(t.p["filter"], t.p["scene"]["objects"]), **t.p["ord"]))
    for i in range(0, len(t.got), max(n, 1)):
        b = t.got[i : i + n]
        if len({(x[0], x[1]) for x in b}) > 1:
            lib.bad("entries %d..%d mix pairs", i, i + n)


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("fault", "fail"):
                if k in s:
                    q = json.loads(json.dumps(plan))
                    del q["actors"][i][j][k]
                    yield q
    for i in range(len(plan["its"])):
        for k, v in (("valid", False), ("mode", "eager"), ("approx", False)):
            if plan["its"][i][k] != v:
                q = json.loads(json.dumps(plan))
                q["its"][i][k] = v
                yield q
    if plan["drain"]:
        yield {**plan, "drain": False}


assert np
