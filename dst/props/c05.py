"""C05: accumulation counts every path of every pair exactly once."""

import json

import numpy as np

from .. import core, lib, ref
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 360, "thorough": 9000}
NJIT = {"quick": 48, "thorough": 1200}
NBIG = {"quick": 16, "thorough": 400}  # runs with many path candidates
RULE = (
    "several accumulations (lazy or reduced) over shared scenes are advanced in turns and from several threads with a "
    "recording user function that fails at a drawn call (also with StopIteration and GeneratorExit), is interrupted, "
    "abandoned, and repeated; every recorded call and every sum is judged against a float64 model. Non-trivial: two "
    "accumulations interleaved, or a failed, abandoned or repeated one."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]
FAIL = ["StopIteration", "GeneratorExit", "KeyboardInterrupt", *simmod.FAILURES]


def CLEAR(plan):
    return plan["jit"]


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    scenes, accs = [], []
    big = NJIT[tier] <= getattr(rng, "index", 0) < NJIT[tier] + NBIG[tier]
    nacc = 1 if big else rng.choice([1, 2, 2, 3])
    for i in range(nacc):
        p = lib.r_fun(rng, lib.r_tracing(rng, ntx=rng.choice([0, 1, 1, 2, 2]), nrx=rng.choice([0, 1, 2, 2, 3]), hi=2))
        n = len(p["scene"]["objects"])
        if n > 2:
            p["ord"] = lib.r_order(rng, n, 1)
        if rng.random() < 0.12:
            p["ord"] = {"min_order": 1, "max_order": 1}
            p["filter"] = rng.choice(["nothing", "left"])
        if big:
            lib.r_big(rng, p)
            for s in ("tx", "rx"):
                p["scene"][s] = p["scene"][s][:1] or [["n", lib.r_node(rng)]]
        if scenes and rng.random() < 0.5 and p["cls"] in ("Path", "Quarter"):
            p["scene"] = scenes[0]
        scenes.append(p["scene"])
        accs.append({"p": p, "approx": rng.random() < 0.5, "reduce": rng.random() < 0.35,
                     "mode": "jit" if jit and rng.random() < 0.85 else "eager"})
    n = rng.choice([1, 1, 2, 2, 3])
    actors = []
    for k in range(n):
        a = []
        for _ in range(rng.choice([2, 4, 6])):
            s = {"acc": rng.randrange(nacc), "n": rng.choice([1, 1, 2, 9])}
            z = rng.random()
            if z < 0.3:
                s["fail"] = rng.choice([1, 1, 2, 3, 5, 8])
                s["exc"] = rng.choice(FAIL)
            elif z < 0.38:
                s["fault"] = core.r_interrupt(rng, 400)
            elif z < 0.45:
                s["drop"] = True
            if rng.random() < (0.1 if jit else 0.03):
                s = core.r_fleeting(rng, "accumulate", jit)
            a.append(s)
        actors.append(a)
    return {"accs": accs, "actors": actors, "jit": jit, "recycle": rng.random() < 0.5, "sched": core.r_sched(rng, n)}


class Attempt:
    """One accumulation from its start to its end or failure."""

    def __init__(self, acc):
        self.acc = acc
        self.calls = []
        self.failed_call = False
        self.got = []
        self.state = "new"
        self.gen = None
        self.step = None
        self.nstep = 0
        self.busy = False


def execute(plan, rec):
    sim = rec.sim()
    scenes = {}

    def scene_of(p):
        k = json.dumps(p["scene"])
        if k not in scenes:
            scenes[k] = (lib.build_scene(p["scene"]), p["scene"])
        return scenes[k][0]

    for acc in plan["accs"]:
        scene_of(acc["p"])
    live = [None] * len(plan["accs"])
    done = []

    def user_fun(att):
        base = lib.lib_fun(att.acc["p"]["fun"])

        def fun(tx, rx, path, objs, *args, **kwargs):
            s = att.step
            att.nstep += 1
            sim.point("fun")
            if att.nstep == s.get("fail"):
                sim.count("user function failed:" + s["exc"])
                att.failed_call = True
                raise simmod.make_exc(s["exc"])
            r = base(tx, rx, path, objs, *args, **kwargs)
            att.calls.append([np.asarray(tx.xy).tolist(), np.asarray(rx.xy).tolist(), np.asarray(path.xys),
                              [lib.spec_of_object(o) for o in objs], list(args), dict(kwargs)])
            return r

        return fun

    def start(i):
        att = live[i] = Attempt(plan["accs"][i])
        p = att.acc["p"]
        att.kw = {**lib.trace_kwargs(p, att.acc["approx"]), **lib.fun_kwargs(p)}
        att.kw.pop("hook", None)
        att.args = (dict(att.kw.get("fun_kwargs", {})),)
        return att

    def run(a, body):
        for s in body:
            if s.get("op") == "fleeting":
                core.fleeting(sim, rec, a, s)
                continue
            i = s["acc"]
            att = live[i] or start(i)
            if att.busy:
                continue
            att.busy = True
            att.step, att.nstep = s, 0
            advance(a, i, att, s)
            att.busy = False
            if s.get("drop") and att.state == "open" and live[i] is att:
                att.state = "dropped"
                att.gen = None
                rec.fault("accumulation abandoned")
                end(i, att)

    def end(i, att):
        done.append(att)
        live[i] = None

    prev = [None]

    def advance(a, i, att, s):
        d = att.acc
        p = d["p"]
        what = f"accumulation {i}"
        for _ in range(1 if d["reduce"] else s["n"]):
            if prev[0] is not None and prev[0] is not att:
                rec.nontrivial = True
            prev[0] = att
            fault = s.get("fault")
            try:
                with lib.mode_ctx(d["mode"]), lib.hook(lambda t, *x: sim.point(t)), core.op(sim, a, d["mode"], fault):
                    if d["reduce"]:
                        r = scene_of(p).accumulate_over_paths(user_fun(att), reduce_all=True, **att.kw)
                    else:
                        if att.gen is None:
                            att.gen = iter(scene_of(p).accumulate_over_paths(user_fun(att), **att.kw))
                            att.state = "open"
                        r = next(att.gen)
            except StopIteration as e:
                if simmod.is_injected(e) and d["reduce"]:
                    raise Violation("failure-hidden", f"{what}: StopIteration leaked") from None
                if att.failed_call:
                    raise Violation("failure-hidden", f"{what}: the user function failed but the caller saw a regular end") from None
                att.state = "done"
                end(i, att)
                return
            except BaseException as e:
                core.guard(e, what)
                att.state = "dead"
                rec.fault("accumulation failed")
                end(i, att)
                return
            if att.failed_call:
                raise Violation("failure-hidden", f"{what}: the user function failed but a result was returned")
            if d["reduce"]:
                att.got = lib.num(r)
                rec.result(att.got)
                att.state = "done"
                end(i, att)
                return
            t, x, v = r
            att.got.append([t, x, lib.num(v)])
            rec.result(att.got[-1])

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))

    main = sim.actors[0].body

    def finish(a):
        main(a)
        # once the faults are over, every accumulation gives its full sums
        for i in range(len(plan["accs"])):
            att = live[i]
            if att is not None and att.busy:
                continue
            ends = [x.state for x in done if x.acc is plan["accs"][i]]
            if att is None and ends and ends[-1] == "done":
                continue
            for again in range(2):
                att = live[i] or start(i)
                if att.busy:
                    break
                att.busy = True
                att.step = {"n": 10**6}
                advance(a, i, att, att.step)
                att.busy = False
                if att.got is not None and len(att.calls) and not again:
                    break

    sim.actors[0].body = finish
    with lib.recycling({} if plan.get("recycle") else None):
        core.run_sim(sim, rec)
    for att in [*done, *[x for x in live if x is not None]]:
        try:
            judge(att)
        except lib.Bad as e:
            raise Violation("wrong-sum" if "call" not in str(e) else "wrong-calls", f"({att.state}) {e}") from None
        rec.probe("judged " + att.state + (" reduced" if att.acc["reduce"] else ""))
    for sc, spec in scenes.values():
        if lib.spec_of_scene(sc) != spec:
            raise Violation("scene-changed", "a scene changed during an accumulation")


def judge(att):
    d = att.acc
    p = d["p"]
    sc = p["scene"]
    if dict(att.kw.get("fun_kwargs", {})) != att.args[0]:
        lib.bad("the caller's fun_kwargs changed")
    cands = lib.ref_candidates(p)
    pairs = [(t, x) for t, _ in sc["tx"] for x, _ in sc["rx"]]
    txs, rxs = dict(map(tuple, sc["tx"])), dict(map(tuple, sc["rx"]))
    # the calls, pair after pair
    n = len(cands)
    calls = att.calls
    if len(calls) > n * len(pairs):
        lib.bad("%d calls of the function, expected %d", len(calls), n * len(pairs))
    if att.state == "done" and len(calls) != n * len(pairs):
        lib.bad("%d calls of the function, expected %d", len(calls), n * len(pairs))
    for k, (t, x) in enumerate(pairs):
        block = calls[k * n : (k + 1) * n]
        left = [(c, [sc["objects"][i] for i in c]) for c in cands]
        for tx, rx, xys, objs, args, kwargs in block:
            what = f"call {k}: {t}->{x}"
            if tx != txs[t] or rx != rxs[x]:
                lib.bad("%s: call with nodes %s and %s, expected %s and %s", what, tx, rx, txs[t], rxs[x])
            if args != list(p.get("fargs", [])) or kwargs != p.get("fkw", {}):
                lib.bad("%s: call with extra arguments %s %s", what, args, kwargs)
            for m, (c, inter) in enumerate(left):
                if inter != objs:
                    continue
                e, loss, ok = ref.path_of(p["cls"], np.array(tx), inter, np.array(rx))
                if xys.shape == e.shape and (not ok or np.allclose(xys, e, rtol=5e-3, atol=5e-3)):
                    del left[m]
                    break
            else:
                lib.bad("%s: unexpected call with objects %s and path %s", what, objs, xys.tolist())
    # the sums
    if d["reduce"]:
        if att.state != "done":
            return
        if att.got.shape != ():
            lib.bad("the reduced sum has shape %s", att.got.shape)
        ivs = [lib.ref_pair(p, d["approx"], txs[t], rxs[x], cands) for t, x in pairs]
        if all(v is not None for v in ivs):
            lib.check_sum(float(att.got), (sum(v[0] for v in ivs), sum(v[1] for v in ivs)), "reduced sum")
        return
    got = [(t, x) for t, x, _ in att.got]
    if got != pairs[: len(got)] or (att.state == "done" and len(got) != len(pairs)):
        lib.bad("sums for %s, expected %s", got, pairs)
    for t, x, v in att.got:
        if v.shape != ():
            lib.bad("sum of shape %s", v.shape)
        lib.check_sum(float(v), lib.ref_pair(p, d["approx"], txs[t], rxs[x], cands), f"sum of {t}->{x}")


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("fault", "fail", "drop"):
                if k in s:
                    q = json.loads(json.dumps(plan))
                    del q["actors"][i][j][k]
                    yield q
    for i, acc in enumerate(plan["accs"]):
        for k, v in (("mode", "eager"), ("approx", False)):
            if acc[k] != v:
                q = json.loads(json.dumps(plan))
                q["accs"][i][k] = v
                yield q
