"""C06: a coverage map is the same however it is split, ordered, retried or reduced."""

import json

import numpy as np

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 136, "thorough": 4000}
NJIT = {"quick": 16, "thorough": 600}
NBIG = {"quick": 8, "thorough": 200}  # runs with many path candidates
NWIDE = {"quick": 6, "thorough": 300}  # runs with large maps
WIDE = [(33, 33), (1, 130), (70, 1), (17, 65), (9, 8), (129, 2), (2, 257), (5, 11)]
RULE = (
    "a coordinator splits a transmitter or receiver map (values, gradients or both; regular grids or arbitrary cells) "
    "into rectangles computed by 1-4 worker threads in drawn order; results are lost, duplicated, reordered, delivered "
    "late, computed partially, and workers are interrupted or their function fails; lost rectangles are recomputed. The "
    "assembled map is judged cell by cell against a float64 model and against the map computed whole. Non-trivial: a "
    "fault or two workers interleaved."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox"]
STUB = ["the network between coordinator and workers (lossy, duplicating, reordering)", "thread scheduling",
        "RLock/Lock created by differt2d (simulated lock with the same semantics)"]
FATES = ["ok", "ok", "ok", "lost", "dup", "late", "interrupt", "partial", "fail"]


def CLEAR(plan):
    return plan["jit"]


def cut(rng, n):
    """Boundaries of a random split of range(n)."""
    return sorted({0, n, *[rng.randrange(0, n + 1) for _ in range(rng.choice([0, 1, 1, 2]))]})


def gen(rng, tier):
    jit = getattr(rng, "index", 0) < NJIT[tier]
    side = rng.choice(["tx", "rx"])
    opp = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3 else rng.choice([1, 2])
    own = rng.choice([0, 1, 2])
    p = lib.r_fun(rng, lib.r_tracing(rng, ntx=own if side == "tx" else opp, nrx=opp if side == "tx" else own, hi=1, small=True))
    if rng.random() < 0.6:
        p["scene"]["objects"] = p["scene"]["objects"][:2]
    if rng.random() < 0.1 and len(p["scene"]["objects"]) == 2:
        p["ord"] = {"order": 2}
    p["side"] = side
    big = NJIT[tier] <= getattr(rng, "index", 0) < NJIT[tier] + NBIG[tier]
    if big:
        lib.r_big(rng, p)
        for s in ("tx", "rx"):
            p["scene"][s] = p["scene"][s][:1] or [["n", lib.r_node(rng)]]
    ny, nx = rng.choice([(1, 1), (1, 2)]) if big else rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3), (4, 1)] if tier == "quick"
                        else [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)])
    if rng.random() < 0.5:
        p["xs"] = [rng.randrange(1, 64, 2) / 64.0 for _ in range(nx)]
        p["ys"] = [rng.randrange(1, 64, 2) / 64.0 for _ in range(ny)]
    else:
        p["X"] = [[rng.randrange(1, 64, 2) / 64.0 for _ in range(nx)] for _ in range(ny)]
        p["Y"] = [[rng.randrange(1, 64, 2) / 64.0 for _ in range(nx)] for _ in range(ny)]
    p["reduce"] = rng.random() < 0.3
    p["deriv"] = rng.choice(["value", "value", "grad", "both"])
    k0 = NJIT[tier] + NBIG[tier]
    wide = k0 <= getattr(rng, "index", 0) < k0 + NWIDE[tier]
    if wide:
        ny, nx = rng.choice(WIDE)
        for s in ("tx", "rx"):
            p["scene"][s] = p["scene"][s][:2]
        p["scene"]["objects"] = p["scene"]["objects"][:2]
        for k in ("xs", "ys", "X", "Y"):
            p.pop(k, None)
        p["xs"] = [round((i + 0.437) / nx, 6) for i in range(nx)]
        p["ys"] = [round((i + 0.437) / ny, 6) for i in range(ny)]
        if rng.random() < 0.5:
            rng.shuffle(p["xs"])
            rng.shuffle(p["ys"])
        p["deriv"] = rng.choice(["value", "value", "both"])
    rows, cols = cut(rng, ny), cut(rng, nx)
    if wide:
        # (every new shape costs compilations)
        rows, cols = rng.choice([([0, ny], [0, nx]), ([0, ny // 2, ny], [0, nx]), ([0, ny], [0, nx // 2, nx])])
        rows, cols = sorted(set(rows)), sorted(set(cols))
    if big:
        rows, cols = [0, ny], [0, nx]
        p["deriv"] = rng.choice(["value", "both"])
    tiles = [[a, b, c, d] for a, b in zip(rows, rows[1:]) for c, d in zip(cols, cols[1:])]
    if rng.random() < 0.2 and len(tiles) > 1:
        tiles.append(rng.choice(tiles))
    rng.shuffle(tiles)
    n = rng.choice([1, 2, 2, 3, 4])
    fates = []
    for _ in range(0 if big else rng.choice([0, 1, 2, 4])):
        f = {"fate": rng.choice(FATES), "n": rng.randrange(0, 3)}
        if f["fate"] == "fail":
            f["exc"] = rng.choice(simmod.FAILURES)
        if f["fate"] == "interrupt":
            f["fault"] = core.r_interrupt(rng, 2500)
        fates.append(f)
    return {"p": p, "approx": rng.random() < 0.5, "tiles": tiles, "workers": n, "fates": fates, "jit": jit,
            "lazy": rng.random() < 0.5, "node_cls": rng.random() < 0.25, "whole": rng.random() < (0.7 if wide else 0.3),
            "modes": [rng.choice(["jit", "jit", "eager"]) if jit else "eager" for _ in range(3)],
            "sched": core.r_sched(rng, n)}


def execute(plan, rec):
    sim = rec.sim()
    p = plan["p"]
    scene = lib.build_scene(p["scene"])
    base = lib.lib_fun(p["fun"])
    nodes = p["scene"]["rx" if p["side"] == "tx" else "tx"]
    X, Y = lib.grid_cells(p)
    queue = list(enumerate(plan["tiles"]))
    inbox = []  # messages delivered: (tile index, result)
    late = []
    fates = list(plan["fates"])
    attempts = [0]
    node_cls = None
    if plan["node_cls"]:
        class Node(lib.G.Point):
            pass

        node_cls = Node

    def fun_for(fail, exc="SimError"):
        n = [0]

        def fun(tx, rx, path, objs, *a, **k):
            n[0] += 1
            sim.point("fun")
            if fail and n[0] == fail:
                sim.count("worker's function failed")
                raise simmod.make_exc(exc)
            if node_cls is not None and type(tx if p["side"] == "tx" else rx) is not node_cls:
                raise Violation("wrong-node", f"the function got a {type(tx).__name__} and a {type(rx).__name__}")
            return base(tx, rx, path, objs, *a, **k)

        return fun

    def compute(a, tile, f, mode):
        """The result of one rectangle, as far as the worker got."""
        out = []
        what = f"tile {tile}"
        fun = fun_for(f["n"] + 1 if f["fate"] == "fail" else 0, f.get("exc", "SimError"))
        try:
            with lib.mode_ctx(mode), core.op(sim, a, mode, f.get("fault")), lib.hook(lambda t, *x: sim.point(t)):
                r = lib.grid_call(p, plan["approx"], scene, fun, tile, node_cls)
                if p["reduce"]:
                    return lib.grid_arrays(r)
                it = iter(r)
                while True:
                    if f["fate"] == "partial" and len(out) > f["n"]:
                        return None
                    e = next(it, None)
                    if e is None:
                        return out
                    out.append([e[0], lib.grid_arrays(e[1])])
                    if plan["lazy"]:
                        sim.point("consume")
        except BaseException as e:
            core.guard(e, what)
            rec.fault("worker crashed")
            return None

    def deliver(m):
        inbox.append(m)
        rec.result([m[0], m[1]])

    def worker(a):
        k = a.idx
        while True:
            sim.point("idle")
            if not queue:
                return
            i, tile = queue.pop(0)
            attempts[0] += 1
            f = fates.pop(0) if fates else {"fate": "ok", "n": 0}
            r = compute(a, tile, f, plan["modes"][k % 3])
            rec.probe("fate " + f["fate"])
            if r is None or f["fate"] == "lost":
                # the coordinator hears nothing and asks again
                queue.append((i, tile))
                rec.fault("result lost" if r is not None else "worker gave up")
                continue
            if f["fate"] == "late":
                late.append((i, r))
                queue.append((i, tile))
                rec.fault("result late and recomputed")
                continue
            deliver((i, r))
            if f["fate"] == "dup":
                queue.append((i, tile))
                rec.fault("rectangle computed twice")

    for w in range(plan["workers"]):
        sim.actor(f"worker{w}", worker)
    core.run_sim(sim, rec)
    for m in late:
        deliver(m)

    # the coordinator assembles; whatever arrived twice must agree
    shapes = {"value": [()], "grad": [(2,)], "both": [(), (2,)]}[p["deriv"]]
    names = ["sum"] if p["reduce"] else [n for n, _ in nodes]

    def blank():
        return {n: [np.full(X.shape + s, np.nan, dtype=np.float32) for s in shapes] for n in names}

    def whole_of(r, what, shape):
        if p["reduce"]:
            r = [["sum", r]]
        if [x[0] for x in r] != names:
            raise Violation("wrong-map", f"{what}: maps {[x[0] for x in r]}, expected {names}")
        for n, arrs in r:
            if [x.shape for x in arrs] != [shape + s for s in shapes]:
                if p["reduce"] and not nodes:
                    continue
                raise Violation("wrong-map", f"{what}: map {n} has shapes {[x.shape for x in arrs]}, expected "
                                             f"{[shape + s for s in shapes]}")
        return r

    asm = blank()
    for i, r in inbox:
        a, b, c, d = plan["tiles"][i]
        for n, arrs in whole_of(r, f"tile {plan['tiles'][i]}", (b - a, d - c)):
            for z, x in zip(asm[n], arrs):
                x = np.broadcast_to(x, z[a:b, c:d].shape)
                old = z[a:b, c:d]
                seen = ~np.isnan(old)
                if np.any(seen) and not np.allclose(old[seen], x[seen], rtol=1e-4, atol=1e-4, equal_nan=True):
                    raise Violation("not-repeatable", f"tile {plan['tiles'][i]} of map {n}: {old} first, {x} then")
                z[a:b, c:d] = x
    r = asm["sum"] if p["reduce"] else [[n, asm[n]] for n in names]
    try:
        lib.check_grid(p, plan["approx"], r)
    except lib.Bad as e:
        raise Violation("wrong-map", str(e)) from None
    if plan["whole"]:
        with lib.mode_ctx(plan["modes"][0]):
            w = lib.grid_call(p, plan["approx"], scene, fun_for(0), None, node_cls)
            w = lib.grid_arrays(w) if p["reduce"] else [[n, lib.grid_arrays(z)] for n, z in w]
        for n, arrs in whole_of(w, "whole map", X.shape):
            for z, x in zip(asm[n], arrs):
                x = np.broadcast_to(x, z.shape)
                ok = np.isfinite(x) & np.isfinite(z)
                wrong = ~np.isclose(x, z, rtol=2e-3, atol=2e-3) & ok | (np.isnan(x) != np.isnan(z))
                # in a large map a cell or two may lie on the edge of a shadow
                if wrong.sum() > (4 if X.size > 40 else 0):
                    raise Violation("split-differs", f"map {n}: cells {np.argwhere(wrong)[:6].tolist()}: assembled "
                                                     f"{z[wrong][:6].tolist()}, whole {x[wrong][:6].tolist()}")
        rec.probe("compared with the whole map")
    if lib.spec_of_scene(scene) != p["scene"]:
        raise Violation("scene-changed", "the scene changed")


def shrink(plan):
    def copy():
        return json.loads(json.dumps(plan))

    yield from core.shrink_lists(plan, ["fates"])
    if plan["workers"] > 1:
        yield {**copy(), "workers": 1}
    X = lib_grid(plan)
    if len(plan["tiles"]) > 1:
        yield {**copy(), "tiles": [[0, X[0], 0, X[1]]]}
    yield from core.shrink_lists(plan, ["sched", "switches"]) if plan["sched"].get("switches") else ()
    for k in ("tx", "rx", "objects"):
        for i in range(len(plan["p"]["scene"][k])):
            if k == "objects" and len(plan["p"]["scene"][k]) < 2:
                continue
            q = copy()
            del q["p"]["scene"][k][i]
            yield q
    for k, v in (("whole", False), ("node_cls", False), ("lazy", False)):
        if plan[k] != v:
            yield {**copy(), k: v}
    for k, v in (("reduce", False), ("deriv", "value"), ("filter", "none")):
        if plan["p"][k] != v:
            q = copy()
            q["p"][k] = v
            yield q


def lib_grid(plan):
    p = plan["p"]
    return (len(p["X"]), len(p["X"][0])) if "X" in p else (len(p["ys"]), len(p["xs"]))
