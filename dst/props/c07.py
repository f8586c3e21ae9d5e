"""C07: random results are a function of the given key only."""

import json
import random

import numpy as np

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 200, "thorough": 6000}
NJIT = {"quick": 24, "thorough": 1200}
NSHARED = {"quick": 64, "thorough": 800}  # runs executed once per worker process, under its own hash seed
RULE = (
    "keyed operations (sampling, random scenes, stochastic paths, multi-start minimisation, keyed maps and "
    "accumulations) run repeatedly from several threads with other operations, reseeding of other generators, evictions, "
    "failures and interrupts in between, and the same plans in 8 processes with different hash seeds; equal calls must "
    "give equal bits, different keys different draws, and the keys a recording path method and the starts a recording "
    "objective see must be distinct. Non-trivial: a repeated call with something in between."
)
REAL = ["differt2d (all of it)", "JAX, XLA, equinox, optax", "8 interpreter processes with different PYTHONHASHSEED"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]


def CLEAR(plan):
    return plan["jit"]


def r_op(rng):
    k = rng.choice(["sample", "sample", "random_scene", "random_scene", "stochastic_paths", "minimise", "starts", "starts",
                    "probe", "probe", "probe_acc", "probe_grid", "keyed_acc", "keyed_grid"])
    key = rng.randrange(1 << 20)
    if k in ("sample", "random_scene"):
        p = lib.OPS["keyed"].gen(rng)
        p["fn"] = k
        if k == "sample":
            p["o"] = lib.r_object(rng, rng.choice(["wall", "wall", "ris", "vertex"]))
        else:
            p["n"] = [rng.choice([0, 1, 2, 3, 3, 12]), rng.choice([0, 1, 2, 3, 20]), rng.choice([0, 1, 2, 3, 11])]
        return {"k": k, "p": p, "key": key}
    if k in ("stochastic_paths", "minimise"):
        p = lib.OPS[k].gen(rng)
        return {"k": k, "p": p, "key": key}
    if k == "starts":
        return {"k": k, "p": {"n": rng.choice([2, 3]), "many": rng.choice([1, 2, 3, 5, 10, 33])}, "key": key}
    sc = lib.r_scene(rng, rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([False, True, "vertex"]))
    if k == "probe_grid":
        sc = lib.r_scene(rng, 1, 1, rng.choice([2, 2, 3]), False)
    if k.startswith("keyed"):
        sc = lib.r_scene(rng, 1, 1, 1, rng.choice([False, "ris"]))
    p = {"scene": sc, "ord": lib.r_order(rng, len(sc["objects"]), 2), "side": rng.choice(["tx", "rx"]),
         "valid": rng.random() < 0.3, "cls": rng.choice(["MinPath", "FermatPath"]), "many": rng.choice([1, 2])}
    if k in ("keyed_acc", "keyed_grid", "probe_grid"):
        p["ord"] = rng.choice([{}, {}, {"order": 1}])
    return {"k": k, "p": p, "key": key}


def gen(rng, tier):
    idx = getattr(rng, "index", 0)
    shared = idx < NSHARED[tier]
    if shared:
        # the same plan in every worker
        rng = random.Random(f"c07:{rng.random() * 0}:{idx // 8}")
    jit = idx < NSHARED[tier] // 4 or NSHARED[tier] <= idx < NSHARED[tier] + NJIT[tier]
    ops = [r_op(rng) for _ in range(rng.choice([1, 1, 2]))]
    n = rng.choice([1, 2, 2, 3])
    actors = []
    for _ in range(n):
        a = []
        for _ in range(rng.choice([2, 2, 3])):
            s = {"i": rng.randrange(len(ops)), "mode": "jit" if jit and rng.random() < 0.8 else "eager"}
            z = rng.random()
            if z < 0.3:
                s["reseed"] = rng.randrange(1 << 20)
            elif z < 0.4:
                s["fault"] = core.r_interrupt(rng, 300)
            elif z < 0.5:
                s["other"] = True
            elif z < 0.55 and jit:
                s["evict"] = True
            a.append(s)
        actors.append(a)
    plan = {"ops": ops, "actors": actors, "jit": jit, "sched": core.r_sched(rng, n)}
    if shared:
        plan["group"] = idx // 8
    return plan


def kdata(k):
    """The content of a key seen by user code, or None if it cannot be read there."""
    if k is None:
        return "none"
    try:
        if lib.jax.dtypes.issubdtype(k.dtype, lib.jax.dtypes.prng_key):
            k = lib.jax.random.key_data(k)
        return np.asarray(k).tobytes().hex()
    except Exception:  # noqa: BLE001  (a tracer)
        return None


def perform(o, key):
    """(result, keys or starts seen)."""
    k, p = o["k"], o["p"]
    jax, jnp = lib.jax, lib.jnp
    if k in ("sample", "random_scene"):
        return lib.OPS["keyed"].call({**p, "key": key}, None), None
    if k in ("stochastic_paths", "minimise"):
        return lib.OPS[k].call({**p, "key": key}, False), None
    if k == "starts":
        seen = []

        def f(x):
            jax.debug.callback(lambda v: seen.append(np.asarray(v).tolist()), x)
            return jnp.sum((x - 0.5) ** 2)

        x, loss = lib.O.minimize_many_random_uniform(f, lib.key_of(key), p["n"], many=p["many"], steps=0)
        r = [lib.num(x), lib.num(loss)]
        jax.effects_barrier()
        return r, seen
    scene = lib.build_scene(p["scene"])
    seen = []
    kw = {**p["ord"], "approx": False, "key": lib.key_of(key)}
    if k in ("keyed_acc", "keyed_grid"):
        kw.update(path_cls=lib.path_cls(p["cls"]), path_cls_kwargs={"steps": 2, "many": p["many"]})
        fun = lib.lib_fun("power")
        if k == "keyed_acc":
            return [[t, x, lib.num(v)] for t, x, v in scene.accumulate_over_paths(fun, **kw)], None
        m = (scene.accumulate_on_transmitters_grid_over_paths if p["side"] == "tx"
             else scene.accumulate_on_receivers_grid_over_paths)
        X, Y = jnp.array([[0.3, 0.7]]), jnp.array([[0.4, 0.6]])
        return [[n, lib.num(z)] for n, z in m(X, Y, fun, **kw)], None

    h0 = getattr(lib._tl, "hook", None)

    def h(tag, *args):
        if tag == "path":
            seen.append(kdata(args[0]))
        if h0 is not None:
            h0(tag, *args)

    kw["path_cls"] = lib.QuarterPath
    with lib.hook(h):
        if k == "probe":
            it = scene.all_valid_paths(**kw) if p["valid"] else scene.all_paths(**kw)
            r = [[e[0], e[1], [int(i) for i in e[-1]]] for e in it]
        elif k == "probe_acc":
            r = [[t, x, lib.num(v)] for t, x, v in scene.accumulate_over_paths(lib.lib_fun("power"), **kw)]
        else:
            m = (scene.accumulate_on_transmitters_grid_over_paths if p["side"] == "tx"
                 else scene.accumulate_on_receivers_grid_over_paths)
            X, Y = jnp.array([[0.3, 0.7]]), jnp.array([[0.4, 0.6]])
            r = [[n, lib.num(z)] for n, z in m(X, Y, lib.lib_fun("power"), **kw)]
    return [r, seen if None not in seen else None], seen


def distinct(o, seen, what):
    """No randomness is used twice within one call."""
    k, p = o["k"], o["p"]
    if seen is None or None in seen:
        return
    if k == "starts":
        if len(seen) < p["many"]:
            raise Violation("starts", f"{what}: the objective saw {len(seen)} starts, expected {p['many']}")
        d = {tuple(v) for v in seen}
        if len(d) != p["many"]:
            raise Violation("randomness-reused", f"{what}: {p['many']} trials start from {len(d)} distinct points: {seen}")
        flat = [v for x in d for v in x]
        if len(set(flat)) < len(flat) - 1 or not all(0 <= v < 1 for v in flat):
            raise Violation("randomness-reused", f"{what}: the trials share coordinates: {sorted(flat)}")
        return
    n = len(lib.ref_candidates({**p, "filter": "none"}))
    if "none" in seen:
        raise Violation("key-lost", f"{what}: the path method was not given a key although one was given")
    if k == "probe_grid":
        if len(set(seen)) < n:
            raise Violation("randomness-reused", f"{what}: {n} candidates, {len(set(seen))} distinct keys")
        return
    n *= len(p["scene"]["tx"]) * len(p["scene"]["rx"])
    if len(seen) != n or len(set(seen)) != n:
        raise Violation("randomness-reused", f"{what}: {n} paths, {len(seen)} keys of which {len(set(seen))} distinct")


def must_differ(o):
    k, p = o["k"], o["p"]
    if k == "sample":
        return p["o"]["t"] != "vertex"
    if k == "random_scene":
        return sum(p["n"]) > 0
    return k == "starts"


def check(o, r, what):
    k, p = o["k"], o["p"]
    if k in ("sample", "random_scene"):
        core.judge("keyed", p, False, r, what)
    elif k in ("stochastic_paths", "minimise"):
        core.judge(k, p, False, r, what)
    elif k == "starts":
        if r[0].shape != (p["n"],):
            raise Violation("wrong-result", f"{what}: solution of shape {r[0].shape}")


def execute(plan, rec):
    sim = rec.sim()
    first = {}

    def run(a, body):
        for s in body:
            o = plan["ops"][s["i"]]
            what = f"{o['k']} with key {o['key']}"
            if "reseed" in s:
                random.seed(s["reseed"])
                np.random.seed(s["reseed"])
                rec.fault("other generators reseeded")
            if s.get("evict"):
                core.clear_caches()
                rec.fault("compiled code evicted")
            one(a, s, o, what)

    def one(a, s, o, what):
        mode = "jit" if o["k"] == "starts" else s["mode"]  # (no zero-length scan without jit)

        def call(key, fault=None):
            with lib.mode_ctx(mode), lib.hook(lambda t, *x: sim.point(t)), core.op(sim, a, mode, fault):
                return perform(o, key)

        try:
            r, seen = call(o["key"], s.get("fault"))
        except BaseException as e:
            core.guard(e, what)
            rec.fault("call failed")
            return
        check(o, r, what)
        distinct(o, seen, what)
        t = (s["i"], mode)
        if t in first:
            if not lib.same(r, first[t]):
                raise Violation("not-a-function-of-the-key", f"{what}: {lib.show(first[t], 400)} first, {lib.show(r, 400)} then")
            rec.probe("repeated " + o["k"])
            rec.nontrivial = True
        first[t] = r
        if s.get("other"):
            r2, seen2 = call(o["key"] + 1)
            if must_differ(o) and lib.same(r2, r):
                raise Violation("key-ignored", f"{what}: the same draws with another key: {lib.show(r, 300)}")
            if o["k"].startswith("probe") and seen and seen2 and None not in seen + seen2 and set(seen) & set(seen2):
                raise Violation("key-ignored", f"{what}: another key gives the same keys to the paths")
            distinct(o, seen2, what)
            rec.probe("other key " + o["k"])

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
    core.run_sim(sim, rec)
    for t in sorted(first):
        rec.result([t[0], t[1], first[t]])
    if "group" in plan:
        rec.group = plan["group"]


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("fault", "reseed", "other", "evict"):
                if k in s:
                    q = json.loads(json.dumps(plan))
                    del q["actors"][i][j][k]
                    yield q


assert simmod
