"""C08: multi-start minimisation returns the best trial that survived."""

import json
import math
import random

import numpy as np

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 300, "thorough": 20000}
NCLEAR = {"quick": 24, "thorough": 1500}
RULE = (
    "minimisations whose trials identify themselves (one frozen coordinate) and fail at a step and in a way that "
    "depends on the trial: not-a-number or infinite objective, gradient or optimiser update, overflow, and regions "
    "entered on the way; judged against a simulation of every trial from its recorded start. Several minimisations "
    "interleave, with interrupts and raising objectives. Non-trivial: at least one trial failed and one survived, or "
    "two minimisations overlapped, or a call was aborted."
)
REAL = ["differt2d.optimize", "JAX, XLA, equinox, optax"]
STUB = ["the objective and the optimiser handed in (they inject the numerical failures and record the starts)",
        "thread scheduling"]

MODES = ["none", "nan-value", "inf-value", "nan-gradient", "region", "overflow", "late-region"]
OPTS = ["sgd", "sgd-fast", "faulty", "faulty", "adam", "default"]
F32 = np.float32
_SEEN = {}  # tag -> recorded points (bytes)
_STARTS = []


def CLEAR(plan):
    return plan["clear"]


# ----------------------------------------------------------- what is handed in


def _note(tag, x):
    _SEEN.setdefault(int(tag), []).append(np.asarray(x, dtype=F32))


def _start(x):
    _STARTS.append(np.asarray(x, dtype=F32))


def poison(x, flag):
    """Zero, but with a gradient that is not a number where ``flag`` is set."""
    jax, jnp = lib.jax, lib.jnp

    @jax.custom_jvp
    def g(x, flag):
        return jnp.zeros_like(x)

    @g.defjvp
    def _(primals, tangents):
        x, flag = primals
        return jnp.zeros_like(x), tangents[0] * jnp.where(flag, jnp.nan, 0.0)

    return g(x, flag)


def objective(x, tag, P):
    """P: target, weight of the trial's own offset, mode, threshold."""
    jax, jnp = lib.jax, lib.jnp
    lib.fire("fun")
    jax.debug.callback(_note, tag, x)
    i = jax.lax.stop_gradient(x[0])
    m = x[1:]
    base = jnp.sum((m - P[0]) ** 2) + P[1] * jnp.sin(20.0 * i)
    hit = (i * 7.0) % 1.0 < P[3]
    mode = P[2]
    kink = poison(m[0], (mode == 3.0) & hit) + poison(m[0], (mode == 6.0) & hit & (m[0] > P[4]))
    huge = jnp.where((mode == 5.0) & hit, 1e25 * (1.0 + m[0] * m[0]), 1.0)
    v = base
    v = jnp.where((mode == 5.0) & hit, jnp.abs(v) * huge * huge, v)
    v = jnp.where((mode == 1.0) & hit, jnp.nan, v)
    v = jnp.where((mode == 2.0) & hit, jnp.inf, v)
    v = jnp.where((mode == 4.0) & (m[0] > P[4]), jnp.nan, v)
    return jnp.where((mode == 6.0) & hit & (m[0] > P[4]), jnp.nan, v) + kink


def value(x, P):
    """The objective, in double precision."""
    x = [float(v) for v in x]
    i, m = x[0], x[1:]
    hit = float((F32(i) * F32(7.0)) % F32(1.0)) < P[3]
    mode = int(P[2])
    if any(math.isnan(v) for v in x):
        return math.nan
    b = sum((v - P[0]) ** 2 for v in m) + P[1] * math.sin(20 * i)
    if mode == 5 and hit:
        return math.inf if b else 0.0
    if mode == 1 and hit:
        return math.nan
    if mode == 2 and hit:
        return math.inf
    if mode == 4 and m[0] > P[4]:
        return math.nan
    if mode == 6 and hit and m[0] > P[4]:
        return math.nan
    return b if b < 3e38 else math.inf


def plan_of(i):
    """How the faulty optimiser treats trial ``i``: (kind, step)."""
    h = int(np.floor(F32(i) * F32(1009.0)))
    return h % 6, (h // 6) % 5


_OPT = {}


def optimizer(name):
    """One object per kind, so that compiled code is found again."""
    if name == "default":
        return None
    if name in _OPT:
        return _OPT[name]
    jax, jnp = lib.jax, lib.jnp
    import optax

    if name == "adam":
        inner = optax.adam(0.1)
    else:
        inner = optax.sgd({"sgd": 0.1, "sgd-fast": 0.45, "faulty": 0.2}[name])

    def init(x0):
        jax.debug.callback(_start, x0)
        return (jnp.zeros((), jnp.int32), x0[0], inner.init(x0))

    def update(g, st, params=None):
        k, i, s = st
        u, s = inner.update(g, s, params)
        if name == "faulty":
            h = jnp.floor(i * 1009.0).astype(jnp.int32)
            kind, at = h % 6, (h // 6) % 5
            bad = jnp.where(kind == 3, jnp.nan, jnp.where(kind == 4, jnp.inf, 3e38))
            v = jnp.where((kind >= 3) & (at == k), bad, u[1:])
            u = jnp.concatenate([u[:1], v])
        return u, (k + 1, i, s)

    _OPT[name] = optax.GradientTransformation(init, update)
    return _OPT[name]


def simulate(x0, P, steps, name):
    """One trial, step by step."""
    x = np.array(x0, dtype=np.float64)
    i = x[0]
    hit = float((F32(i) * F32(7.0)) % F32(1.0)) < P[3]
    mode = int(P[2])
    kind, at = plan_of(i)
    mm, vv = np.zeros(len(x) - 1), np.zeros(len(x) - 1)
    for k in range(steps):
        m = x[1:]
        if np.isnan(m).any():
            return x
        g = 2 * (m - P[0])
        if mode in (1, 2) and hit:
            g = g * 0
        if mode == 3 and hit:
            g = g + np.array([math.nan] + [0.0] * (len(m) - 1))
        if mode == 4 and m[0] > P[4]:
            g = g * 0
        if mode == 6 and hit and m[0] > P[4]:
            g = g * 0 + np.array([math.nan] + [0.0] * (len(m) - 1))
        if mode == 5 and hit:
            return np.concatenate([x[:1], m * math.nan])  # only known to fail
        if name in ("adam", "default"):
            mm, vv = 0.9 * mm + 0.1 * g, 0.999 * vv + 0.001 * g * g
            u = -0.1 * (mm / (1 - 0.9 ** (k + 1))) / (np.sqrt(vv / (1 - 0.999 ** (k + 1))) + 1e-8)
        else:
            u = -{"sgd": 0.1, "sgd-fast": 0.45, "faulty": 0.2}[name] * g
        if name == "faulty" and kind >= 3 and at == k:
            u = u * 0 + {3: math.nan, 4: math.inf, 5: 3e38}[kind]
        x = np.concatenate([x[:1], m + u])
        if np.abs(x).max() > 1e30:
            return np.concatenate([x[:1], m * math.nan])
    return x


# -------------------------------------------------------------------- the plan


def r_problem(rng, small=False):
    n = rng.choice([2, 2, 3])
    return {
        "api": rng.choice(["many", "many", "many", "many", "one", "plain"]),
        "n": n, "many": rng.choice([2, 5] if small else [2, 5, 5, 10]), "steps": rng.choice([2, 4] if small else [4, 4, 7]),
        "opt": rng.choice(OPTS), "key": rng.randrange(1 << 20), "mode": rng.choice(MODES),
        "c": rng.choice([0.5, 2.0, -1.0]), "w": rng.choice([0.0, 0.5, 5.0, -5.0]),
        "hit": rng.choice([0.2, 0.5, 0.5, 0.9]), "thr": rng.choice([0.3, 0.6, 0.9]),
    }


def gen(rng, tier):
    idx = getattr(rng, "index", 0)
    clear = idx < NCLEAR[tier]
    n = rng.choice([2, 2, 3]) if clear or rng.random() < 0.2 else 1
    eager = n > 1 and not clear
    actors = []
    for _ in range(n):
        a = []
        shape = None
        if n == 1:
            # one compiled program, many problems
            shape = {"api": rng.choice(["many"] * 6 + ["one", "plain"]), "n": rng.choice([2, 2, 2, 3]),
                     "many": rng.choice([5, 5, 5, 2, 10]), "steps": rng.choice([4, 4, 4, 7]), "opt": rng.choice(OPTS)}
            if rng.random() < 0.15:
                # many trials
                shape["many"] = rng.choice([17, 24, 33])
        for _ in range(rng.choice([1, 2]) if n > 1 else 60 if shape["many"] <= 10 else 24):
            s = {"p": {**r_problem(rng, n > 1), **(shape or {})}, "mode": "eager" if eager else "jit"}
            if n > 1 and rng.random() < 0.25:
                s["fault"] = rng.choice([{"kind": "raise", "exc": rng.choice(simmod.FAILURES), "at": rng.choice([1, 1, 2, 3, 5])}, core.r_interrupt(rng, 150)])
            a.append(s)
        actors.append(a)
    if clear and n == 2 and rng.random() < 0.5:
        # the same minimisation at the same time
        actors[1] = json.loads(json.dumps(actors[0]))
        for s in actors[1]:
            s["p"]["key"] = rng.randrange(1 << 20)
    return {"actors": actors, "clear": clear, "sched": core.r_sched(rng, n)}


def solve(p, tag):
    jnp = lib.jnp
    P = (p["c"], p["w"], float(MODES.index(p["mode"])), p["hit"], p["thr"])
    kw = {"steps": p["steps"], "args": (jnp.array(tag), jnp.array(P, dtype=jnp.float32))}
    if p["opt"] != "default":
        kw["optimizer"] = optimizer(p["opt"])
    key = lib.key_of(p["key"])
    if p["api"] == "many":
        r = lib.O.minimize_many_random_uniform(objective, key, p["n"], many=p["many"], **kw)
    elif p["api"] == "one":
        r = lib.O.minimize_random_uniform(objective, key, p["n"], **kw)
    else:
        x0 = jnp.array(random.Random(p["key"]).choices([k / 64 for k in range(64)], k=p["n"]), dtype=jnp.float32)
        r = lib.O.minimize(objective, x0, **kw)
    x, loss = r
    return lib.num(x), lib.num(loss), P


def check(p, x, loss, P, tag, rec, what):
    P = [float(F32(v)) for v in P]
    seen = _SEEN.pop(tag, [])
    if x.shape != (p["n"],) or loss.shape != ():
        raise Violation("malformed-result", f"{what}: shapes {x.shape} and {loss.shape}")
    want = value(x, P)
    tol = 1e-4 * (1 + abs(want)) if math.isfinite(want) else 0
    unstable = p["mode"] in ("region", "late-region") and abs(x[1] - P[4]) < 1e-3
    if unstable:
        return
    if P[2] == 5 and float((F32(x[0]) * F32(7.0)) % F32(1.0)) < P[3]:
        near = sum((float(v) - P[0]) ** 2 for v in x[1:]) + P[1] * math.sin(20 * float(x[0]))
        if math.isfinite(loss) and abs(near) > 1e-9:
            raise Violation("wrong-loss", f"{what}: loss {loss} for the overflowing solution {x.tolist()}")
    elif math.isfinite(want) != math.isfinite(loss) or (math.isfinite(want) and abs(want - loss) > tol):
        raise Violation("wrong-loss", f"{what}: returned loss {loss}, the loss of the returned solution {x.tolist()} is {want}")
    ids = {float(s[0]) for s in seen if not np.isnan(s).any()}
    starts = [s for s in _STARTS if float(s[0]) in ids]
    uniq = {}
    for s in starts:
        if float(s[0]) in uniq and not np.array_equal(uniq[float(s[0])], s):
            return  # two minimisations share a trial's mark: no verdict
        uniq[float(s[0])] = s
    if not np.isnan(x).any() and float(x[0]) not in ids:
        raise Violation("not-a-trial", f"{what}: the returned solution {x.tolist()} belongs to none of the trials {sorted(ids)}")
    if p["opt"] == "default":
        # the starts are those of the trials' first evaluation: the only points with the mark that no step reaches
        uniq = starts_of(seen, P, p, ids)
    n = {"many": p["many"], "one": 1, "plain": 1}[p["api"]]
    if p["opt"] != "default" and len(uniq) != n:
        raise Violation("trials", f"{what}: {n} trials asked, {len(uniq)} different starts seen")
    ends = {i: simulate(s, P, p["steps"], p["opt"]) for i, s in uniq.items()}
    finite, failed = {}, 0
    for i, e in ends.items():
        v = value(e, P)
        if p["mode"] in ("region", "late-region") and close_to_edge(uniq[i], P, p):
            continue
        if math.isfinite(v):
            finite[i] = v
        else:
            failed += 1
    if failed:
        rec.probe("trial failed numerically", failed)
    if failed and finite:
        rec.nontrivial = True
        rec.probe(f"some trials failed: {p['mode']}/{p['opt']}")
    if finite:
        i, v = min(finite.items(), key=lambda t: t[1])
        if not math.isfinite(loss):
            raise Violation("survivor-lost", f"{what}: loss {loss} returned, but trial {i} ended at {ends[i].tolist()} with {v}")
        if v < loss - 1e-3 * (1 + abs(v)):
            raise Violation("not-the-best", f"{what}: loss {loss} returned, but trial {i} ended at {ends[i].tolist()} with {v}")
    e = ends.get(float(x[0]))
    if e is not None and float(x[0]) in finite and np.abs(e - x).max() > 1e-3:
        raise Violation("wrong-solution", f"{what}: returned {x.tolist()}, that trial ended at {e.tolist()}")


def close_to_edge(x0, P, p):
    """Rounding decides whether the trajectory enters the failing region."""
    for k in range(p["steps"] + 1):
        e = simulate(x0, [*P[:2], 0.0, *P[3:]], k, p["opt"])
        if not np.isnan(e).any() and abs(e[1] - P[4]) < 1e-3:
            return True
    return False


def starts_of(seen, P, p, ids):
    out = {}
    for i in ids:
        g = [s for s in seen if float(s[0]) == i]
        for s in g:
            ok = True
            for k in range(p["steps"] + 1):
                e = simulate(s, P, k, "default")
                if np.isnan(e).any():
                    break
                if not any(np.abs(e - q).max() < 1e-4 for q in g):
                    ok = False
                    break
            if ok:
                out[i] = s
                break
    return out


def execute(plan, rec):
    sim = rec.sim()
    _SEEN.clear()
    _STARTS.clear()
    done = {}
    running = [0]

    def run(a, body):
        for j, s in enumerate(body):
            p = s["p"]
            tag = a.idx * 100 + j
            what = f"{p['api']} {p['opt']} mode={p['mode']} key={p['key']} n={p['n']} many={p['many']} steps={p['steps']}"
            f = s.get("fault")
            left = [f["at"] if f and f["kind"] == "raise" else 0]

            def h(t, *x, left=left):
                sim.point(t)
                left[0] -= 1
                if left[0] == 0:
                    sim.count("objective raises")
                    raise simmod.make_exc(f.get("exc", "SimError"))

            running[0] += 1
            if running[0] > 1:
                rec.nontrivial = True
            try:
                with lib.mode_ctx(s["mode"]), lib.hook(h), core.op(sim, a, s["mode"], f if f and f["kind"] == "interrupt" else None):
                    x, loss, P = solve(p, tag)
                lib.jax.effects_barrier()
            except BaseException as e:
                core.guard(e, what)
                rec.nontrivial = True
                _SEEN.pop(tag, None)
                continue
            finally:
                running[0] -= 1
            check(p, x, loss, P, tag, rec, what)
            done[tag] = [x, loss]
            if len(plan["actors"]) == 1:
                _STARTS.clear()

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"caller{i}", lambda a, body=body: run(a, body))
    core.run_sim(sim, rec)
    for t in sorted(done):
        rec.result([t, done[t]])


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            if s["p"]["mode"] != "none":
                q = json.loads(json.dumps(plan))
                q["actors"][i][j]["p"]["mode"] = "none"
                yield q
