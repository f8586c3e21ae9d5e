"""Plans, outcomes, and the pieces shared by the property modules."""

import contextlib
import gc
import hashlib
import importlib
import json
import random
import traceback

from . import sim as simmod
from .sim import Sim, op

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"]


class Violation(Exception):
    """The property is broken.  ``kind`` names the class of violation."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


def prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def seed_of(*parts):
    h = hashlib.blake2b(":".join(map(str, parts)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def plan_hash(plan):
    return hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).hexdigest()


class Rec:
    """What one run recorded."""

    def __init__(self, plan, log=False):
        self.plan = plan
        self.log = log
        self.sims = []
        self.faults = {}
        self.probes = {}
        self.nops = 0
        self.hash = hashlib.blake2b(digest_size=12)
        self.nontrivial = False
        self.group = None  # runs of one group, in different processes, must give equal results

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def result(self, r):
        self.nops += 1
        self.hash.update(repr_result(r).encode())

    def sim(self, sched=None):
        sched = sched if sched is not None else self.plan.get("sched", {})
        s = Sim(sched.get("seed", 0), sched.get("policy"), sched.get("switches"), log=self.log)
        self.sims.append(s)
        return s


def repr_result(r):
    import numpy as np

    if isinstance(r, np.ndarray):
        return f"{r.dtype}{r.shape}{r.tobytes().hex()}"
    if isinstance(r, (list, tuple)):
        return "[" + ",".join(repr_result(x) for x in r) + "]"
    if isinstance(r, dict):
        return "{" + ",".join(f"{k}={repr_result(v)}" for k, v in r.items()) + "}"
    if isinstance(r, BaseException):
        return "!" + type(r).__name__
    return repr(r)


def reset():
    """Back to the state of a fresh process, as far as the library is concerned."""
    from . import lib

    lib.L.ENABLE_APPROX = False


def restart():
    """The process ends and another one starts: nothing the library kept in memory survives."""
    from . import boot

    boot.restart()
    clear_caches()
    reset()


def clear_caches():
    from . import lib

    lib.jax.clear_caches()


def check_quiescent():
    """Nothing is left behind: default setting and locks."""
    from . import lib

    for lock in simmod.LIB_LOCKS:
        if lock.owner is not None:
            lock.owner, lock.count = None, 0
            raise Violation("lock-leaked", "a lock of the library is still held after every caller returned")
    v = lib.L.ENABLE_APPROX
    if v is not False:
        lib.L.ENABLE_APPROX = False
        raise Violation("default-changed", f"the process-wide default is {v!r} after the run, it was False")


def finish(sim, rec):
    """Common end-of-run verdicts of a simulation."""
    for k, n in sim.fired.items():
        rec.fault(k, n)
    if sim.deadlock:
        for lock in simmod.LIB_LOCKS:
            lock.owner, lock.count = None, 0
        raise Violation("deadlock", f"callers never return: {sim.deadlock}")
    if sim.livelock:
        raise Violation("no-progress", f"no end after {simmod.STEP_CAP} steps")


def touches_library(e):
    """The exception passed through code of the library."""
    from . import boot

    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.PACKAGE_DIR):
            return True
        tb = tb.tb_next
    return False


def run_sim(sim, rec):
    """Runs the actors; a Violation raised by an actor is re-raised here."""
    try:
        sim.run()
    except simmod.HarnessError as e:
        if isinstance(e.__cause__, Violation):
            for lock in simmod.LIB_LOCKS:
                lock.owner, lock.count = None, 0
            for k, n in sim.fired.items():
                rec.fault(k, n)
            raise e.__cause__ from None
        if e.__cause__ is not None and touches_library(e.__cause__):
            raise Violation("raised", f"{type(e.__cause__).__name__}: {str(e.__cause__)[:600]}") from e
        raise
    finish(sim, rec)


_count = [0]


def execute(pid, plan, log=False, fresh=False):
    """Executes one plan.  Returns an outcome dictionary (plain data)."""
    m = prop(pid)
    rec = Rec(plan, log)
    random.seed(0)
    clear = getattr(m, "CLEAR", True)
    clear = clear(plan) if callable(clear) else clear
    _count[0] += 1
    if clear or _count[0] % 200 == 0:
        gc.collect()
    gc.disable()
    out = {"status": "ok"}
    reset()
    for lock in simmod.LIB_LOCKS:
        lock.owner, lock.count = None, 0
    try:
        if fresh:
            from . import boot

            boot.restart()
            reset()
        if clear:
            clear_caches()
        m.execute(plan, rec)
        check_quiescent()
    except Violation as e:
        out = {"status": "violation", "kind": e.kind, "msg": e.msg[:2000]}
    except simmod.LockLeaked as e:
        out = {"status": "violation", "kind": "lock-leaked", "msg": str(e)}
    except BaseException as e:  # noqa: BLE001
        out = {"status": "error", "msg": "".join(traceback.format_exception(e))[-4000:]}
        x = e.__cause__ if isinstance(e, simmod.HarnessError) and e.__cause__ is not None else e
        if isinstance(x, Exception) and not isinstance(x, (simmod.HarnessError, MemoryError, OSError, ImportError)) \
                and not simmod.is_injected(x):
            # what the library returned could not even be looked at
            out = {"status": "violation", "kind": "unusable", "msg": out["msg"][-1200:]}
        if isinstance(e, KeyboardInterrupt) and not simmod.is_injected(e):
            raise
    finally:
        simmod._ACTORS.clear()
        gc.enable()
        reset()
    h = hashlib.blake2b(digest_size=12)
    il = hashlib.blake2b(digest_size=12)
    steps = 0
    nsw = 0
    for s in rec.sims:
        h.update(s.trace.digest())
        il.update(s.interleave.digest())
        steps += s.nstep
        nsw += len(s.switches)
    h.update(rec.hash.digest())
    h.update(repr((out["status"], out.get("kind"), out.get("msg"))).encode() if out["status"] == "violation" else b"")
    out.update(
        digest=h.hexdigest(),
        interleave=il.hexdigest(),
        steps=steps,
        switches=nsw,
        faults=rec.faults,
        probes=rec.probes,
        ops=rec.nops,
        nontrivial=bool(rec.nontrivial or rec.faults or nsw > sum(len(s.actors) for s in rec.sims)),
        simt=sum(s.sim_time for s in rec.sims),
    )
    if rec.group is not None and out["status"] == "ok":
        out["group"] = rec.group
        out["results"] = rec.hash.hexdigest()
    if out["status"] == "violation":
        out["recorded"] = [s.switches for s in rec.sims]
    if log:
        out["log"] = [line for s in rec.sims for line in (s.log or [])]
    return out


def pin(plan, recorded):
    """The same plan with its schedule written out instead of drawn."""
    plan = json.loads(json.dumps(plan))
    if "phases" in plan:
        for ph, sw in zip(plan["phases"], recorded):
            ph["sched"]["switches"] = sw
    elif "sched" in plan and recorded:
        plan["sched"]["switches"] = recorded[0]
    return plan


# ------------------------------------------------------------- plan helpers


def guard(e, what):
    """
    Sorts out an exception that reached a caller: returns if it was injected or
    is not an ordinary exception of the call, raises a Violation otherwise.
    """
    from . import lib

    if isinstance(e, (Violation, simmod.SimAbort, simmod.HarnessError, simmod.LockLeaked)):
        raise e
    if isinstance(e, lib.Bad):
        raise Violation("wrong-result", f"{what}: {e}") from None
    if simmod.is_injected(e):
        return
    raise Violation("raised", f"{what}: raised {type(e).__name__}: {str(e)[:600]}") from e


def call(name, p, approx, mode, what="", ctx=None):
    """One call of the library; a failure that was not injected is a violation."""
    from . import lib

    try:
        return lib.call(name, p, approx, mode, ctx)
    except BaseException as e:
        guard(e, f"{what}{name} (approx={approx}, {mode})")
        raise


def judge(name, p, approx, r, what=""):
    """Judges one answer against the reference model."""
    from . import lib

    try:
        lib.OPS[name].check(p, approx, r)
    except lib.Bad as e:
        raise Violation("wrong-result", f"{what}{name} (approx={approx}): {e}") from None
    except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
        raise Violation("malformed-result", f"{what}{name}: {lib.show(r, 300)}: {e!r}") from e


def r_sched(rng, nactors):
    return {"seed": rng.randrange(1 << 32), "policy": simmod.fresh_policy(rng, nactors)}


def r_fleeting(rng, name, jit=False):
    """Two calls on scenes of the same size but with other content, to be made in turns on scenes dropped in between."""
    from . import lib

    mixed = rng.random() < 0.5
    while True:
        p = lib.r_tracing(rng, hi=1, small=True, cls=rng.choice(["Path", "Path", "Quarter"] if mixed else ["Path", "ImagePath"]))
        n = len(p["scene"]["objects"])
        if not mixed and any(o["t"] == "vertex" or o.get("hook") for o in p["scene"]["objects"]):
            continue
        if lib.ref_candidates(p):
            break
    if name == "accumulate":
        lib.r_fun(rng, p)
        p["reduce"] = rng.random() < 0.4
    else:
        p["valid"] = rng.random() < 0.4
    q = json.loads(json.dumps(p))
    kind = rng.choice([True, "ris", False]) if mixed else False
    q["scene"] = lib.r_scene(rng, len(p["scene"]["tx"]), len(p["scene"]["rx"]), n, kind, hooked=0)
    if rng.random() < 0.5:
        for k in ("tx", "rx"):
            q["scene"][k] = [[m, xy] for (m, _), (_, xy) in zip(p["scene"][k], q["scene"][k])]
    return {"op": "fleeting", "name": name, "ps": [p, q] if rng.random() < 0.5 else [q, p], "approx": rng.random() < 0.5,
            "mode": "jit" if jit else "eager"}


def fleeting(sim, rec, a, s):
    from . import lib

    for i in (0, 1, 0, 1):
        p = s["ps"][i]
        what = f"scene {i} of two short-lived ones: "
        try:
            with op(sim, a, s["mode"]):
                r = lib.call(s["name"], p, s["approx"], s["mode"])
        except BaseException as e:
            guard(e, f"{what}{s['name']}")
            raise
        judge(s["name"], p, s["approx"], r, what)
        rec.result(r)
        del r
    rec.probe("short-lived scenes")


INTERRUPTS = ["KeyboardInterrupt", "SimInterrupt", "MemoryError", "RuntimeError", "OSError", "SystemExit", "ValueError"]


def r_interrupt(rng, hi=3000):
    return {"kind": "interrupt", "at": int(10 ** rng.uniform(0, __import__("math").log10(hi))),
            "exc": rng.choice(INTERRUPTS)}


def generate(pid, seed, index, tier):
    rng = random.Random(f"{seed}:{pid}:{index}")
    rng.index = index
    plan = prop(pid).gen(rng, tier)
    plan.setdefault("pid", pid)
    return plan


# ---------------------------------------------------------------- shrinking


def shrink_lists(plan, path):
    """Plans with elements removed from the list found at ``path``."""
    cur = plan
    for k in path:
        cur = cur[k]
    n = len(cur)
    size = n // 2
    while size >= 1:
        for i in range(0, n - size + 1, size):
            q = json.loads(json.dumps(plan))
            c = q
            for k in path:
                c = c[k]
            del c[i : i + size]
            yield q
        size //= 2


def generic_shrink(plan):
    """Fewer actors, operations, faults and switches."""
    if "actors" in plan:
        for i in range(len(plan["actors"])):
            if len(plan["actors"]) > 1:
                q = json.loads(json.dumps(plan))
                del q["actors"][i]
                q["sched"].pop("switches", None)
                yield q
        for i in range(len(plan["actors"])):
            yield from shrink_lists(plan, ["actors", i])
        for i, a in enumerate(plan["actors"]):
            for j, o in enumerate(a):
                if isinstance(o, dict) and o.get("fault"):
                    q = json.loads(json.dumps(plan))
                    q["actors"][i][j]["fault"] = None
                    yield q
    if "steps" in plan:
        yield from shrink_lists(plan, ["steps"])
    if plan.get("sched", {}).get("switches"):
        yield from shrink_lists(plan, ["sched", "switches"])


__all__ = ["Rec", "Sim", "Violation", "contextlib", "execute", "op"]
