"""
The simulator: one process, real threads parked and released one at a time.

Exactly one actor (caller thread) runs at any moment.  Every line of the code
under test, every lock operation of the code under test and every explicit
``point()`` of the harness is a step at which the scheduler may hand control to
another actor or deliver a fault.  All choices come from one pseudo-random
generator, or from a recorded list when replaying.
"""

import _thread
import hashlib
import json
import os
import random
import re
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_real_RLock = _thread.RLock
_get_ident = _thread.get_ident

_ACTORS = {}  # thread ident -> Actor, only while a run is active
_TOOL = 3
_NO_INTERRUPT = set()  # code objects inside which no asynchronous fault is delivered
STEP_CAP = 3_000_000


class SimInterrupt(BaseException):
    """An asynchronous interrupt delivered by the simulator."""


class SimError(Exception):
    """An ordinary failure injected by the simulator."""


class SimAbort(BaseException):
    """Unwinds an actor at the end of a failed run."""


class HarnessError(Exception):
    """The simulator or the harness misbehaved (never a verdict)."""


EXCS = {
    "SimInterrupt": SimInterrupt,
    "SimError": SimError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "RecursionError": RecursionError,
    "StopIteration": StopIteration,
    "GeneratorExit": GeneratorExit,
    "SystemExit": SystemExit,
    "ValueError": ValueError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "LookupError": LookupError,
    "ZeroDivisionError": ZeroDivisionError,
    "FloatingPointError": FloatingPointError,
    "OverflowError": OverflowError,
    "NotImplementedError": NotImplementedError,
    "AssertionError": AssertionError,
    "NameError": NameError,
    "ImportError": ImportError,
    "EOFError": EOFError,
    "TimeoutError": TimeoutError,
    "BlockingIOError": BlockingIOError,
    "InterruptedError": InterruptedError,
    "BrokenPipeError": BrokenPipeError,
    "UserWarning": UserWarning,
    "JSONDecodeError": lambda tag: json.JSONDecodeError(tag, "", 0),
    "UnicodeDecodeError": lambda tag: UnicodeDecodeError("utf-8", b"\xff", 0, 1, tag),
}

# what a callback or a custom object may raise
FAILURES = [
    "SimError", "ValueError", "TypeError", "RuntimeError", "AttributeError", "KeyError", "IndexError", "LookupError",
    "ZeroDivisionError", "FloatingPointError", "OverflowError", "NotImplementedError", "AssertionError", "NameError",
    "ImportError", "UserWarning", "MemoryError", "OSError", "TimeoutError", "EOFError", "SimInterrupt",
]
# what reading a stream may raise
IO_FAILURES = [
    "OSError", "OSError", "ValueError", "EOFError", "TimeoutError", "BlockingIOError", "InterruptedError", "BrokenPipeError",
    "AttributeError", "TypeError", "NotImplementedError", "UnicodeDecodeError", "JSONDecodeError", "MemoryError",
    "KeyboardInterrupt", "SimInterrupt", "StopIteration",
]


def make_exc(name, tag="injected"):
    e = EXCS[name](tag)
    try:
        e.dst_injected = True
    except Exception:  # pragma: no cover
        pass
    return e


def is_injected(e):
    seen = 0
    while e is not None and seen < 20:
        if type(e).__name__ == "Violation":
            return False
        if getattr(e, "dst_injected", False):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


# --------------------------------------------------------------------- locks


class SimLock:
    """Stand-in for the locks created by the code under test."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        a = _ACTORS.get(_get_ident())
        return a if a is not None else ("ext", _get_ident())

    def free_for(self, me):
        return self.owner is None or (self.reentrant and self.owner is me)

    def acquire(self, blocking=True, timeout=-1):
        a = _ACTORS.get(_get_ident())
        if a is None:
            me = self._me()
            if self.owner is not None and not (self.reentrant and self.owner == me):
                if not blocking or timeout >= 0:
                    return False
                msg = "lock left locked after the run"
                raise LockLeaked(msg)
            self.owner = me
            self.count += 1
            return True
        a.sim.step(a, None, "acquire", point=True)
        while not self.free_for(a):
            if not blocking:
                return False
            if not a.sim.block(a, self, timeout):
                return False
        self.owner = a
        self.count += 1
        return True

    def release(self):
        me = self._me()
        if self.owner is None:
            msg = "release unlocked lock"
            raise RuntimeError(msg)
        if self.reentrant and self.owner != me:
            msg = "cannot release un-acquired lock"
            raise RuntimeError(msg)
        self.count -= 1
        if self.count == 0:
            self.owner = None
        a = _ACTORS.get(_get_ident())
        if a is not None and not a.unwinding:
            a.sim.step(a, None, "release", point=True, fault=False)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # threading.Condition protocol
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        state, self.count = self.count, 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class LockLeaked(Exception):
    """A lock of the code under test is still held when nobody is running."""


LIB_LOCKS = []


def patch_locks(prefix):
    def wrap(real, reentrant):
        def factory(*args, **kwargs):
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename == threading.__file__:
                f = f.f_back
            if f is not None and f.f_code.co_filename.startswith(prefix):
                lock = SimLock(reentrant)
                LIB_LOCKS.append(lock)
                return lock
            return real(*args, **kwargs)

        return factory

    threading.Lock = wrap(threading.Lock, False)
    threading._allocate_lock = wrap(threading._allocate_lock, False)
    threading.RLock = wrap(threading.RLock, True)
    _thread.allocate_lock = wrap(_thread.allocate_lock, False)
    _thread.RLock = wrap(_thread.RLock, True)


# ---------------------------------------------------------------- monitoring

_line_enabled = False
_CODES = []


def _on_line(code, line):
    a = _ACTORS.get(_get_ident())
    if a is not None and a.live:
        a.sim.step(a, code, line)


def _on_instr(code, offset):
    a = _ACTORS.get(_get_ident())
    if a is not None and a.live:
        a.sim.step(a, code, -offset)


SCOPE_NAMES = ("enable_approx", "disable_approx", "set_approx")
# everything else in the logic module only evaluates; what is neither (a helper of the scopes, however it is called)
# counts as part of entering or leaving a scope
EVALUATES = re.compile(r"(logical_|greater|less|is_true|is_false|true_value|false_value|activation|sigmoid|hard_sigmoid|minimum|maximum)")


def entering_or_leaving(code, frame=None, depth=5):
    """Whether the code is part of entering or leaving an approximation scope, or is called by it."""
    if code in _NO_INTERRUPT:
        return True
    while frame is not None and depth:
        if frame.f_code in _NO_INTERRUPT:
            return True
        frame, depth = frame.f_back, depth - 1
    return False


def instrument(codes):
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "dst")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instr)
    _CODES.extend(codes)
    for c in codes:
        name = c.co_qualname.split(".")[0]
        if name in SCOPE_NAMES or (os.path.basename(c.co_filename) == "logic.py" and not EVALUATES.match(name)):
            _NO_INTERRUPT.add(c)
    set_granularity("line")


def set_granularity(kind, pred=lambda c: True):
    """kind: 'line', 'instr' (for codes satisfying pred, lines elsewhere) or 'off'."""
    mon = sys.monitoring
    for c in _CODES:
        ev = 0
        if kind == "line" or kind == "instr":
            ev = mon.events.LINE
        if kind == "instr" and pred(c):
            ev = mon.events.INSTRUCTION
        mon.set_local_events(_TOOL, c, ev)


# ----------------------------------------------------------------- scheduler


class Actor:
    def __init__(self, sim, idx, name):
        self.sim = sim
        self.idx = idx
        self.name = name
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "ready"  # ready, blocked, done
        self.waiting = None
        self.timed = False
        self.pending = None  # exception to raise when resumed
        self.mode = "flag"  # flag, eager, jit: what the current op does
        self.midtrace = False
        self.live = False  # steps count only while an operation is running
        self.unwinding = False
        self.op_steps = 0
        self.fault = None  # {"kind": "interrupt"|"wait", "at": k, "exc": name}
        self.error = None

    def __repr__(self):
        return f"actor{self.idx}"


class Sim:
    """One simulated execution."""

    def __init__(self, seed, policy=None, switches=None, log=False):
        self.rng = random.Random(f"sched:{seed}")
        self.policy = dict(policy or {})
        self.replay = None
        if switches is not None:
            self.replay = {int(s): int(a) for s, a in switches}
        self.actors = []
        self.nstep = 0
        self.switches = []  # [step, actor]: every change of the running actor
        self.interleave = hashlib.blake2b(digest_size=12)
        self.trace = hashlib.blake2b(digest_size=12)
        self.log = [] if log else None
        self.aborting = False
        self.deadlock = None
        self.livelock = False
        self.fired = {}
        self.p = float(self.policy.get("p", 0.0))
        self.pp = float(self.policy.get("pp", 0.0))
        self.focus = self.policy.get("focus")
        self.hot = self.policy.get("hot")
        self._pc = {}
        self._done = _real_allocate()
        self._done.acquire()
        self._last_progress = time.monotonic()
        self.sim_time = 0.0

    # -- set-up
    def actor(self, name, body):
        a = Actor(self, len(self.actors), name)
        a.body = body
        self.actors.append(a)
        return a

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- steps
    def _prob(self, code, point, where=None):
        if point or code is None:
            return self.pp
        if self.hot:
            # few chosen lines where control often changes hands, long stretches elsewhere
            p = self._pc.get((code, where))
            if p is None:
                h = hashlib.blake2b(f"{self.focus}:{code.co_qualname}:{where}".encode(), digest_size=4).digest()
                p = self._pc[code, where] = 0.3 if int.from_bytes(h, "big") % self.hot == 0 else self.p
            return p
        p = self._pc.get(code)
        if p is None:
            p = self.p
            if self.focus is not None:
                h = hashlib.blake2b(
                    f"{self.focus}:{code.co_qualname}".encode(),
                    digest_size=2,
                ).digest()[0]
                p = min(0.5, p * 12) if h % 4 == 0 else p * 0.5
            self._pc[code] = p
        return p

    def step(self, a, code, where, point=False, fault=True):
        """One step of the running actor: maybe a fault, maybe a switch."""
        if a.unwinding:
            return
        self.nstep += 1
        n = self.nstep
        if n > STEP_CAP:
            self.livelock = True
            self.abort()
            a.unwinding = True
            raise SimAbort
        if fault and code is not None:
            a.op_steps += 1
            f = a.fault
            if (
                f is not None
                and f["kind"] == "interrupt"
                and a.op_steps >= f["at"]
                and not entering_or_leaving(code, sys._getframe(1))
            ):
                a.fault = None
                self.note(a, "interrupt", code.co_qualname, where)
                self.count("interrupt:" + f["exc"])
                raise make_exc(f["exc"])
        nxt = None
        if self.replay is not None:
            t = self.replay.get(n)
            if t is not None and t != a.idx and t < len(self.actors):
                b = self.actors[t]
                if self.runnable(b, a):
                    nxt = b
        elif len(self.actors) > 1 and self.rng.random() < self._prob(code, point, where):
            others = [b for b in self.actors if b is not a and self.runnable(b, a)]
            if others:
                nxt = others[self.rng.randrange(len(others))]
        if nxt is not None:
            self._transfer(a, nxt, code, where)

    def point(self, tag="point"):
        """An explicit step, called by harness callbacks running in an actor."""
        a = _ACTORS.get(_get_ident())
        if a is not None and a.sim is self and not a.unwinding:
            self.step(a, None, tag, point=True)

    def note(self, a, kind, *what):
        s = f"{self.nstep}:{a.idx if a else '-'}:{kind}:{what}"
        self.trace.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    # -- switching
    @staticmethod
    def _dirty():
        import jax

        return not jax.core.trace_state_clean()

    def runnable(self, b, cur=None):
        if b.state == "done":
            return False
        if b.state == "blocked" and not (
            b.pending is not None or b.timed or b.waiting.free_for(b)
        ):
            return False
        if b.mode == "jit":
            for c in self.actors:
                if c is b or c.state == "done" or c.mode != "jit":
                    continue
                if c is cur:
                    if self._dirty():
                        return False
                elif c.midtrace:
                    return False
        return True

    def _choose(self, a):
        """Next actor when the current one cannot go on."""
        cand = [b for b in self.actors if b is not a and self.runnable(b, a)]
        if not cand:
            # a waiter with a time-out gives up: the simulated clock jumps
            cand = [b for b in self.actors if b.state == "blocked" and b.timed]
            if cand:
                b = cand[0]
                b.pending = "timeout"
                self.sim_time += 1.0
                return b
            # lift the compilation rule rather than declare a false deadlock
            cand = [
                b
                for b in self.actors
                if b is not a
                and b.state != "done"
                and (b.state == "ready" or b.waiting.free_for(b))
            ]
        if not cand:
            return None
        if len(cand) == 1:
            return cand[0]
        if self.replay is not None:
            t = self.replay.get(self.nstep)
            for b in cand:
                if b.idx == t:
                    return b
            return cand[0]
        return cand[self.rng.randrange(len(cand))]

    def _transfer(self, a, b, code, where):
        self.switches.append([self.nstep, b.idx])
        w = f"{code.co_qualname}:{where}" if code is not None else str(where)
        self.interleave.update(f"{a.idx}>{b.idx}@{w};".encode())
        self.note(a, "switch", b.idx, w)
        a.midtrace = a.mode == "jit" and self._dirty()
        self._last_progress = time.monotonic()
        self._wake(b)
        b.gate.release()
        a.gate.acquire()
        a.midtrace = False
        if self.aborting:
            a.unwinding = True
            raise SimAbort
        if a.pending is not None and a.state == "ready":
            e, a.pending = a.pending, None
            raise e

    def _wake(self, b):
        """A waiter with a time-out that runs while the lock is taken gives up: the simulated clock jumped."""
        if b.state == "blocked" and b.timed and b.pending is None and not b.waiting.free_for(b):
            b.pending = "timeout"
            self.sim_time += 1.0
            self.count("lock wait timed out")

    def compile_turn(self, a):
        """Lets a caller that is in the middle of a compilation finish it (JAX holds real locks meanwhile)."""
        while not a.unwinding:
            cs = [
                c
                for c in self.actors
                if c is not a and c.mode == "jit" and c.midtrace
                and (c.state == "ready" or (c.state == "blocked" and c.waiting.free_for(c)))
            ]
            if not cs:
                return
            self.nstep += 1
            self._transfer(a, cs[0], None, "compile-turn")

    def block(self, a, lock, timeout=-1):
        """Parks ``a`` until ``lock`` is free.  False when the wait timed out."""
        a.state, a.waiting, a.timed = "blocked", lock, timeout is not None and timeout >= 0
        f = a.fault
        if f is not None and f["kind"] == "wait":
            f["at"] -= 1
            if f["at"] <= 0:
                a.fault = None
                a.pending = make_exc(f["exc"])
        b = self._choose(a)
        if b is None or b is a:
            if a.pending is None:
                a.state = "ready"
                self.deadlock = [
                    (c.idx, c.state) for c in self.actors if c.state != "done"
                ]
                self.note(a, "deadlock")
                a.unwinding = True
                self.abort()
                raise SimAbort
        else:
            self.switches.append([self.nstep, b.idx])
            self.interleave.update(f"{a.idx}>{b.idx}@block;".encode())
            self.note(a, "block", b.idx)
            a.midtrace = a.mode == "jit" and self._dirty()
            self._wake(b)
            b.gate.release()
            a.gate.acquire()
            a.midtrace = False
        a.state, a.waiting, a.timed = "ready", None, False
        if self.aborting:
            a.unwinding = True
            raise SimAbort
        if a.pending is not None:
            e, a.pending = a.pending, None
            if e == "timeout":
                return False
            self.note(a, "wait-interrupt", type(e).__name__)
            self.count("interrupt-while-waiting:" + type(e).__name__)
            raise e
        return True

    def abort(self):
        self.aborting = True

    # -- run
    def _main(self, a):
        a.gate.acquire()
        _ACTORS[_get_ident()] = a
        try:
            if not self.aborting:
                a.body(a)
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001
            a.error = e
            self.aborting = True
        finally:
            a.unwinding = True
            _ACTORS.pop(_get_ident(), None)
            a.state = "done"
            a.mode = "flag"
            self._finish(a)

    def _finish(self, a):
        left = [b for b in self.actors if b.state != "done"]
        if not left:
            self._done.release()
            return
        if self.aborting:
            left[0].gate.release()
            return
        b = self._choose(a)
        if b is None:
            self.deadlock = [(c.idx, c.state) for c in left]
            self.note(a, "deadlock")
            self.aborting = True
            left[0].gate.release()
            return
        self.switches.append([self.nstep, b.idx])
        self.interleave.update(f"{a.idx}>{b.idx}@end;".encode())
        self._wake(b)
        self.note(a, "end", b.idx)
        b.gate.release()

    def run(self, wall_timeout=300.0):
        """Runs all actors to completion, on the calling (driver) thread's behalf."""
        if not self.actors:
            return
        old = sys.getswitchinterval()
        try:
            for a in self.actors:
                t = threading.Thread(target=self._main, args=(a,), daemon=True)
                a.thread = t
                t.start()
            if self.replay is not None:
                first = self.actors[self.replay.get(0, 0) % len(self.actors)]
            else:
                first = self.actors[self.rng.randrange(len(self.actors))]
            self.switches.append([0, first.idx])
            first.gate.release()
            if not self._done.acquire(timeout=wall_timeout):
                msg = "run stalled: " + self.dump()
                raise HarnessError(msg)
            for a in self.actors:
                a.thread.join(10)
        finally:
            sys.setswitchinterval(old)
        for a in self.actors:
            if a.error is not None:
                raise HarnessError(f"actor {a.idx}: {a.error!r}") from a.error

    def dump(self):
        import traceback

        out = []
        frames = sys._current_frames()
        for a in self.actors:
            out.append(f"--- {a} state={a.state} mode={a.mode}")
            f = frames.get(getattr(a.thread, "ident", None))
            if f is not None:
                out.append("".join(traceback.format_stack(f)[-8:]))
        return "\n".join(out)


class op:
    """Context manager around one operation of an actor: counts and faults are per operation."""

    def __init__(self, sim, actor, mode="flag", fault=None):
        self.sim, self.a, self.mode = sim, actor, mode
        self.fault = dict(fault) if fault else None

    def __enter__(self):
        a = self.a
        a.mode = self.mode
        a.op_steps = 0
        a.fault = self.fault
        a.live = True
        # a place to be scheduled away right before the call starts, outside the call's own code
        self.sim.step(a, None, "op", point=True)
        if self.mode == "jit":
            self.sim.compile_turn(a)
        return self

    def __exit__(self, t, v, tb):
        a = self.a
        a.live = False
        a.fault = None
        self.steps = a.op_steps
        return False


def fresh_policy(rng, nactors):
    """Draws a scheduling policy: how often and where control changes hands."""
    if nactors < 2:
        return {"p": 0.0, "pp": 0.0}
    p = 10 ** rng.uniform(-3.5, -0.4)
    pp = rng.choice([0.05, 0.2, 0.5])
    pol = {"p": round(p, 6), "pp": pp}
    k = rng.random()
    if k < 0.7:
        pol["focus"] = rng.randrange(1 << 16)
    if k < 0.35:
        pol["hot"] = rng.choice([8, 16, 32, 64])
        pol["p"] = rng.choice([0.0, 0.0003, 0.002])
        pol["pp"] = rng.choice([0.0, 0.02, 0.2])
    return pol
