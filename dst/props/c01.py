"""C01: approximation scopes are exclusive between threads and always restored."""

import json

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 24000, "thorough": 400000}
CLEAR = False
RULE = (
    "2-4 caller threads run random programs of nested scopes (with statement, decorator, a decorated function "
    "shared by all threads, the disabling alias), set calls, reads and un-jitted library calls; preemption at every "
    "bytecode of logic.py; exceptions in bodies and while waiting. Non-trivial: a switch inside an operation or a fault."
)
REAL = ["differt2d.logic (scopes, set, comparison functions)", "contextlib", "real threads, one released at a time"]
STUB = ["RLock/Lock created by differt2d (simulated lock with the same semantics)", "thread scheduling"]

EXC = ["SimInterrupt", "SimError", "KeyboardInterrupt", "StopIteration", "GeneratorExit", "ValueError", "SystemExit"]
MAXCFG = 4000


def r_body(rng, depth, budget):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = rng.random()
        if k < 0.42 and depth < 4:
            s = {"op": "scope", "form": rng.choice(["with", "with", "deco", "disable", "disable_deco", "default", "shared"]),
                 "enable": rng.random() < 0.5, "body": r_body(rng, depth + 1, budget)}
            if s["form"] == "default":
                s["enable"] = True
            if s["form"] == "shared":
                s["i"] = rng.randrange(2)
            if rng.random() < 0.25:
                s["raise"] = rng.choice(EXC)
                s["catch"] = rng.random() < 0.8
            if rng.random() < 0.15:
                s["fault"] = {"kind": "wait", "at": 1, "exc": rng.choice(["KeyboardInterrupt", "SimInterrupt"])}
            out.append(s)
        elif k < 0.62:
            s = {"op": "set", "enable": rng.random() < 0.5}
            if rng.random() < 0.15:
                s["fault"] = {"kind": "wait", "at": 1, "exc": "SimInterrupt"}
            out.append(s)
        elif k < 0.72:
            out.append({"op": "call"})
        elif k < 0.85:
            out.append({"op": "read"})
        else:
            out.append({"op": "point"})
    return out


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    actors = []
    for _ in range(n):
        b = [rng.choice([3, 6, 10])]
        a = []
        while not a:
            a = r_body(rng, 0, b)
            b[0] = max(b[0], 3)
        if rng.random() < 0.12:
            # deep nesting
            for _ in range(rng.choice([6, 9, 14, 20])):
                a = [{"op": "scope", "form": rng.choice(["with", "deco", "disable"]), "enable": rng.random() < 0.5, "body": a},
                     *([{"op": "read"}] if rng.random() < 0.5 else [])]
        actors.append(a)
    sched = core.r_sched(rng, n)
    if n > 1:
        sched["policy"]["p"] = round(10 ** rng.uniform(-2.2, -0.3), 5)
    return {"actors": actors, "base": rng.random() < 0.5, "shared": [rng.random() < 0.5, rng.random() < 0.5],
            "sched": sched}


class Model:
    """
    All sequential explanations of what was observed so far.

    A configuration is (value, owner, saved values of the owner's open scopes,
    pending operations not yet taken effect).  Operations take effect at one
    instant between call and return, only while no other thread is in a scope.
    """

    def __init__(self, base):
        self.cfgs = {(base, None, (), frozenset())}
        self.n = 0

    def _close(self):
        """Adds every configuration in which more pending operations took effect."""
        todo = list(self.cfgs)
        seen = set(self.cfgs)
        while todo:
            v, own, saved, pend = todo.pop()
            for o in pend:
                kind, a, val = o[:3]
                if own is not None and own != a:
                    continue
                rest = pend - {o}
                if kind == "set":
                    c = (val, own, saved, rest)
                elif kind == "enter":
                    c = (val, a, (*saved, v), rest)
                else:
                    if own != a:
                        continue
                    c = (saved[-1], a if len(saved) > 1 else None, saved[:-1], rest)
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        self.cfgs = seen
        if len(seen) > MAXCFG:
            msg = "model too large"
            raise simmod.HarnessError(msg)

    def invoke(self, kind, a, val=None):
        self.n += 1
        o = (kind, a, val, self.n)
        self.cfgs = {(v, w, s, p | {o}) for v, w, s, p in self.cfgs}
        return o

    def respond(self, o, what):
        self._close()
        self.cfgs = {c for c in self.cfgs if o not in c[3]}
        if not self.cfgs:
            raise Violation("not-sequential", f"{what}: no sequential order of the calls explains the observations")

    def fail(self, o, what):
        """The operation raised while waiting: it must not have taken effect."""
        self.cfgs = {(v, w, s, p - {o}) for v, w, s, p in self.cfgs if o in p}
        if not self.cfgs:
            raise Violation("not-sequential", f"{what}: a call interrupted while waiting took effect")

    def observe(self, value, what):
        self._close()
        self.cfgs = {c for c in self.cfgs if c[0] is value}
        if not self.cfgs:
            raise Violation("wrong-default", f"{what}: the default is {value!r}, which no sequential order explains")

    def owned(self, a):
        """The default is settled for ``a``: it is inside a scope."""
        return {c[0] for c in self.cfgs} if all(c[1] == a for c in self.cfgs) else None


def execute(plan, rec):
    L, jax = lib.L, lib.jax
    L.ENABLE_APPROX = plan["base"]
    model = Model(plan["base"])
    sim = rec.sim()
    current = {}

    def observe(what):
        v = L.ENABLE_APPROX
        rec.hash.update(b"1" if v else b"0")
        rec.nops += 1
        model.observe(v, what)

    # functions decorated once and shared by every thread; what they do is per thread
    shared = []
    for e in plan["shared"]:
        @L.enable_approx(e)
        def f():
            a = simmod._ACTORS[simmod._get_ident()]
            return current[a.idx].pop()()

        shared.append(f)

    def run(a, body, depth):
        for s in body:
            k = s["op"]
            what = f"actor {a.idx}: {k}"
            if k == "scope":
                scope(a, s, depth)
            elif k == "set":
                o = model.invoke("set", a.idx, s["enable"])
                try:
                    with core.op(sim, a, "flag", s.get("fault")):
                        L.set_approx(s["enable"])
                except BaseException as e:
                    if not simmod.is_injected(e):
                        raise
                    model.fail(o, what)
                else:
                    model.respond(o, what)
                observe(what)
            elif k == "read":
                sim.point("read")
                observe(what)
            elif k == "call":
                known = model.owned(a.idx)
                with jax.disable_jit(), core.op(sim, a, "flag"):
                    r = L.greater(0.5, 0.25)
                    t = L.true_value()
                if known is not None:
                    rec.probe("calls inside a scope")
                    got = {str(r.dtype) != "bool", str(t.dtype) != "bool"}
                    if len(got) > 1 or not got <= known:
                        raise Violation("wrong-choice", f"{what}: a call inside the scope used {got}, not {known}")
            else:
                sim.point("point")

    def scope(a, s, depth):
        enable = s["enable"] if s["form"] != "shared" else plan["shared"][s["i"]]
        what = f"actor {a.idx}: scope({enable}, {s['form']})"
        o = model.invoke("enter", a.idx, enable)
        state = {"entered": False, "exit": None}
        inj = []

        def body():
            a.live = False
            state["entered"] = True
            model.respond(o, what)
            rec.probe(f"nesting depth {depth}")
            observe(what + " entered")
            try:
                run(a, s["body"], depth + 1)
                observe(what + " leaving")
                if "raise" in s:
                    e = simmod.make_exc(s["raise"])
                    inj.append(e)
                    rec.fault("exception in body:" + s["raise"])
                    raise e
            finally:
                if not a.unwinding:
                    state["exit"] = model.invoke("exit", a.idx)
                    a.live = True

        caught = None
        try:
            with core.op(sim, a, "flag", s.get("fault")):
                if s["form"] == "with":
                    with L.enable_approx(enable):
                        body()
                elif s["form"] == "default":
                    with L.enable_approx():
                        body()
                elif s["form"] == "disable":
                    with L.disable_approx(not enable):
                        body()
                elif s["form"] == "shared":
                    current.setdefault(a.idx, []).append(body)
                    n = len(current[a.idx])
                    try:
                        shared[s["i"]]()
                    finally:
                        del current[a.idx][n - 1 :]
                elif s["form"] == "disable_deco":
                    L.disable_approx(not enable)(body)()
                else:
                    L.enable_approx(enable)(body)()
        except simmod.SimAbort:
            raise
        except BaseException as e:
            if not simmod.is_injected(e):
                raise
            caught = e
        if not state["entered"]:
            if caught is None:
                raise Violation("body-skipped", f"{what}: the body did not run")
            model.fail(o, what)
            rec.probe("interrupted while waiting")
            observe(what + " not entered")
            return
        model.respond(state["exit"], what + " left")
        observe(what + " left")
        if inj and caught is not inj[0]:
            raise Violation("exception-lost", f"{what}: {inj[0]!r} raised in the body came out as {caught!r}")
        if caught is not None and not s.get("catch", True) and depth > 0:
            raise caught

    for i, b in enumerate(plan["actors"]):
        def main(a, b=b):
            try:
                run(a, b, 0)
            except simmod.SimAbort:
                raise
            except BaseException as e:
                if not simmod.is_injected(e):
                    raise

        sim.actor(f"caller{i}", main)
    simmod.set_granularity("instr", lambda c: c.co_filename.endswith("logic.py"))
    try:
        core.run_sim(sim, rec)
    finally:
        simmod.set_granularity("line")
    observe("after all callers returned")
    if len(plan["actors"]) > 1 and len(sim.switches) > len(plan["actors"]):
        rec.nontrivial = True
    vals = {c[0] for c in model.cfgs}
    if L.ENABLE_APPROX not in vals:
        raise Violation("wrong-default", "final")
    L.ENABLE_APPROX = False


def shrink(plan):
    yield from core.generic_shrink(plan)

    # inner bodies
    def paths(body, pre):
        for i, s in enumerate(body):
            if s.get("op") == "scope":
                yield [*pre, i]
                yield from paths(s["body"], [*pre, i, "body"])

    for a, body in enumerate(plan["actors"]):
        for p in paths(body, ["actors", a]):
            yield from core.shrink_lists(plan, [*p, "body"])
            for key in ("raise", "fault"):
                q = json.loads(json.dumps(plan))
                c = q
                for k in p:
                    c = c[k]
                if c.pop(key, None) is not None:
                    yield q
            q = json.loads(json.dumps(plan))
            c = q
            for k in p[:-1]:
                c = c[k]
            c[p[-1] : p[-1] + 1] = c[p[-1]]["body"]
            yield q
