"""C10: a scene never changes once built; edits return independent new scenes."""

import json

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 4000, "thorough": 60000}
CLEAR = False
RULE = (
    "1-3 callers apply random histories of edits to a growing, shared set of scene versions (replace, update, rename, "
    "add, filter, construct from containers that are modified afterwards, derive, failing filters, interrupts at any "
    "line); every version is compared with a list/dict model after every step. Non-trivial: at least one edit of a "
    "shared version after a switch or a fault."
)
REAL = ["differt2d.scene (Scene, PyTreeDict)", "differt2d.geometry objects", "equinox", "JAX"]
STUB = ["thread scheduling", "user filters (scripted)"]

NODE_NAMES = ["tx", "rx", "a", "b", "c", "d", "é", "x y", "0", "name", "transmitters", "key", "A", "tx_1", "TX"]


def r_nodes(rng, lo=0):
    if rng.random() < 0.02:
        # many nodes
        k = rng.randrange(1000)
        return [[f"n{k + i}", lib.r_node(rng)] for i in range(rng.choice([9, 17, 33, 70]))]
    names = list(NODE_NAMES)
    rng.shuffle(names)
    return [[n, lib.r_node(rng)] for n in names[: rng.choice([lo, 1, 1, 2, 3])]]


def r_objs(rng, lo=0):
    if rng.random() < 0.02:
        # many objects
        return [lib.r_object(rng, rng.choice(["wall", "wall", "ris", "vertex"])) for _ in range(rng.choice([9, 17, 33, 70]))]
    return [lib.r_object(rng, rng.choice(["wall", "wall", "ris", "vertex"])) for _ in range(rng.choice([lo, 1, 2, 3]))]


def r_step(rng):
    k = rng.choice(["new", "with_tx", "with_rx", "update_tx", "update_rx", "update_tx", "update_rx", "rename_tx", "rename_rx",
                    "rename_tx", "with_objects", "add_objects", "add_objects", "filter", "filter", "use", "attack",
                    "from_array", "named", "stacked"])
    s = {"op": k, "v": rng.randrange(1 << 16)}
    if k == "new":
        s.update(tx=r_nodes(rng), rx=r_nodes(rng), objects=r_objs(rng), mutate=rng.random() < 0.7,
                 ctype=rng.choice(["dict", "scene"]), otype=rng.choice(["list", "tuple", "list"]))
    elif k.startswith(("with_t", "with_r", "update")):
        s["nodes"] = r_nodes(rng)
        s["mutate"] = rng.random() < 0.5
    elif k.startswith("rename"):
        names = list(NODE_NAMES)
        rng.shuffle(names)
        s["names"] = {}
        # mostly existing names, sometimes swaps, collisions and unknown names
        s["pick"] = [rng.randrange(8) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        s["to"] = [rng.choice(NODE_NAMES) for _ in s["pick"]]
        s["style"] = rng.choice(["random", "swap", "rotate", "unknown"])
    elif k in ("with_objects", "add_objects"):
        s["objects"] = r_objs(rng)
        s["reuse"] = [rng.randrange(1 << 16) for _ in range(rng.choice([0, 0, 1, 2]))]
    elif k == "filter":
        s["keep"] = [rng.random() < 0.6 for _ in range(8)]
        s["style"] = rng.choice(["index", "walls", "left", "truthy", "all", "none"])
        if rng.random() < 0.2:
            s["fail"] = rng.randrange(4)
            s["exc"] = rng.choice(["StopIteration", "GeneratorExit", *simmod.FAILURES])
    elif k == "use":
        s["what"] = rng.choice(["candidates", "iterate", "pairs", "lookup", "object", "paths"])
        s["i"] = rng.randrange(8)
    elif k == "from_array":
        s["objects"] = [lib.r_object(rng, "wall") for _ in range(rng.choice([1, 2, 3]))]
    elif k == "named":
        s["name"] = rng.choice(["basic_scene", "square_scene", "square_scene_with_obstacle", "square_scene_with_wall"])
    if k not in ("attack",) and rng.random() < 0.12:
        s["fault"] = core.r_interrupt(rng, 40)
    return s


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    actors = [[r_step(rng) for _ in range(rng.choice([2, 4, 6, 9]))] for _ in range(n)]
    base = [{"tx": r_nodes(rng, 1), "rx": r_nodes(rng, 1), "objects": r_objs(rng)} for _ in range(rng.choice([1, 2]))]
    return {"base": base, "actors": actors, "sched": core.r_sched(rng, n)}


def diff(scene, model):
    """What differs between a scene and its model, or None."""
    spec = lib.spec_of_scene(scene)
    for k in ("tx", "rx"):
        if [n for n, _ in spec[k]] != [n for n, _ in model[k]]:
            return f"{k} names {[n for n, _ in spec[k]]}, expected {[n for n, _ in model[k]]}"
        if spec[k] != model[k]:
            return f"{k} nodes {spec[k]}, expected {model[k]}"
    if len(spec["objects"]) != len(model["objects"]):
        return f"{len(spec['objects'])} objects, expected {len(model['objects'])}"
    if spec["objects"] != model["objects"]:
        return f"objects {lib.show(spec['objects'])}, expected {lib.show(model['objects'])}"
    return None


def merge(nodes, new):
    d = {n: x for n, x in nodes}
    for n, x in new:
        d[n] = x
    return [[n, x] for n, x in d.items()]


def lookups(scene, model, what):
    """The mapping interface agrees with the model."""
    for side, k in (("transmitters", "tx"), ("receivers", "rx")):
        m = getattr(scene, side)
        d = dict(map(tuple, model[k]))
        if len(m) != len(d) or list(m) != list(d) or list(m.keys()) != list(d):
            raise Violation("mapping", f"{what}: {side} lists {list(m)}, expected {list(d)}")
        for n, x in d.items():
            if n not in m or lib.np.asarray(m[n].xy).tolist() != x:
                raise Violation("mapping", f"{what}: {side}[{n!r}] is wrong")
        if "no such node" in m or m.get("no such node") is not None:
            raise Violation("mapping", f"{what}: unknown name found")
        try:
            m["no such node"]
        except KeyError:
            pass
        else:
            raise Violation("mapping", f"{what}: no KeyError for an unknown name")


def execute(plan, rec):
    S, G = lib.S, lib.G
    sim = rec.sim()
    versions = [(lib.build_scene(b), b) for b in plan["base"]]
    expected_named = {}

    def verify(what, which=None):
        todo = range(len(versions)) if which is None else which
        for i in todo:
            s, m = versions[i]
            d = diff(s, m)
            if d:
                raise Violation("scene-changed", f"{what}: version {i}: {d}")

    def add(scene, model, what):
        d = diff(scene, model)
        if d:
            raise Violation("wrong-edit", f"{what}: {d}")
        versions.append((scene, model))
        rec.result(lib.spec_of_scene(scene))

    def step(a, s):
        i = s["v"] % len(versions)
        scene, model = versions[i]
        k = s["op"]
        what = f"actor {a.idx}: {k} of version {i}"
        new = None
        calls = []
        post = []
        try:
            with core.op(sim, a, "flag", s.get("fault")):
                if k == "new":
                    tx = {n: lib.build_point(p) for n, p in s["tx"]}
                    rx = {n: lib.build_point(p) for n, p in s["rx"]}
                    objs = [lib.build_object(o) for o in s["objects"]]
                    exp = {"tx": s["tx"], "rx": s["rx"], "objects": s["objects"]}
                    if s["ctype"] == "scene":
                        # containers taken from another scene
                        tx = scene.transmitters
                        exp["tx"] = model["tx"]
                    if s["otype"] == "tuple":
                        objs = tuple(objs)
                    r = S.Scene(transmitters=tx, receivers=rx, objects=objs)
                    new = (r, exp)
                    if s["mutate"]:
                        def mutate():
                            for c in (tx, rx):
                                if isinstance(c, dict):
                                    c["intruder"] = lib.build_point([0.5, 0.5])
                                    c.pop(next(iter(c)))
                            if isinstance(objs, list):
                                objs.append(lib.build_object({"t": "wall", "xy": [[0, 0], [1, 1]]}))
                                objs.reverse()
                                del objs[0]
                        post.append(mutate)
                elif k in ("with_tx", "with_rx", "update_tx", "update_rx"):
                    d = {n: lib.build_point(p) for n, p in s["nodes"]}
                    side = k[-2:]
                    meth = {"with_tx": scene.with_transmitters, "with_rx": scene.with_receivers,
                            "update_tx": scene.update_transmitters, "update_rx": scene.update_receivers}[k]
                    r = meth(**d)
                    e = merge(model[side] if k.startswith("update") else [], s["nodes"])
                    new = (r, {**model, side: e})
                    if s["mutate"]:
                        post.append(d.clear)
                elif k in ("rename_tx", "rename_rx"):
                    side = k[-2:]
                    have = [n for n, _ in model[side]]
                    names = {}
                    st = s["style"]
                    if st == "swap" and len(have) >= 2:
                        names = {have[0]: have[-1], have[-1]: have[0]}
                    elif st == "rotate" and have:
                        names = {h: have[(j + 1) % len(have)] for j, h in enumerate(have)}
                    else:
                        for p, t in zip(s["pick"], s["to"]):
                            if have and st != "unknown":
                                names[have[p % len(have)]] = t
                            else:
                                names["zz" + str(p)] = t
                    orig = dict(names)
                    meth = scene.rename_transmitters if side == "tx" else scene.rename_receivers
                    r = meth(**names)
                    e = merge([], [[orig.get(n, n), x] for n, x in model[side]])
                    if len(e) < len(model[side]):
                        rec.probe("rename collision")
                    new = (r, {**model, side: e})
                    if names != orig:
                        raise Violation("input-changed", f"{what}: the caller's names were modified")
                elif k in ("with_objects", "add_objects"):
                    objs = [lib.build_object(o) for o in s["objects"]]
                    e = list(s["objects"])
                    for q in s["reuse"]:
                        if scene.objects:
                            j = q % len(scene.objects)
                            objs.append(scene.objects[j])
                            e.append(model["objects"][j])
                    r = scene.with_objects(*objs) if k == "with_objects" else scene.add_objects(*objs)
                    new = (r, {**model, "objects": e if k == "with_objects" else [*model["objects"], *e]})
                elif k == "filter":
                    left = list(s["keep"])

                    def decide(j, o):
                        st = s["style"]
                        if st == "walls":
                            return o["t"] == "wall"
                        if st == "left":
                            return float(lib.ref.oxy(o).reshape(-1, 2)[0, 0]) < 0.5
                        if st == "truthy":
                            return [0, "", None, 1, "x", 2.5][j % 6]
                        return {"all": True, "none": False}.get(st, left[j % 8])

                    def f(o):
                        j = len(calls)
                        calls.append(lib.spec_of_object(o))
                        sim.point("filter")
                        if s.get("fail") == j:
                            sim.count("filter failed")
                            raise simmod.make_exc(s.get("exc", "SimError"))
                        return decide(j, calls[-1])

                    r = scene.filter_objects(f)
                    if s["style"] in ("index", "truthy"):
                        # an answer per call: only judged when asked once per object, in order
                        ok = calls == model["objects"]
                    else:
                        ok = True
                    if ok:
                        e = [o for j, o in enumerate(model["objects"]) if decide(j, o)]
                        new = (r, {**model, "objects": e})
                elif k == "from_array":
                    r = S.Scene.from_walls_array(lib.f32([o["xy"] for o in s["objects"]]))
                    new = (r, {"tx": [], "rx": [], "objects": s["objects"]})
                elif k == "named":
                    r = S.Scene.from_scene_name(s["name"])
                    sp = lib.spec_of_scene(r)
                    new = (r, expected_named.setdefault(s["name"], sp))
                elif k == "stacked":
                    if model["objects"] and len({o["t"] for o in model["objects"]}) == 1 and model["objects"][0]["t"] == "wall":
                        with lib.mode_ctx("eager"):
                            r = S.Scene.from_stacked_objects(scene.stacked_objects())
                        new = (r, {"tx": [], "rx": [], "objects": model["objects"]})
                elif k == "use":
                    use(scene, s)
                elif k == "attack":
                    attack(scene)
        except simmod.SimAbort:
            raise
        except Violation:
            raise
        except BaseException as e:
            if not simmod.is_injected(e):
                raise Violation("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}") from None
            rec.result(e)
            rec.probe("failed edit")
            new = None
        if new is not None:
            d = diff(*new)
            if d:
                raise Violation("wrong-edit", f"{what}: {d}")
            for p in post:
                p()
                rec.probe("container modified afterwards")
            add(*new, what)
            lookups(*new, what)
        verify(what)

    def use(scene, s):
        w = s["what"]
        with lib.mode_ctx("eager"):
            if w == "candidates":
                scene.all_path_candidates(max_order=1, filter_objects=lambda o: True)
            elif w == "iterate":
                list(scene.objects), list(scene.transmitters.items()), list(scene.receivers.values())
            elif w == "pairs":
                it = scene.all_transmitter_receiver_pairs()
                next(it, None)
            elif w == "lookup":
                for n in scene.transmitters:
                    scene.transmitters[n]
            elif w == "object" and scene.objects and len({type(o) for o in scene.objects}) == 1:
                scene.get_object(lib.jnp.asarray(s["i"] % len(scene.objects)))
            elif w == "paths":
                it = scene.all_paths(lib.G.Path, order=0)
                next(it, None)
                it.close()

    def attack(scene):
        """Attempts to modify a scene in place; they may raise, and must not succeed."""
        p = lib.build_point([0.25, 0.25])
        w = lib.build_object({"t": "wall", "xy": [[0, 0], [1, 1]]})
        for f in (
            lambda: setattr(scene, "objects", ()),
            lambda: setattr(scene, "transmitters", {}),
            lambda: scene.objects.append(w),
            lambda: scene.objects.clear(),
            lambda: scene.objects.__setitem__(0, w),
            lambda: scene.transmitters.__setitem__("intruder", p),
            lambda: scene.receivers.update(intruder=p),
            lambda: scene.transmitters.pop("tx"),
            lambda: scene.receivers.clear(),
            lambda: scene.transmitters.keys().append("x"),
            lambda: scene.with_objects(w),
        ):
            try:
                f()
            except Exception:  # noqa: BLE001, PERF203
                pass

    for i, steps in enumerate(plan["actors"]):
        def main(a, steps=steps):
            for s in steps:
                step(a, s)

        sim.actor(f"caller{i}", main)
    core.run_sim(sim, rec)
    verify("at the end")
    for i, (s, m) in enumerate(versions):
        lookups(s, m, f"version {i}")
    assert G


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, a in enumerate(plan["actors"]):
        for j, s in enumerate(a):
            for k in ("objects", "nodes", "tx", "rx", "reuse"):
                if isinstance(s.get(k), list) and s[k]:
                    yield from core.shrink_lists(plan, ["actors", i, j, k])
    if len(plan["base"]) > 1:
        q = json.loads(json.dumps(plan))
        q["base"].pop()
        yield q
    for i in range(len(plan["base"])):
        for k in ("objects", "tx", "rx"):
            if plan["base"][i][k]:
                yield from core.shrink_lists(plan, ["base", i, k])
