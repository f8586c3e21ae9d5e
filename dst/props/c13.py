"""C13: plotting touches only the given axes and returns exactly what it drew."""

import json
import types

import numpy as np

from .. import core, lib
from .. import sim as simmod
from ..core import Violation

RUNS = {"quick": 2400, "thorough": 60000}
RULE = (
    "one to three clients plot scenes, objects and paths on several axes of several figures, remove what was returned, "
    "clear and plot again, interleaved at single lines and inside every drawing call, while drawing calls and custom "
    "objects fail at drawn positions and interrupts arrive; after every completed call the axes hold what the calls "
    "returned and nothing else, no other axes (also pyplot's current one) changed, and the artists are the ones the "
    "scene asks for. Non-trivial: a failure was delivered or two clients interleaved or something was removed."
)
REAL = ["differt2d plotting", "matplotlib figures and axes"]
STUB = ["Axes subclass whose drawing calls can fail", "no display (figures without a canvas back end)", "thread scheduling"]
CLEAR = False

_cls = {}


def classes():
    """A user's axes and a user's object (defined once matplotlib and the library are loaded)."""
    if _cls:
        return _cls
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure

    class FlakyAxes(Axes):
        def scatter(self, *a, **k):
            lib.fire("draw")
            r = super().scatter(*a, **k)
            lib.fire("drawn")
            return r

        def plot(self, *a, **k):
            lib.fire("draw")
            r = super().plot(*a, **k)
            lib.fire("drawn")
            return r

        def annotate(self, *a, **k):
            lib.fire("draw")
            return super().annotate(*a, **k)

    class Sign(lib.G.Wall):
        """A user's object made of several artists."""

        def plot(self, ax, *args, **kwargs):
            lib.fire("object")
            out = list(super().plot(ax, *args, **kwargs))
            lib.fire("object")
            out.append(ax.annotate("sign", xy=(float(self.xys[0, 0]), float(self.xys[0, 1]))))
            return out

    class Ghost(lib.G.Wall):
        """A user's object that draws nothing."""

        def plot(self, ax, *args, **kwargs):
            lib.fire("object")
            return []

    _cls.update(Axes=FlakyAxes, Figure=Figure, Sign=Sign, Ghost=Ghost, plt=plt)
    return _cls


NAMES = ["tx", "rx", "a", "b", "c", "é", "tx_0", "A", "0", "sign", "x y"]
COLORS = ["red", "black", "orange", "purple"]
TRIVIAL = {"alpha": [0.25, 0.75], "zorder": [3, 7]}


def r_obj(rng):
    k = rng.choice(["wall"] * 4 + ["ris", "vertex", "sign", "ghost"])
    if k in ("sign", "ghost"):
        return {**lib.r_wall(rng), "t": k}
    return lib.r_object(rng, k)


def r_opts(rng, kind):
    o = {}
    if rng.random() < 0.5:
        o["color"] = rng.choice(COLORS)
    if kind == "node":
        if rng.random() < 0.3:
            o["marker"] = rng.choice(["x", "s", "^"])
        if rng.random() < 0.3:
            o["annotate_offset"] = [rng.choice([0.0, 0.125]), rng.choice([0.25, -0.125])]
        if rng.random() < 0.3:
            o["annotate_kwargs"] = {"color": rng.choice(COLORS)}
    elif rng.random() < 0.3:
        o["linewidth"] = rng.choice([0.5, 3.0])
    if rng.random() < 0.2:
        o["label"] = rng.choice(["l1", "l2"])
    return o


def r_step(rng, nax, nsc):
    z = rng.random()
    ax = rng.randrange(nax)
    if z < 0.25:
        return {"op": "remove", "i": rng.randrange(8)}
    if z < 0.29:
        return {"op": "clear", "ax": ax}
    if z < 0.4:
        t = rng.choice(["point", "wall", "ris", "vertex", "path", "ray"])
        s = {"op": "object", "ax": ax, "t": t, "xys": [lib.r_node(rng) for _ in range(4)], "opts": r_opts(rng, "object"),
             "name": rng.choice([None, *NAMES])}
        s["opts"].pop("linewidth", None)
        if rng.random() < 0.3:
            s["pos"] = [rng.choice([4.0, 25.0, 81.0])] if t in ("point", "vertex") else [rng.choice(["--", ":", "-."])]
    else:
        s = {"op": "scene", "ax": ax, "s": rng.randrange(nsc), "kw": {}}
        for k in ("transmitters", "objects", "receivers", "annotate"):
            if rng.random() < 0.3:
                s["kw"][k] = rng.random() < 0.4
        for k, kind in (("transmitters_kwargs", "node"), ("objects_kwargs", "object"), ("receivers_kwargs", "node")):
            if rng.random() < 0.5:
                s[k] = r_opts(rng, kind)
        for k, v in TRIVIAL.items():
            if rng.random() < 0.2:
                s.setdefault("all", {})[k] = rng.choice(v)
        # positional options: a marker size for nodes, a line style for objects
        for k in ("transmitters_args", "receivers_args"):
            if rng.random() < 0.15:
                s[k] = [rng.choice([4.0, 25.0, 81.0])]
        if rng.random() < 0.15:
            s["objects_args"] = [rng.choice(["--", ":", "-."])]
        if rng.random() < 0.15:
            s["args"] = rng.choice(["nodes", "objects"])
    z = rng.random()
    if z < 0.15:
        s["fault"] = {"kind": "raise", "exc": rng.choice(simmod.FAILURES), "at": rng.choice([1, 1, 2, 3, 4, 6, 9])}
    elif z < 0.22:
        s["fault"] = core.r_interrupt(rng, 120)
    return s


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    scenes = []
    for _ in range(rng.choice([1, 2])):
        nn = [lib.r_names(rng, rng.choice([0, 1, 1, 2, 3]), NAMES) for _ in range(2)]
        scenes.append({
            "tx": [[x, lib.r_node(rng)] for x in nn[0]], "rx": [[x, lib.r_node(rng)] for x in nn[1]],
            "objects": [r_obj(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))],
        })
    if rng.random() < 0.03:
        # a large scene
        for k in ("tx", "rx"):
            scenes[0][k] = [[f"{k}{i}", lib.r_node(rng)] for i in range(rng.choice([0, 2, 11, 17]))]
        scenes[0]["objects"] = [r_obj(rng) for _ in range(rng.choice([3, 17, 33]))]
    nax = rng.choice([1, 2, 3])
    if rng.random() < 0.2 and scenes[0]["objects"]:
        scenes[0]["objects"].append(scenes[0]["objects"][0])  # the same place twice
    return {
        "scenes": scenes, "axes": [rng.randrange(2) for _ in range(nax)],
        "proxy": rng.random() < 0.5, "decoy": rng.random() < 0.5,
        "actors": [[r_step(rng, nax, len(scenes)) for _ in range(rng.choice([2, 4, 7]))] for _ in range(n)],
        "sched": core.r_sched(rng, n),
    }


def build_object(o):
    c = classes()
    if o["t"] in ("sign", "ghost"):
        return c["Sign" if o["t"] == "sign" else "Ghost"](xys=lib.f32(o["xy"]))
    return lib.build_object(o)


def describe(a):
    """What an artist shows."""
    from matplotlib.collections import PathCollection
    from matplotlib.colors import to_hex
    from matplotlib.lines import Line2D
    from matplotlib.text import Text

    if isinstance(a, Text):
        return ["text", a.get_text(), [round(float(v), 5) for v in a.xy], [round(float(v), 5) for v in a.get_position()],
                to_hex(a.get_color())]
    if isinstance(a, PathCollection):
        off = np.asarray(a.get_offsets())
        f = a.get_facecolor()
        return ["marker", [round(float(v), 5) for v in off.reshape(-1)], to_hex(f[0]) if len(f) else None,
                {"alpha": a.get_alpha(), "zorder": a.get_zorder(), "size": [float(v) for v in a.get_sizes()],
                 "marker": outline(a.get_paths()[0]), "label": a.get_label()}]
    if isinstance(a, Line2D):
        return ["line", [round(float(v), 5) for v in np.asarray(a.get_xydata(), dtype=float).reshape(-1)], to_hex(a.get_color()),
                float(a.get_linewidth()), {"alpha": a.get_alpha(), "zorder": a.get_zorder(), "style": a.get_linestyle(), "label": a.get_label()}]
    return [type(a).__name__]


def outline(path):
    return [round(float(v), 4) for v in path.vertices.reshape(-1)[:12]]


def marker(m):
    from matplotlib.markers import MarkerStyle

    m = MarkerStyle(m)
    return outline(m.get_path().transformed(m.get_transform()))


def extras(opts, more):
    """What the other options ask of an artist."""
    d = {k: opts[k] for k in ("alpha", "zorder", "label") if k in opts}
    if "marker" in opts:
        d["marker"] = marker(opts["marker"])
    return {**d, **more}


def r5(v):
    return [round(float(x), 5) for x in np.asarray(np.float32(v)).reshape(-1)]


def want_node(name, xy, opts, annotate, more=None):
    from matplotlib.colors import to_hex

    out = [["marker", r5(xy), to_hex(opts["color"]) if "color" in opts else None, extras(opts, more or {})]]
    if annotate and name:
        off = opts.get("annotate_offset", [0.0, 0.0])
        ak = opts.get("annotate_kwargs", {})
        out.append(["text", name, r5(xy), r5(np.float32(xy) + np.float32(off)), to_hex(ak.get("color", "black"))])
    return out


def want_object(o, opts, more=None):
    from matplotlib.colors import to_hex

    col = to_hex(opts["color"]) if "color" in opts else None
    if o["t"] == "ghost":
        return []
    if o["t"] == "vertex":
        return [["marker", r5(o["xy"]), None, extras(opts, more or {})]]
    out = [["line", r5(o["xy"]), col, opts.get("linewidth"), extras(opts, more or {})]]
    if o["t"] == "sign":
        out.append(["text", "sign", r5(o["xy"][0]), r5(o["xy"][0]), to_hex("black")])
    return out


def fits(got, want):
    """``None`` in ``want`` stands for anything."""
    return len(got) == len(want) and all(
        w is None or g == w or near(g, w)
        or (isinstance(w, dict) and isinstance(g, dict) and all(g.get(k) == v or near(g.get(k), v) for k, v in w.items()))
        for g, w in zip(got, want)
    )


def near(g, w):
    return isinstance(g, list) and isinstance(w, list) and len(g) == len(w) and all(
        isinstance(x, float) and isinstance(y, float) and abs(x - y) < 1e-4 for x, y in zip(g, w)
    )


def match(got, want, what):
    left = list(got)
    # the demanding ones first
    for w in sorted(want, key=lambda w: sum(v is None for v in w) - sum(len(v) for v in w if isinstance(v, dict))):
        for i, g in enumerate(left):
            if fits(g, w):
                del left[i]
                break
        else:
            raise Violation("missing-artist", f"{what}: nothing like {w} among {lib.show(got, 800)}")
    if left:
        raise Violation("extra-artist", f"{what}: unexpected {left}")


def execute(plan, rec):
    c = classes()
    plt = c["plt"]
    sim = rec.sim()
    plt.close("all")
    decoy = None
    if plan["decoy"]:
        decoy = plt.figure().add_subplot()
    figs = [c["Figure"](), c["Figure"]()]
    axes = []
    for f in plan["axes"]:
        a = c["Axes"](figs[f], [0.1, 0.1, 0.8, 0.8])
        figs[f].add_axes(a)
        axes.append(a)
    base = [list(a.get_children()) for a in axes]
    fbase = [list(f.get_children()) for f in figs]
    dbase = list(decoy.get_children()) if decoy is not None else None
    scenes = [
        lib.S.Scene(
            transmitters={n: lib.build_point(q) for n, q in s["tx"]},
            receivers={n: lib.build_point(q) for n, q in s["rx"]},
            objects=[build_object(o) for o in s["objects"]],
        )
        for s in plan["scenes"]
    ]
    before = [(list(s.transmitters.items()), list(s.receivers.items()), tuple(s.objects)) for s in scenes]
    held = []  # [axes index, artists]: completed plots not yet removed
    failed = [0] * len(axes)  # failed plots whose remains may be there
    flying = [0] * len(axes)

    def options(d):
        d = json.loads(json.dumps(d))
        return types.MappingProxyType(d) if plan["proxy"] else d

    def look(what, k=None):
        """Compares the axes that nobody is drawing on with what was returned."""
        for i, ax in enumerate(axes):
            if flying[i]:
                continue
            now = list(ax.get_children())
            keep = [*base[i], *[x for j, xs in held if j == i for x in xs]]
            missing = [x for x in keep if not any(x is y for y in now)]
            if missing:
                raise Violation("artist-lost", f"{what}: artists returned by earlier calls left axes {i}: {[describe(x) for x in missing][:5]}")
            extra = [x for x in now if not any(x is y for y in keep)]
            if extra and not failed[i]:
                raise Violation("not-returned", f"{what}: axes {i} hold artists no call returned: {[describe(x) for x in extra][:5]}")
        if decoy is not None and [id(x) for x in decoy.get_children()] != [id(x) for x in dbase]:
            raise Violation("other-axes", f"{what}: pyplot's current axes changed")
        if plt.get_fignums() != ([decoy.figure.number] if decoy is not None else []):
            raise Violation("other-axes", f"{what}: a pyplot figure was opened or closed")
        for i, f in enumerate(figs):
            if [id(x) for x in f.get_children()] != [id(x) for x in fbase[i]]:
                raise Violation("other-axes", f"{what}: the children of figure {i} changed")
        for i, (s, (t, r, o)) in enumerate(zip(scenes, before)):
            if (
                [(n, id(p)) for n, p in s.transmitters.items()] != [(n, id(p)) for n, p in t]
                or [(n, id(p)) for n, p in s.receivers.items()] != [(n, id(p)) for n, p in r]
                or [id(x) for x in s.objects] != [id(x) for x in o]
                or json.dumps([[n, np.asarray(p.xy).tolist()] for n, p in s.transmitters.items()])
                != json.dumps([[n, np.float32(q).tolist()] for n, q in plan["scenes"][i]["tx"]])
            ):
                raise Violation("scene-changed", f"{what}: scene {i} changed")

    def hooks(fault):
        left = [fault["at"] if fault and fault["kind"] == "raise" else 0]

        def h(tag, *x):
            sim.point(tag)
            left[0] -= 1
            if left[0] == 0:
                sim.count(f"failure while drawing ({tag})")
                raise simmod.make_exc(fault.get("exc", "SimError"))

        return h

    def draw(a, s):
        i = s["ax"]
        ax = axes[i]
        f = s.get("fault")
        given = []
        if s["op"] == "scene":
            spec = plan["scenes"][s["s"]]
            kw = {**s["kw"], **s.get("all", {})}
            for k in ("transmitters_kwargs", "objects_kwargs", "receivers_kwargs"):
                if k in s:
                    kw[k] = options(s[k])
                    given.append((kw[k], s[k]))
            ann = s["kw"].get("annotate", True)
            parts = {k: s["kw"].get(k, True) for k in ("transmitters", "objects", "receivers")}
            more = {k: {} for k in parts}
            args = []
            # (a positional option means one thing to a marker and another to a line)
            lines = all(o["t"] != "vertex" for o in spec["objects"])
            for k in ("transmitters", "receivers"):
                if f"{k}_args" in s:
                    kw[f"{k}_args"] = tuple(s[f"{k}_args"])
                    more[k] = {"size": s[f"{k}_args"]}
            if "objects_args" in s and lines:
                kw["objects_args"] = tuple(s["objects_args"])
                more["objects"] = {"style": s["objects_args"][0]}
            elif "objects_args" in s and spec["objects"] and all(o["t"] == "vertex" for o in spec["objects"]):
                kw["objects_args"] = (16.0,)
                more["objects"] = {"size": [16.0]}
            if s.get("args") == "nodes" and not any(k.endswith("_args") for k in kw):
                kw["objects"] = parts["objects"] = False
                args = [49.0]
                more["transmitters"] = more["receivers"] = {"size": args}
            elif s.get("args") == "objects" and lines and not any(k.endswith("_args") for k in kw):
                for k in ("transmitters", "receivers"):
                    kw[k] = parts[k] = False
                args = ["--"]
                more["objects"] = {"style": "--"}
            call = lambda: scenes[s["s"]].plot(ax, *args, **kw)  # noqa: E731
            common = s.get("all", {})
            want = []
            if parts["transmitters"]:
                for n, q in spec["tx"]:
                    want += want_node(n, q, {**s.get("transmitters_kwargs", {}), **common}, ann, more["transmitters"])
            if parts["objects"]:
                for o in spec["objects"]:
                    want += want_object(o, {**s.get("objects_kwargs", {}), **common}, more["objects"])
            if parts["receivers"]:
                for n, q in spec["rx"]:
                    want += want_node(n, q, {**s.get("receivers_kwargs", {}), **common}, ann, more["receivers"])
            what = f"client {a.idx}: scene {s['s']} on axes {i}"
        else:
            xys, t = s["xys"], s["t"]
            kw = dict(s["opts"])
            pos = s.get("pos", [])
            more = {"size" if t in ("point", "vertex") else "style": pos if t in ("point", "vertex") else pos[0]} if pos else {}
            if t == "point":
                obj = lib.build_point(xys[0])
                if s["name"]:
                    kw["annotate"] = s["name"]
                want = want_node(s["name"], xys[0], s["opts"], True, more)
            elif t == "path":
                obj = lib.G.Path(xys=lib.f32(xys))
                want = want_object({"t": "wall", "xy": xys}, s["opts"], more)
            elif t == "ray":
                obj = lib.G.Ray(xys=lib.f32(xys[:2]))
                want = want_object({"t": "wall", "xy": xys[:2]}, s["opts"], more)
            else:
                o = {"t": t, "xy": xys[0] if t == "vertex" else xys[:2], "phi": 0.25}
                obj = lib.build_object(o)
                want = want_object(o, s["opts"], more)
            call = lambda: obj.plot(ax, *pos, **kw)  # noqa: E731
            what = f"client {a.idx}: {t} on axes {i}"
        flying[i] += 1
        try:
            with lib.hook(hooks(f)), core.op(sim, a, "flag", f if f and f["kind"] == "interrupt" else None):
                r = call()
        except BaseException as e:
            core.guard(e, what)
            rec.fault("plot failed")
            rec.nontrivial = True
            failed[i] += 1
            flying[i] -= 1
            look(what)
            return
        flying[i] -= 1
        held.append([i, list(r)])
        for v, o in given:
            if dict(v) != o:
                raise Violation("options-changed", f"{what}: {dict(v)}, it was {o}")
        if len({id(x) for x in r}) != len(r):
            raise Violation("returned-twice", f"{what}: an artist was returned twice")
        now = list(ax.get_children())
        for x in r:
            if x.axes is not ax or not any(x is y for y in now):
                raise Violation("not-drawn", f"{what}: returned an artist that is not on the axes: {describe(x)}")
        look(what)
        d = [describe(x) for x in r]
        match(d, want, what)
        rec.result(d)
        rec.probe("plot " + (s["op"] if s["op"] == "scene" else s["t"]))

    def run(a, body):
        for s in body:
            if s["op"] == "remove":
                if not held:
                    continue
                e = held[s["i"] % len(held)]
                held[:] = [x for x in held if x is not e]
                flying[e[0]] += 1
                for x in e[1]:
                    x.remove()
                    sim.point("removed")
                flying[e[0]] -= 1
                rec.probe("removed")
                rec.nontrivial = True
                look(f"client {a.idx}: after removing {len(e[1])} artists from axes {e[0]}")
            elif s["op"] == "clear":
                i = s["ax"]
                if flying[i]:
                    continue
                held[:] = [x for x in held if x[0] != i]
                axes[i].clear()
                base[i] = list(axes[i].get_children())
                failed[i] = 0
                rec.probe("cleared")
            else:
                draw(a, s)

    for i, body in enumerate(plan["actors"]):
        sim.actor(f"client{i}", lambda a, body=body: run(a, body))
    core.run_sim(sim, rec)
    look("at the end")
    for f in figs:
        f.clear()
    plt.close("all")


def shrink(plan):
    yield from core.generic_shrink(plan)
    for i, s in enumerate(plan["scenes"]):
        for k in ("tx", "rx", "objects"):
            for j in range(len(s[k])):
                q = json.loads(json.dumps(plan))
                del q["scenes"][i][k][j]
                yield q
