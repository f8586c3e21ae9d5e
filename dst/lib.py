"""
Operations of the public API, as data: generate parameters, call the real
library, judge the answer against the reference model.
"""

import contextlib
import io
import json
import random
import sys
import threading
import weakref

import numpy as np

from . import ref

# filled by load()
jax = jnp = eqx = None
L = G = S = O = U = A = None


def load():
    """Binds the real library (after boot)."""
    global jax, jnp, eqx, L, G, S, O, U, A
    import differt2d.abc
    import differt2d.geometry
    import differt2d.logic
    import differt2d.optimize
    import differt2d.scene
    import differt2d.utils
    import equinox
    import jax as _jax
    import jax.numpy as _jnp

    jax, jnp, eqx = _jax, _jnp, equinox
    L, G, S = differt2d.logic, differt2d.geometry, differt2d.scene
    O, U, A = differt2d.optimize, differt2d.utils, differt2d.abc


    _define()


# ------------------------------------------------------------ user-side hooks

_tl = threading.local()


def fire(tag, *args):
    """Called by every user-supplied callable; runs the calling thread's hook, if any."""
    h = getattr(_tl, "hook", None)
    if h is not None:
        return h(tag, *args)
    return None


@contextlib.contextmanager
def hook(h):
    """Installs ``h(tag, *args)`` for the user callables run by this thread."""
    old = getattr(_tl, "hook", None)
    _tl.hook = h
    try:
        yield
    finally:
        _tl.hook = old


_store = None  # what callers share during a run


@contextlib.contextmanager
def sharing():
    """While active, equal specifications give the very same scenes, objects, callables and containers."""
    global _store
    old, _store = _store, {}
    try:
        yield
    finally:
        _store = old


def shared(kind, spec, make):
    if _store is None:
        return make()
    k = (kind, json.dumps(spec, sort_keys=True))
    if k not in _store:
        v = make()
        # another caller may have been first meanwhile
        _store.setdefault(k, (v, v.copy() if isinstance(v, dict) else None))
    return _store[k][0]


def check_shared():
    """Nothing that was handed to the library changed."""
    for (kind, spec), (v, c) in list((_store or {}).items()):
        if kind == "scene":
            a, b = spec_of_scene(v), json.loads(spec)
            ok = [[n, np.float32(q).tolist()] for n, q in b["tx"]] == a["tx"]
            ok = ok and [[n, np.float32(q).tolist()] for n, q in b["rx"]] == a["rx"]
            ok = ok and len(a["objects"]) == len(b["objects"]) and all(
                same_object(x, y) for x, y in zip(a["objects"], b["objects"])
            )
            if not ok:
                bad("a scene was changed: %s, it was %s", a, b)
        elif kind == "object":
            if not same_object(spec_of_object(v), json.loads(spec)):
                bad("an object was changed: %s, it was %s", spec_of_object(v), spec)
        elif kind == "dict":
            if v != c or list(v) != list(c):
                bad("a mapping of the caller was changed: %s, it was %s", v, c)


def same_object(a, b):
    return (
        a["t"] == b["t"]
        and bool(a.get("hook")) == bool(b.get("hook"))
        and np.array_equal(np.float32(a["xy"]), np.float32(b["xy"]))
        and np.array_equal(np.float32(a.get("phi", 0)), np.float32(b.get("phi", 0)))
    )


HookWall = QuarterPath = new_path_cls = None


def _define():
    """User-defined classes: a wall and a path method with hooks."""
    global HookWall, QuarterPath, new_path_cls

    class HookWall(G.Wall):
        def cartesian_to_parametric(self, carte_coords):
            fire("object", self)
            return super().cartesian_to_parametric(carte_coords)

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            fire("object", self)
            return super().contains_parametric(param_coords, approx=approx, **kwargs)

        def intersects_cartesian(self, ray, *args, **kwargs):
            fire("object", self)
            return super().intersects_cartesian(ray, *args, **kwargs)

        def evaluate_cartesian(self, ray_path):
            fire("object", self)
            return super().evaluate_cartesian(ray_path)

        def image_of(self, point):
            fire("object", self)
            return super().image_of(point)

    class QuarterPath(G.Path):
        """A user's path method: through the first quarter of every object."""

        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, shift=0.0, **kwargs):
            fire("path", key, objects)
            a = tx.xy if isinstance(tx, G.Point) else tx
            b = rx.xy if isinstance(rx, G.Point) else rx
            pts = [o.parametric_to_cartesian(jnp.full((1,), 0.25 + shift)) for o in objects]
            return cls(xys=jnp.vstack([a, *pts, b]), loss=jnp.array(0.002 * len(objects)))

    def new_path_cls(shift):
        class UserPath(QuarterPath):
            """One of several classes of the same name."""

            @classmethod
            def from_tx_objects_rx(cls, tx, objects, rx, **kwargs):
                return super().from_tx_objects_rx(tx, objects, rx, **{**kwargs, "shift": shift})

        return UserPath

    globals().update(HookWall=HookWall, QuarterPath=QuarterPath, new_path_cls=new_path_cls)


class Bad(Exception):
    """The answer of an operation is wrong."""


def bad(msg, *args):
    raise Bad(msg % args if args else msg)


# --------------------------------------------------------------- generation


def r_node(rng):
    return [rng.randrange(1, 64, 2) / 64.0, rng.randrange(1, 64, 2) / 64.0]


def r_wall(rng):
    while True:
        a = [rng.randrange(0, 17) / 16.0, rng.randrange(0, 17) / 16.0]
        b = [rng.randrange(0, 17) / 16.0, rng.randrange(0, 17) / 16.0]
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) >= 0.24:
            return {"t": "wall", "xy": [a, b]}


def r_object(rng, kind):
    if kind == "vertex":
        return {"t": "vertex", "xy": [rng.randrange(0, 17) / 16.0, rng.randrange(0, 17) / 16.0]}
    w = r_wall(rng)
    if kind == "ris":
        w = {**w, "t": "ris", "phi": rng.randrange(-24, 25) / 32.0}
    return w


ROOM = [
    {"t": "wall", "xy": [[0.0, 0.0], [1.0, 0.0]]},
    {"t": "wall", "xy": [[1.0, 0.0], [1.0, 1.0]]},
    {"t": "wall", "xy": [[1.0, 1.0], [0.0, 1.0]]},
    {"t": "wall", "xy": [[0.0, 1.0], [0.0, 0.0]]},
]
NAMES = ["tx", "rx", "a", "b", "c", "node_1", "node_2", "é", "tx_0", "A"]
ODD_NAMES = ["items", "keys", "0", "tx", "rx", "values", "a b", "transmitters", "objects", "update", "-1", "None"]


def r_names(rng, n, pool=None):
    pool = list(pool or NAMES)
    rng.shuffle(pool)
    return pool[:n]


def r_scene(rng, ntx=1, nrx=1, nobj=3, mixed=False, room=0.4, hooked=0.15):
    """mixed: False (walls only), True (several types of objects), or a type name."""
    objs = []
    if mixed is False and nobj >= 2 and rng.random() < room:
        # walls of a room first, so that reflections are often valid
        w = [dict(o) for o in ROOM]
        rng.shuffle(w)
        objs = w[: min(nobj, 4)]
    kinds = {False: ["wall"], True: ["wall", "wall", "ris", "vertex"]}.get(mixed, [mixed])
    while len(objs) < nobj:
        objs.append(r_object(rng, rng.choice(kinds)))
    if mixed is True and nobj >= 2 and len({o["t"] for o in objs}) == 1:
        objs[0] = r_object(rng, "vertex" if objs[1]["t"] != "vertex" else "wall")
    if hooked and rng.random() < hooked:
        every = mixed is not True or rng.random() < 0.5
        for o in objs:
            if o["t"] == "wall" and (every or rng.random() < 0.5):
                o["hook"] = 1
    if nobj >= 2 and rng.random() < 0.05:
        # an object given twice
        objs[rng.randrange(nobj)] = dict(objs[rng.randrange(nobj)])
    pool = ODD_NAMES if rng.random() < 0.1 else NAMES
    tx = [[n, r_node(rng)] for n in r_names(rng, ntx, pool)]
    rx = [[n, r_node(rng)] for n in r_names(rng, nrx, pool)]
    for nodes in (tx, rx):
        if len(nodes) >= 2 and rng.random() < 0.1:
            # two nodes at the same place
            nodes[0][1] = list(nodes[1][1])
    return {"tx": tx, "rx": rx, "objects": objs}


# ----------------------------------------------------------------- building


def f32(x):
    return jnp.asarray(np.asarray(x, dtype=np.float32))


def build_object(o):
    return shared("object", o, lambda: make_object(o))


def make_object(o):
    return recycled(o["t"], module(lambda: new_object(o)))


def new_object(o):
    if o["t"] == "wall":
        return (HookWall if o.get("hook") else G.Wall)(xys=f32(o["xy"]))
    if o["t"] == "ris":
        return G.RIS(xys=f32(o["xy"]), phi=f32(o["phi"]))
    return G.Vertex(xy=f32(o["xy"]))


def build_point(xy):
    return recycled("point", module(lambda: G.Point(xy=f32(xy))))


def build_scene(s):
    return shared("scene", s, lambda: make_scene(s))


def make_scene(s):
    tx = {n: build_point(p) for n, p in s["tx"]}
    rx = {n: build_point(p) for n, p in s["rx"]}
    objects = [build_object(o) for o in s["objects"]]
    return recycled("scene", module(lambda: S.Scene(transmitters=tx, receivers=rx, objects=objects)))


def spec_of_object(o):
    if type(o) is G.RIS:
        return {"t": "ris", "xy": np.asarray(o.xys).tolist(), "phi": float(o.phi)}
    if type(o) is HookWall:
        return {"t": "wall", "xy": np.asarray(o.xys).tolist(), "hook": 1}
    if type(o) is G.Wall:
        return {"t": "wall", "xy": np.asarray(o.xys).tolist()}
    if type(o) is G.Vertex:
        return {"t": "vertex", "xy": np.asarray(o.xy).tolist()}
    return {"t": type(o).__name__}


def spec_of_scene(s):
    """The observable content of a scene."""
    return {
        "tx": [[n, np.asarray(p.xy).tolist()] for n, p in s.transmitters.items()],
        "rx": [[n, np.asarray(p.xy).tolist()] for n, p in s.receivers.items()],
        "objects": [spec_of_object(o) for o in s.objects],
    }


def key_of(k):
    # both kinds of keys JAX has
    return jax.random.key(k) if k % 10 < 3 else jax.random.PRNGKey(k)


PATHS = {}


def path_cls(name):
    return QuarterPath if name in ("Quarter", "Shifted") else getattr(G, name)


class Keep:
    """A user's object filter with a state, equal to every other one."""

    def __init__(self, name=None):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Keep)

    def __hash__(self):
        return 7

    def __call__(self, o):
        fire("filter", o)
        return FILTERS[self.name](spec_of_object(o))


class Fun:
    """A user's path function with a state, equal to every other one."""

    def __init__(self, name=None):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Fun)

    def __hash__(self):
        return 11

    def __call__(self, *args, **kwargs):
        return make_fun(self.name)(*args, **kwargs)


class Callables:
    """The stateful callables and the option mapping one caller keeps using."""

    def __init__(self):
        self.keep, self.fun, self.options = Keep(), Fun(), {}
        self.fresh = False

    def filter(self, name):
        if self.fresh == "closure":
            return recycled("filter", lambda: make_filter(name))
        if self.fresh:
            return recycled("Keep", lambda: Keep(name))
        self.keep.name = name
        return self.keep

    def function(self, name):
        if self.fresh == "closure":
            return recycled("fun", lambda: make_fun(name))
        if self.fresh:
            return recycled("Fun", lambda: Fun(name))
        self.fun.name = name
        return self.fun

    def path(self, name):
        if self.fresh == "closure":
            return new_path_cls(0.375 if name == "Shifted" else 0.0)
        return path_cls(name)

    def shift(self, v):
        if self.fresh:
            return {"shift": v}
        self.options["shift"] = v
        return self.options


@contextlib.contextmanager
def recycling(seen):
    """While active, new scenes and callables take the address of a freed one when the allocator can be made to."""
    global _seen
    old, _seen = _seen, seen
    try:
        yield
    finally:
        _seen = old


_seen = None


def recycled(kind, make):
    if _seen is None:
        return make()
    old = _seen.setdefault((threading.get_ident(), kind), [])
    if not hasattr(make, "module"):
        # functions: the allocator hands out the block freed last
        old.clear()
        v = make()
    else:
        for i in range(len(old)):
            u = old[i]
            if sys.getrefcount(u) == 3 and weakref.getweakrefcount(u) == 0:
                # nobody can tell u's second life from a new value at a freed address
                del old[i]
                v = make.module()
                if type(u) is not type(v):
                    break
                d = u.__dict__
                for k, x in list(v.__dict__.items()):
                    if type(x) is tuple and x and type(d.get(k)) is tuple and len(d[k]) == len(x):
                        # CPython gives a new tuple the place of the last one freed of the same length
                        x = list(x)
                        del d[k]
                        v.__dict__[k] = (*x,)
                d.clear()
                d.update(v.__dict__)
                v = u
                break
        else:
            v = make.module()
    old.append(v)
    return v


class module:
    """Marks a constructor of (frozen, plain) modules."""

    def __init__(self, make):
        self.module = make

    def __call__(self):
        return self.module()


@contextlib.contextmanager
def callables(c):
    """This thread's user callables come from ``c``."""
    old = getattr(_tl, "callables", None)
    _tl.callables = c
    try:
        yield
    finally:
        _tl.callables = old


def lib_fun(name):
    c = getattr(_tl, "callables", None)
    if c is not None:
        return c.function(name)
    return shared("fun", name, lambda: make_fun(name))


def make_fun(name):
    """The user function ``name`` of the reference model, for the real library."""
    if name == "power":

        def power(tx, rx, path, objs, **kw):
            fire("fun", tx, rx, path, objs)
            return U.received_power(tx, rx, path, objs, **kw)

        return power
    if name == "one":

        def one(tx, rx, path, objs):
            fire("fun", tx, rx, path, objs)
            return jnp.array(1.0)

        return one

    def affine(tx, rx, path, objs, a=1.0, b=0.5):
        fire("fun", tx, rx, path, objs)
        acc = a + b * len(objs) + 2.0 * tx.xy[0] - 3.0 * tx.xy[1]
        acc = acc + 5.0 * rx.xy[0] - 7.0 * rx.xy[1] + 0.25 * jnp.sum(path.xys[1:-1])
        for i, o in enumerate(objs):
            acc = acc + 0.125 * (i + 1) * jnp.sum(o.xy if isinstance(o, G.Point) else o.xys)
        return acc

    return affine


# ------------------------------------------------------------------ results


def num(x):
    return np.asarray(x)


def verdict(x):
    """(is boolean, value) of a scalar verdict."""
    x = np.asarray(x)
    return [bool(x.dtype == np.bool_), float(x)]


def same(a, b, rtol=0.0, atol=0.0):
    """Structural equality of results; exact by default."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            if rtol == atol == 0.0:
                return a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=True))
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if a != a and b != b:
            return True
        return a == b or abs(a - b) <= atol + rtol * abs(b)
    return a == b


def show(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


def check_verdict(v, iv, approx, what):
    isb, x = v
    if isb == bool(approx):
        bad("%s: the verdict is %s although approximation is %s", what,
            "a boolean" if isb else "a degree", "on" if approx else "off")
    if not (-1e-6 <= x <= 1 + 1e-6):
        bad("%s: verdict %r outside [0, 1]", what, x)
    tol = 2e-5 if approx else 0.0
    if not (iv[0] - tol <= x <= iv[1] + tol):
        bad("%s: verdict %r, expected within [%.6g, %.6g]", what, x, *iv)


def check_close(x, y, what, rtol=2e-3, atol=2e-3):
    x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
    if x.shape != y.shape:
        bad("%s: shape %s, expected %s", what, x.shape, y.shape)
    if not np.allclose(x, y, rtol=rtol, atol=atol):
        bad("%s: got %s, expected %s", what, show(x.tolist(), 200), show(y.tolist(), 200))


def vcfg(p, approx):
    return ref.Cfg(approx, p.get("alpha", 100.0), p.get("function", "hard_sigmoid"))


def vkwargs(p):
    """Keyword arguments of the activation."""
    kw = {}
    if "alpha" in p:
        kw["alpha"] = p["alpha"]
    if "function" in p:
        kw["function"] = getattr(L, p["function"])
    return kw


def r_act(rng, p):
    """Randomly sets activation options."""
    if rng.random() < 0.6:
        p["alpha"] = rng.choice([1.0, 2.0, 5.0, 10.0, 50.0])
    if rng.random() < 0.4:
        p["function"] = rng.choice(["sigmoid", "hard_sigmoid"])
    return p


def akw(approx):
    return {} if approx is None else {"approx": approx}


# ---------------------------------------------------------------------- ops
# gen(rng) -> params; call(params, approx, ctx) -> plain result;
# check(params, approx, result) raises Bad.  ``approx`` is True/False/None for
# call and True/False (the choice in force) for check.


class Op:
    kind = "pure"  # pure, keyed
    truthy = True  # depends on the exact/approximate choice
    weight = 1.0
    cost = 1.0

    def gen(self, rng):
        raise NotImplementedError

    def call(self, p, approx, ctx=None):
        raise NotImplementedError

    def check(self, p, approx, r):
        raise NotImplementedError


OPS = {}


def register(cls):
    OPS[cls.name] = cls()
    return cls


@register
class Logic(Op):
    name = "logic"
    weight = 3.0
    cost = 0.2
    BIN = ["logical_or", "logical_and"]
    CMP = ["greater", "greater_equal", "less", "less_equal"]

    def gen(self, rng):
        fn = rng.choice(
            [*self.BIN, "logical_not", *self.CMP, *self.CMP, "logical_all", "logical_any",
             "is_true", "is_false", "true_value", "false_value"],
        )
        p = {"fn": fn}
        n = rng.choice([0, 1, 3])  # 0: scalars
        p["n"] = n
        k = max(n, 1)
        if fn in self.CMP:
            p["x"] = [rng.randrange(-64, 65) / 64.0 for _ in range(k)]
            p["y"] = [rng.randrange(-64, 65) / 64.0 for _ in range(k)]
            r_act(rng, p)
        else:
            p["x"] = [rng.randrange(0, 17) / 16.0 for _ in range(k)]
            p["y"] = [rng.randrange(0, 17) / 16.0 for _ in range(k)]
        if fn in ("logical_all", "logical_any"):
            p["axis"] = 0 if n else None
        if fn not in self.CMP and rng.random() < 0.3:
            p["bool"] = True
        if fn in ("is_true", "is_false") and rng.random() < 0.5:
            p["tol"] = rng.choice([0.25, 0.75])
        return p

    def call(self, p, approx, ctx=None):
        fn = p["fn"]
        f = getattr(L, fn)
        kw = akw(approx)
        if fn in ("true_value", "false_value"):
            return num(f(**kw))
        x, y = np.float32(p["x"]), np.float32(p["y"])
        if p["n"] == 0:
            x, y = x[0], y[0]
        on = L.ENABLE_APPROX if approx is None else approx
        if fn not in self.CMP and (p.get("bool") or (fn.startswith("is_") and not on)):
            x, y = x > 0.5, y > 0.5
        x, y = jnp.asarray(x), jnp.asarray(y)
        if fn in self.CMP:
            return num(f(x, y, **vkwargs(p), **kw))
        if fn in self.BIN:
            return num(f(x, y, **kw))
        if fn == "logical_not":
            return num(f(x, **kw))
        if fn in ("logical_all", "logical_any"):
            return num(f(x, y, axis=p["axis"], **kw))
        if "tol" in p:
            kw["tol"] = p["tol"]
        return num(f(x, **kw))

    def check(self, p, approx, r):
        fn, n = p["fn"], p["n"]
        x, y = np.array(p["x"]), np.array(p["y"])
        if n == 0:
            x, y = x[0], y[0]
        if fn not in self.CMP and (p.get("bool") or (fn.startswith("is_") and not approx)):
            x, y = (x > 0.5).astype(float), (y > 0.5).astype(float)
        isb = r.dtype == np.bool_
        if fn in ("is_true", "is_false"):
            if approx:
                tol = p.get("tol", 0.5)
                e = (x > 1.0 - tol) if fn == "is_true" else (x < tol)
                if not isb:
                    bad("%s: not boolean", fn)
                if not np.array_equal(r, e):
                    bad("%s(%s, tol=%s): %s, expected %s", fn, x, tol, r, e)
            else:
                e = x if fn == "is_true" else (x == 0)
                if fn == "is_false" and not isb:
                    bad("is_false: not boolean")
                if not np.array_equal(r.astype(float), np.asarray(e).astype(float)):
                    bad("%s(%s): %s, expected %s", fn, x, r, e)
            return
        if isb == bool(approx) and not (approx and p.get("bool")):
            bad("%s: result is %s although approximation is %s", fn, r.dtype, "on" if approx else "off")
        if fn in ("true_value", "false_value"):
            if float(r) != (1.0 if fn == "true_value" else 0.0):
                bad("%s() is %s", fn, r)
            return
        if fn in self.CMP:
            d = (x - y) if fn.startswith("greater") else (y - x)
            if approx:
                c = vcfg(p, True)
                e = np.vectorize(lambda v: ref.act(float(v), c))(d)
            else:
                e = (d >= 0) if fn.endswith("equal") else (d > 0)
        elif fn == "logical_not":
            e = 1.0 - x if approx else x == 0
        elif fn in self.BIN:
            if approx:
                e = np.maximum(x, y) if fn == "logical_or" else np.minimum(x, y)
            else:
                b = np.logical_or if fn == "logical_or" else np.logical_and
                e = b(x != 0, y != 0)
        else:
            a = np.stack([x, y])
            if approx:
                e = (np.min if fn == "logical_all" else np.max)(a, axis=p["axis"])
            else:
                e = (np.all if fn == "logical_all" else np.any)(a != 0, axis=p["axis"])
        check_close(r.astype(float), np.asarray(e).astype(float), fn, 1e-5, 1e-5)


@register
class Seg(Op):
    name = "segments_intersect"
    cost = 0.4

    def gen(self, rng):
        p = {"pts": [r_node(rng), r_node(rng), *r_wall(rng)["xy"]]}
        if rng.random() < 0.3:
            p["tol"] = rng.choice([0.0, 0.02, 0.1])
        return r_act(rng, p)

    def call(self, p, approx, ctx=None):
        kw = {} if "tol" not in p else {"tol": p["tol"]}
        return verdict(
            G.segments_intersect(*(f32(q) for q in p["pts"]), **kw, **vkwargs(p), **akw(approx)),
        )

    def check(self, p, approx, r):
        P = [np.array(q) for q in p["pts"]]
        iv = ref.segments_intersect(*P, p.get("tol", 0.005), vcfg(p, approx))
        check_verdict(r, iv, approx, "segments_intersect")


@register
class ObjectOp(Op):
    name = "object"
    weight = 2.0
    cost = 0.4
    FNS = ["contains", "intersects", "contains", "intersects", "to_cartesian", "to_param", "evaluate",
           "image", "bbox", "vertices", "rotate"]

    def gen(self, rng):
        fn = rng.choice(self.FNS)
        t = rng.choice(["wall", "wall", "ris", "vertex"])
        if fn in ("image", "vertices", "rotate"):
            t = rng.choice(["wall", "ris"])
        p = {"fn": fn, "o": r_object(rng, t), "s": rng.randrange(-16, 33) / 16.0 + 1 / 128,
             "pts": [r_node(rng) for _ in range(3)]}
        if fn in ("contains", "intersects"):
            r_act(rng, p)
        if fn == "intersects" and rng.random() < 0.4:
            p["patch"] = rng.choice([-0.1, 0.1, 0.5])
        return p

    def call(self, p, approx, ctx=None):
        o = build_object(p["o"])
        fn = p["fn"]
        n = ref.nparams(p["o"])
        if fn == "contains":
            return verdict(o.contains_parametric(f32([p["s"]] * n), **vkwargs(p), **akw(approx)))
        if fn == "intersects":
            kw = {"patch": p["patch"]} if "patch" in p else {}
            return verdict(o.intersects_cartesian(f32(p["pts"][:2]), **kw, **vkwargs(p), **akw(approx)))
        if fn == "to_cartesian":
            return num(o.parametric_to_cartesian(f32([p["s"]] * n)))
        if fn == "to_param":
            return num(o.cartesian_to_parametric(f32(p["pts"][0])))
        if fn == "evaluate":
            return num(o.evaluate_cartesian(f32(p["pts"])))
        if fn == "image":
            return num(o.image_of(f32(p["pts"][0])))
        if fn == "bbox":
            return num(o.bounding_box())
        if fn == "vertices":
            return [num(v.xy) for v in o.get_vertices()]
        r = o.rotate(p["s"], around=f32(p["pts"][0]) if p["s"] > 0 else None)
        return num(r.xys)

    def check(self, p, approx, r):
        o, fn = p["o"], p["fn"]
        if fn == "contains":
            if o["t"] == "vertex":
                iv = ref.TRUE
            else:
                c = vcfg(p, approx)
                iv = ref.iand(ref.gt(p["s"], 1e-5, c), ref.gt(1 - p["s"], 1e-5, c))
            check_verdict(r, iv, approx, "contains")
        elif fn == "intersects":
            P = [np.array(q) for q in p["pts"]]
            iv = ref.intersects(o, P[0], P[1], p.get("patch", 0.0), vcfg(p, approx))
            check_verdict(r, iv, approx, "intersects")
        elif fn == "to_cartesian":
            check_close(r, ref.to_cartesian(o, p["s"]), fn)
        elif fn == "to_param":
            e = [] if o["t"] == "vertex" else [ref.to_param(o, p["pts"][0])]
            check_close(r, e, fn)
        elif fn == "evaluate":
            e, ok = ref.evaluate(o, p["pts"])
            if ok:
                check_close(r, e, fn)
        elif fn == "image":
            n = ref.normal(o)
            q = np.array(p["pts"][0])
            check_close(r, q - 2 * float((q - ref.oxy(o)[0]) @ n) * n, fn)
        elif fn == "bbox":
            x = ref.oxy(o).reshape(-1, 2)
            check_close(r, [x.min(axis=0), x.max(axis=0)], fn)
        elif fn == "vertices":
            check_close(np.array(r), ref.oxy(o), fn)
        else:
            c = np.array(p["pts"][0]) if p["s"] > 0 else np.zeros(2)
            a = p["s"]
            R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            # the library multiplies the matrix of the two end points from the left
            check_close(r, R @ (ref.oxy(o) - c) + c, fn)


@register
class PathValid(Op):
    name = "path_verdict"
    weight = 2.0
    cost = 1.0

    def gen(self, rng):
        mixed = rng.choice([False, True])
        n = rng.choice([0, 1, 1, 2, 2, 3, 3])
        sc = r_scene(rng, 0, 0, n, mixed)
        k = rng.choice([0, 1, 1, 2]) if n > 1 else rng.randrange(0, n + 1)
        cand = []
        for _ in range(k):
            cand.append(rng.choice([i for i in range(n) if not cand or i != cand[-1]]))
        pts = [r_node(rng)]
        for i in cand:
            o = sc["objects"][i]
            s = rng.choice([0.2, 0.45, 0.7, 0.95, 1.3, -0.2])
            pts.append(ref.to_cartesian(o, s).tolist())
        pts.append(r_node(rng))
        p = {"fn": rng.choice(["is_valid", "is_valid", "on_objects", "intersects"]),
             "objects": sc["objects"], "cand": cand, "xys": pts,
             "loss": rng.choice([0.0, 0.0, 0.005, 0.2])}
        r_act(rng, p)
        if p["fn"] == "is_valid" and rng.random() < 0.4:
            p["tol"] = rng.choice([1e-3, 0.1, 0.5])
        if p["fn"] != "on_objects" and rng.random() < 0.3:
            p["patch"] = rng.choice([-0.1, 0.1, 0.4])
        return p

    def call(self, p, approx, ctx=None):
        path = G.Path(xys=f32(p["xys"]), loss=f32(p["loss"]))
        objs = [build_object(o) for o in p["objects"]]
        cand = jnp.asarray(np.array(p["cand"], dtype=np.int32))
        inter = [objs[i] for i in p["cand"]]
        kw = {**vkwargs(p), **akw(approx)}
        if p["fn"] == "on_objects":
            return verdict(path.on_objects(inter, **kw))
        if "patch" in p:
            kw["patch"] = p["patch"]
        if p["fn"] == "intersects":
            return verdict(path.intersects_with_objects(objs, cand, **kw))
        if "tol" in p:
            kw["tol"] = p["tol"]
        return verdict(path.is_valid(objs, cand, inter, **kw))

    def check(self, p, approx, r):
        c = vcfg(p, approx)
        xys = np.array(p["xys"])
        inter = [p["objects"][i] for i in p["cand"]]
        if p["fn"] == "on_objects":
            iv = ref.on_objects(xys, inter, c)
        elif p["fn"] == "intersects":
            iv = ref.intersects_with_objects(xys, p["objects"], p["cand"], p.get("patch", 0.0), c)
        else:
            iv = ref.is_valid(xys, p["loss"], p["objects"], p["cand"], inter, c,
                              tol=p.get("tol", 1e-2), patch=p.get("patch", 0.0))
        check_verdict(r, iv, approx, "Path." + p["fn"])


FILTERS = {
    "none": None,
    "walls": lambda o: o["t"] == "wall",
    "not_vertex": lambda o: o["t"] != "vertex",
    "left": lambda o: float(ref.oxy(o).reshape(-1, 2)[0, 0]) < 0.5,
    "nothing": lambda o: False,
}


def lib_filter(name):
    if name == "none":
        return None
    c = getattr(_tl, "callables", None)
    if c is not None:
        return c.filter(name)
    return shared("filter", name, lambda: make_filter(name))


def make_filter(name):
    f = FILTERS[name]

    def keep(o):
        fire("filter", o)
        return f(spec_of_object(o))

    return keep


def rejected(name, objects):
    f = FILTERS[name]
    return () if f is None else tuple(i for i, o in enumerate(objects) if not f(o))


def r_order(rng, nobj, hi=2):
    """Order options as the library takes them."""
    k = rng.random()
    if k < 0.3:
        return {}
    if k < 0.6:
        return {"order": rng.randrange(0, hi + 1)}
    a = rng.randrange(0, hi + 1)
    return {"min_order": a, "max_order": rng.randrange(a, hi + 1)}


def r_tracing(rng, ntx=None, nrx=None, hi=2, small=False, cls=None):
    """Parameters of a path-tracing call with a deterministic path method."""
    mixed = rng.choice([False, False, False, True, "ris"])
    nobj = rng.choice([0, 1, 2, 2, 3, 3, 4]) if not small else rng.choice([1, 2, 2, 3])
    sc = r_scene(
        rng,
        rng.choice([1, 1, 2]) if ntx is None else ntx,
        rng.choice([1, 1, 2]) if nrx is None else nrx,
        nobj,
        mixed,
    )
    if cls is None:
        cls = "Path" if mixed is True else rng.choice(["ImagePath", "ImagePath", "Path"])
        if rng.random() < 0.12:
            cls = rng.choice(["Quarter", "Shifted"])
    p = {"scene": sc, "cls": cls, "ord": r_order(rng, nobj, hi if nobj <= 3 else 1),
         "filter": rng.choice(["none", "none", "none", "walls", "left", "not_vertex", "nothing"])}
    r_act(rng, p)
    if rng.random() < 0.3:
        p["tol"] = rng.choice([1e-3, 0.1])
    if rng.random() < 0.3:
        p["patch"] = rng.choice([-0.1, 0.1])
    return p


def r_big(rng, p):
    """Rewrites a tracing call into one with many path candidates."""
    objs = [dict(o) for o in ROOM]
    rng.shuffle(objs)
    if rng.random() < 0.5:
        objs.append({"t": "wall", "xy": [[0.5, 0.25], [0.5, 0.5]]})
    n = rng.choice([3, 4, 4, len(objs)])
    objs = objs[:n]
    p["scene"]["objects"] = objs
    p["cls"] = rng.choice(["ImagePath", "ImagePath", "Path", "Quarter"])
    p["ord"] = rng.choice([{"max_order": 2}, {"order": 2}, {"min_order": 1, "max_order": 2}])
    if n == 3:
        p["ord"] = rng.choice([{"order": 3}, {"max_order": 3}, {"min_order": 2, "max_order": 3}])
    p["filter"] = rng.choice(["none", "none", "left"])
    return p


def trace_kwargs(p, approx):
    kw = {**p["ord"], **vkwargs(p), **akw(approx)}
    if p["cls"] != "ImagePath" or p.get("explicit_cls"):
        kw["path_cls"] = path_cls(p["cls"])
    c = getattr(_tl, "callables", None)
    if c is not None and c.fresh == "closure" and p["cls"] in ("Quarter", "Shifted"):
        kw["path_cls"] = c.path(p["cls"])
    elif c is not None and p["cls"] in ("Quarter", "Shifted"):
        kw["path_cls_kwargs"] = c.shift(0.375 if p["cls"] == "Shifted" else 0.0)
    elif p["cls"] == "Shifted":
        kw["path_cls_kwargs"] = shared("dict", {"shift": 0.375}, lambda: {"shift": 0.375})
    if p["filter"] != "none":
        kw["filter_objects"] = lib_filter(p["filter"])
    for k in ("tol", "patch"):
        if k in p:
            kw[k] = p[k]
    return kw


def verdict_kw(p):
    return {k: p[k] for k in ("tol", "patch") if k in p}


def ref_candidates(p):
    sc = p["scene"]
    return ref.candidates(len(sc["objects"]), reject=rejected(p["filter"], sc["objects"]), **p["ord"])


def check_path_entry(p, approx, cand, txy, rxy, xys, loss, v, what):
    """One traced path against the reference; ``v`` None for the valid-only iterator."""
    sc = p["scene"]
    inter = [sc["objects"][i] for i in cand]
    e, eloss, ok = ref.path_of(p["cls"], txy, inter, rxy)
    if xys.shape != e.shape:
        bad("%s: path of shape %s, expected %s", what, xys.shape, e.shape)
    if not (np.allclose(xys[0], txy, atol=1e-6) and np.allclose(xys[-1], rxy, atol=1e-6)):
        bad("%s: end points %s and %s, expected %s and %s", what, xys[0], xys[-1], txy, rxy)
    c = vcfg(p, approx)
    if ok:
        check_close(xys, e, what + ": path", 5e-3, 5e-3)
        if eloss < 50:
            check_close(loss, eloss, what + ": loss", 2e-2, 2e-3)
    if v is not None:
        if ok:
            iv = ref.is_valid(e, eloss, sc["objects"], cand, inter, c, **verdict_kw(p))
            check_verdict(v, iv, approx, what)
        else:
            check_verdict(v, ref.UNKNOWN, approx, what)
    return ok, e, eloss


@register
class AllPaths(Op):
    name = "all_paths"
    weight = 3.0
    cost = 3.0

    def gen(self, rng):
        p = r_tracing(rng)
        p["valid"] = rng.random() < 0.4
        return p

    def call(self, p, approx, ctx=None):
        scene = build_scene(p["scene"])
        kw = trace_kwargs(p, approx)
        if p["valid"]:
            return [
                [t, r, None, num(path.xys), float(path.loss), [int(i) for i in c]]
                for t, r, path, c in scene.all_valid_paths(**kw)
            ]
        return [
            [t, r, verdict(v), num(path.xys), float(path.loss), [int(i) for i in c]]
            for t, r, v, path, c in scene.all_paths(**kw)
        ]

    def check(self, p, approx, r):
        check_iterated(p, approx, r, p["valid"])


def check_iterated(p, approx, r, valid_only, partial=False):
    """The entries an iterator yielded, against the reference."""
    sc = p["scene"]
    cands = ref_candidates(p)
    txs, rxs = dict(map(tuple, sc["tx"])), dict(map(tuple, sc["rx"]))
    seen = {}
    closed, last = set(), None
    for t, x, v, xys, loss, c in r:
        c = tuple(c)
        pair = (t, x)
        if t not in txs or x not in rxs:
            bad("unknown pair %s", pair)
        if pair != last:
            if pair in closed:
                bad("entries of the pair %s are not contiguous", pair)
            closed.add(pair)
            last = pair
        got = seen.setdefault(pair, set())
        if c in got:
            bad("candidate %s of %s yielded twice", c, pair)
        if c not in cands:
            bad("candidate %s of %s is not admissible", c, pair)
        got.add(c)
        check_path_entry(p, approx, c, np.array(txs[t]), np.array(rxs[x]), np.asarray(xys), loss, v,
                         f"{t}->{x} via {list(c)}")
    if partial:
        return
    cfg = vcfg(p, approx)
    for t in txs:
        for x in rxs:
            got = seen.get((t, x), set())
            if not valid_only:
                if len(got) != len(cands):
                    bad("%s->%s: %d of %d candidates yielded; missing %s", t, x, len(got), len(cands),
                        [c for c in cands if c not in got][:5])
                continue
            for c in cands:
                inter = [sc["objects"][i] for i in c]
                e, loss, ok = ref.path_of(p["cls"], np.array(txs[t]), inter, np.array(rxs[x]))
                if not ok:
                    continue
                iv = ref.is_valid(e, loss, sc["objects"], c, inter, cfg, **verdict_kw(p))
                if iv[0] > 0.5 + 1e-4 and c not in got:
                    bad("%s->%s via %s is valid (%.4g..%.4g) but was not yielded", t, x, list(c), *iv)
                if iv[1] < 0.5 - 1e-4 and c in got:
                    bad("%s->%s via %s is not valid (%.4g..%.4g) but was yielded", t, x, list(c), *iv)


def r_fun(rng, p, grid=False):
    p["fun"] = rng.choice(["power", "affine", "affine", "one"])
    if p["fun"] == "affine":
        if rng.random() < 0.6:
            p["fargs"] = [rng.choice([0.5, 2.0, -1.0])]
        if rng.random() < 0.6:
            p["fkw"] = {"b": rng.choice([0.25, 3.0])}
    elif p["fun"] == "power" and rng.random() < 0.6:
        p["fkw"] = {"r_coef": rng.choice([0.25, 0.75]), "height": rng.choice([0.25, 0.5])}
    return p


def fun_kwargs(p):
    kw = {}
    if "fargs" in p:
        kw["fun_args"] = tuple(p["fargs"])
    if "fkw" in p:
        kw["fun_kwargs"] = shared("dict", p["fkw"], lambda: dict(p["fkw"]))
    return kw


def ref_pair(p, approx, txy, rxy, cands=None):
    return ref.accumulate(
        p["scene"], np.array(txy), np.array(rxy), ref_candidates(p) if cands is None else cands,
        vcfg(p, approx), p["fun"], tuple(p.get("fargs", ())), p.get("fkw", {}), p["cls"], verdict_kw(p),
    )


def check_sum(x, iv, what):
    if iv is None:
        return
    tol = 1e-3 * max(1.0, abs(iv[0]), abs(iv[1]))
    if not (iv[0] - tol <= x <= iv[1] + tol):
        bad("%s: %r, expected within [%.6g, %.6g]", what, x, *iv)


@register
class Accumulate(Op):
    name = "accumulate"
    weight = 2.0
    cost = 3.0

    def gen(self, rng):
        p = r_fun(rng, r_tracing(rng, hi=1))
        p["reduce"] = rng.random() < 0.4
        if rng.random() < 0.25:
            # called from code the user compiles, maps or differentiates
            p["outer"] = rng.choice(["jit", "vmap", "grad"])
        return p

    def call(self, p, approx, ctx=None):
        scene = build_scene(p["scene"])
        kw = {**trace_kwargs(p, approx), **fun_kwargs(p)}
        f = lib_fun(p["fun"])
        if p.get("outer"):
            return self.inside(p, scene, f, kw)
        if p["reduce"]:
            return num(scene.accumulate_over_paths(f, reduce_all=True, **kw))
        return [[t, r, num(v)] for t, r, v in scene.accumulate_over_paths(f, **kw)]

    @staticmethod
    def inside(p, scene, f, kw):
        """The same call made inside a transformation of the user's, with respect to the transmitters."""
        names = list(scene.transmitters)
        pairs = []

        def g(xys):
            s = scene.with_transmitters(**{n: G.Point(xy=xy) for n, xy in zip(names, xys)})
            del pairs[:]
            if p["reduce"]:
                return [s.accumulate_over_paths(f, reduce_all=True, **kw)]
            out = []
            for t, r, v in s.accumulate_over_paths(f, **kw):
                pairs.append([t, r])
                out.append(v)
            return out

        xys = [t.xy for t in scene.transmitters.values()]
        # (inside compiled code the objects of a scene must all be of one kind)
        if p["outer"] == "jit" and len({type(o) for o in scene.objects}) < 2:
            vs = jax.jit(g)(xys)
        elif p["outer"] != "grad":
            vs = [v[0] if v.ndim else v for v in (jax.vmap(g)([x[None] for x in xys]) if xys else g(xys))]
        else:
            vs, _ = jax.vjp(g, xys)
        if p["reduce"]:
            return num(vs[0])
        return [[*n, num(v)] for n, v in zip(pairs, vs)]

    def check(self, p, approx, r):
        sc = p["scene"]
        cands = ref_candidates(p)
        ivs = [(t, x, ref_pair(p, approx, a, b, cands)) for t, a in sc["tx"] for x, b in sc["rx"]]
        if p["reduce"]:
            if r.shape != ():
                bad("reduced accumulation has shape %s", r.shape)
            if all(i[2] is not None for i in ivs):
                check_sum(float(r), (sum(i[2][0] for i in ivs), sum(i[2][1] for i in ivs)), "reduced sum")
            return
        if [(a, b) for a, b, _ in r] != [(a, b) for a, b, _ in ivs]:
            bad("pairs %s, expected %s", [(a, b) for a, b, _ in r], [(a, b) for a, b, _ in ivs])
        for (t, x, v), (_, _, iv) in zip(r, ivs):
            if v.shape != ():
                bad("sum of shape %s", v.shape)
            check_sum(float(v), iv, f"sum of {t}->{x}")


@register
class Grid(Op):
    name = "grid"
    weight = 1.0
    cost = 5.0

    def gen(self, rng):
        p = r_fun(rng, r_tracing(rng, hi=1, small=True))
        p["side"] = rng.choice(["tx", "rx"])
        p["xs"] = sorted({rng.randrange(1, 64, 2) / 64.0 for _ in range(rng.choice([1, 2, 3]))})
        p["ys"] = sorted({rng.randrange(1, 64, 2) / 64.0 for _ in range(rng.choice([1, 2, 3]))})
        p["reduce"] = rng.random() < 0.3
        p["deriv"] = rng.choice(["value", "value", "grad", "both"])
        return p

    def tiny(self, rng):
        """A map of one or two cells over few candidates."""
        while True:
            p = self.gen(rng)
            if len(ref_candidates(p)) <= 3 and len(p["scene"]["tx"]) * len(p["scene"]["rx"]) <= 2:
                break
        p["xs"], p["ys"] = p["xs"][:2], p["ys"][:1]
        p["deriv"] = rng.choice(["value", "grad", "both"])
        return p

    def call(self, p, approx, ctx=None):
        scene = build_scene(p["scene"])
        kw = {**trace_kwargs(p, approx), **fun_kwargs(p)}
        f = lib_fun(p["fun"])
        X, Y = jnp.meshgrid(f32(p["xs"]), f32(p["ys"]))
        if p["deriv"] == "grad":
            kw["grad"] = True
        elif p["deriv"] == "both":
            kw["value_and_grad"] = True
        m = (scene.accumulate_on_transmitters_grid_over_paths if p["side"] == "tx"
             else scene.accumulate_on_receivers_grid_over_paths)
        if p["reduce"]:
            r = m(X, Y, f, reduce_all=True, **kw)
            return [num(x) for x in r] if isinstance(r, tuple) else [num(r)]
        return [
            [n, [num(x) for x in z] if isinstance(z, tuple) else [num(z)]] for n, z in m(X, Y, f, **kw)
        ]

    def check(self, p, approx, r):
        check_grid(p, approx, r)


def ref_cell_grad(p, approx, q, o, cands):
    """Central differences of the reference, or None near a kink."""
    out = []
    for ax in range(2):
        h = 1e-5
        vals = []
        for d in (-2 * h, -h, 0.0, h, 2 * h):
            z = list(q)
            z[ax] += d
            a, b = (z, o) if p["side"] == "tx" else (o, z)
            v = ref_mid(p, approx, a, b, cands)
            if v is None:
                return None
            vals.append(v)
        d1 = (vals[3] - vals[1]) / (2 * h)
        d2 = (vals[4] - vals[0]) / (4 * h)
        dl, dr = (vals[2] - vals[1]) / h, (vals[3] - vals[2]) / h
        s = 1 + abs(d1)
        if abs(d1 - d2) > 1e-2 * s or abs(dl - dr) > 5e-2 * s:
            return None
        out.append(d1)
    return np.array(out)


def ref_mid(p, approx, txy, rxy, cands):
    """Point value of the reference, None when any verdict is doubtful."""
    sc = p["scene"]
    cfg = vcfg(p, approx)
    tot = 0.0
    for c in cands:
        inter = [sc["objects"][i] for i in c]
        xys, loss, ok = ref.path_of(p["cls"], np.array(txy), inter, np.array(rxy))
        if not ok:
            return None
        v = ref.is_valid(xys, loss, sc["objects"], c, inter, cfg, **verdict_kw(p))
        if v[1] - v[0] > (0.02 if approx else 0.0):
            return None
        old = ref.ERR
        ref.ERR = 0.0
        try:
            v = ref.is_valid(xys, loss, sc["objects"], c, inter, cfg, loss_err=0.0, **verdict_kw(p))
        finally:
            ref.ERR = old
        f = ref.fun_value(p["fun"], np.array(txy), np.array(rxy), xys, inter,
                          tuple(p.get("fargs", ())), p.get("fkw", {}))
        tot += 0.5 * (v[0] + v[1]) * f
    return tot


def grid_cells(p):
    """Coordinates of the cells: a regular grid or arbitrary places."""
    if "X" in p:
        return np.array(p["X"]), np.array(p["Y"])
    return np.meshgrid(np.array(p["xs"]), np.array(p["ys"]))


def grid_call(p, approx, scene, fun, tile=None, node_cls=None):
    """The map (or a rectangle of it) as the library returns it."""
    kw = {**trace_kwargs(p, approx), **fun_kwargs(p)}
    X, Y = grid_cells(p)
    if tile is not None:
        a, b, c, d = tile
        X, Y = X[a:b, c:d], Y[a:b, c:d]
    if p["deriv"] == "grad":
        kw["grad"] = True
    elif p["deriv"] == "both":
        kw["value_and_grad"] = True
    if p["reduce"]:
        kw["reduce_all"] = True
    if node_cls is not None:
        kw["transmitter_cls" if p["side"] == "tx" else "receiver_cls"] = node_cls
    m = (scene.accumulate_on_transmitters_grid_over_paths if p["side"] == "tx"
         else scene.accumulate_on_receivers_grid_over_paths)
    return m(f32(X), f32(Y), fun, **kw)


def grid_arrays(z):
    return [num(x) for x in z] if isinstance(z, tuple) else [num(z)]


def judged_cells(ny, nx):
    """All cells of a small grid; of a large one the border of the index range and a fixed sample."""
    if ny * nx <= 40:
        return [(i, j) for i in range(ny) for j in range(nx)]
    r = random.Random(f"{ny}:{nx}")
    e = {(i % ny, j % nx) for i in (0, 1, -1, -2, 31, 32, 63, 64) for j in (0, -1, ny // 2)}
    e |= {(i % ny, j % nx) for j in (0, 1, -1, -2, 31, 32, 63, 64) for i in (0, -1, nx // 2)}
    return sorted(e | {(r.randrange(ny), r.randrange(nx)) for _ in range(30)})


def check_grid(p, approx, r, nodes=None):
    sc = p["scene"]
    cands = ref_candidates(p)
    nodes = nodes if nodes is not None else (sc["rx"] if p["side"] == "tx" else sc["tx"])
    X, Y = grid_cells(p)
    ny, nx = X.shape
    shapes = {"value": [(ny, nx)], "grad": [(ny, nx, 2)], "both": [(ny, nx), (ny, nx, 2)]}[p["deriv"]]
    if p["reduce"]:
        maps = [("sum", r)]
        if not nodes:
            return
        groups = [nodes]
    else:
        if [n for n, _ in r] != [n for n, _ in nodes]:
            bad("maps %s, expected %s", [n for n, _ in r], [n for n, _ in nodes])
        maps = r
        groups = [[n] for n in nodes]
    for (name, arrs), group in zip(maps, groups):
        if [a.shape for a in arrs] != shapes:
            bad("map %s has shapes %s, expected %s", name, [a.shape for a in arrs], shapes)
        for iy, ix in judged_cells(ny, nx):
            if True:
                q = [float(X[iy, ix]), float(Y[iy, ix])]
                x, y = q
                what = f"map {name} at cell ({x}, {y})"
                if p["deriv"] != "grad":
                    ivs = [ref_pair(p, approx, *((q, o) if p["side"] == "tx" else (o, q)), cands)
                           for _, o in group]
                    if all(i is not None for i in ivs):
                        check_sum(float(arrs[0][iy, ix]), (sum(i[0] for i in ivs), sum(i[1] for i in ivs)), what)
                if p["deriv"] != "value":
                    g = [ref_cell_grad(p, approx, q, o, cands) for _, o in group]
                    if all(v is not None for v in g):
                        e = sum(g)
                        s = 2e-2 * (1 + float(np.abs(e).max())) * (3.0 if approx else 1.0)
                        d = arrs[-1][iy, ix]
                        if not np.all(np.abs(d - e) <= s):
                            bad("%s: gradient %s, expected %s", what, d, e)


@register
class Candidates(Op):
    name = "candidates"
    truthy = False
    cost = 0.5

    def gen(self, rng):
        n = rng.choice([0, 1, 2, 3, 4, 5])
        return {"scene": r_scene(rng, 1, 1, n, rng.choice([False, True])), "ord": r_order(rng, n, 3),
                "filter": rng.choice(["none", *FILTERS])}

    def call(self, p, approx, ctx=None):
        s = build_scene(p["scene"])
        kw = dict(p["ord"])
        if p["filter"] != "none":
            kw["filter_objects"] = lib_filter(p["filter"])
        return [num(c).tolist() for c in s.all_path_candidates(**kw)]

    def check(self, p, approx, r):
        e = ref_candidates(p)
        got = [tuple(c) for c in r]
        if len(set(got)) != len(got):
            bad("candidates repeated: %s", got)
        if set(got) != set(e):
            bad("candidates %s, expected %s", sorted(got)[:12], sorted(e)[:12])


@register
class SceneQuery(Op):
    name = "query"
    truthy = False
    cost = 0.8

    def gen(self, rng):
        sc = r_scene(rng, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), False)
        return {"scene": sc, "fn": rng.choice(["location", "closest_tx", "closest_rx", "get_object", "stack",
                                               "grid", "bbox", "center", "interacting"]),
                "q": r_node(rng), "i": rng.randrange(0, len(sc["objects"])),
                "loc": rng.choice(["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]),
                "m": rng.choice([2, 3]), "n": rng.choice([None, 2, 4])}

    def call(self, p, approx, ctx=None):
        s = build_scene(p["scene"])
        fn = p["fn"]
        if fn == "location":
            return num(s.get_location(p["loc"]))
        if fn in ("closest_tx", "closest_rx"):
            m = s.get_closest_transmitter if fn == "closest_tx" else s.get_closest_receiver
            n, d = m(f32(p["q"]))
            return [n, float(d)]
        if fn == "get_object":
            return spec_of_object(s.get_object(jnp.asarray(p["i"])))
        if fn == "stack":
            return spec_of_scene(S.Scene.from_stacked_objects(s.stacked_objects()))
        if fn == "grid":
            return [num(z) for z in s.grid(p["m"], p["n"])]
        if fn == "bbox":
            return num(s.bounding_box())
        if fn == "center":
            return num(s.center())
        c = jnp.asarray(np.array([p["i"], 0], dtype=np.int32))
        return [spec_of_object(o) for o in s.get_interacting_objects(c)]

    def check(self, p, approx, r):
        sc, fn = p["scene"], p["fn"]
        if fn == "location":
            check_close(r, ref.location(ref.bounding_box(sc), p["loc"]), fn)
        elif fn in ("closest_tx", "closest_rx"):
            nodes = sc["tx" if fn == "closest_tx" else "rx"]
            d = [float(np.hypot(*(np.array(x) - p["q"]))) for _, x in nodes]
            m = min(d)
            check_close(r[1], m, fn)
            if r[0] not in [n for (n, _), k in zip(nodes, d) if k <= m + 1e-4]:
                bad("%s: %s is not the closest", fn, r[0])
        elif fn == "get_object":
            if r != sc["objects"][p["i"]]:
                bad("get_object(%d): %s, expected %s", p["i"], r, sc["objects"][p["i"]])
        elif fn == "stack":
            if r != {"tx": [], "rx": [], "objects": sc["objects"]}:
                bad("unstacked objects %s, expected %s", r, sc["objects"])
        elif fn == "grid":
            bb = ref.bounding_box(sc)
            n = p["n"] or p["m"]
            x, y = np.linspace(bb[0, 0], bb[1, 0], p["m"]), np.linspace(bb[0, 1], bb[1, 1], n)
            X, Y = np.meshgrid(x, y)
            check_close(r[0], X, "grid X")
            check_close(r[1], Y, "grid Y")
        elif fn == "bbox":
            check_close(r, ref.bounding_box(sc), fn)
        elif fn == "center":
            check_close(r, ref.bounding_box(sc).mean(axis=0), fn)
        else:
            e = [sc["objects"][p["i"]], sc["objects"][0]]
            if r != e:
                bad("interacting objects %s, expected %s", r, e)


@register
class Stochastic(Op):
    name = "stochastic_paths"
    kind = "keyed"
    weight = 1.0
    cost = 6.0

    def gen(self, rng):
        mixed = rng.choice([False, True, "vertex", "ris"])
        n = rng.choice([1, 2])
        p = {"scene": r_scene(rng, 1, rng.choice([1, 2]), n, mixed),
             "cls": rng.choice(["MinPath", "FermatPath"]),
             "ord": rng.choice([{}, {"order": 1}, {"order": 0}]), "filter": "none",
             "key": rng.randrange(1 << 20), "steps": rng.choice([2, 4]), "many": rng.choice([1, 2])}
        return r_act(rng, p)

    def call(self, p, approx, ctx=None):
        s = build_scene(p["scene"])
        kw = {**p["ord"], **vkwargs(p), **akw(approx)}
        pk = {"steps": p["steps"], "many": p["many"]}
        snap = dict(pk)
        r = [
            [t, r, verdict(v), num(path.xys), float(path.loss), [int(i) for i in c]]
            for t, r, v, path, c in s.all_paths(
                path_cls(p["cls"]), pk, key=key_of(p["key"]), **kw
            )
        ]
        if pk != snap:
            bad("the caller's path_cls_kwargs was changed to %s", pk)
        return r

    def check(self, p, approx, r):
        sc = p["scene"]
        cands = ref_candidates(p)
        cfg = vcfg(p, approx)
        exp = [(t, x) for t, _ in sc["tx"] for x, _ in sc["rx"]]
        got = [(t, x, tuple(c)) for t, x, _, _, _, c in r]
        if sorted(got) != sorted((t, x, c) for t, x in exp for c in cands):
            bad("entries %s", got)
        txs, rxs = dict(map(tuple, sc["tx"])), dict(map(tuple, sc["rx"]))
        for t, x, v, xys, loss, c in r:
            if not (np.allclose(xys[0], txs[t], atol=1e-6) and np.allclose(xys[-1], rxs[x], atol=1e-6)):
                bad("%s->%s via %s: end points %s %s", t, x, c, xys[0], xys[-1])
            inter = [sc["objects"][i] for i in c]
            for i, o in enumerate(inter):
                q = ref.to_cartesian(o, ref.to_param(o, xys[i + 1])) if o["t"] != "vertex" else ref.oxy(o)
                if not np.allclose(q, xys[i + 1], atol=1e-3 * (1 + np.abs(q).max())):
                    bad("%s->%s via %s: point %s is not on the line of its object", t, x, c, xys[i + 1])
            sl = sum(ref.evaluate(o, xys[i : i + 3])[0] for i, o in enumerate(inter))
            sk = all(ref.evaluate(o, xys[i : i + 3])[1] for i, o in enumerate(inter))
            if sk:
                check_close(loss, sl, f"{t}->{x} via {c}: loss", 2e-2, 5e-3)
            # borderline loss is judged with the loss carried by the path itself
            iv = ref.is_valid(np.asarray(xys, dtype=np.float64), loss, sc["objects"], c, inter, cfg)
            check_verdict(v, iv, approx, f"{t}->{x} via {c}")


@register
class Minimise(Op):
    name = "minimise"
    kind = "keyed"
    truthy = False
    cost = 3.0

    def gen(self, rng):
        return {"n": rng.choice([1, 2]), "many": rng.choice([1, 3]), "steps": rng.choice([3, 6]),
                "key": rng.randrange(1 << 20), "c": rng.choice([0.25, 2.0, -1.0])}

    def call(self, p, approx, ctx=None):
        def f(x, c):
            return jnp.sum((x - c) ** 2)

        x, l = O.minimize_many_random_uniform(
            f, key_of(p["key"]), p["n"], many=p["many"], steps=p["steps"], args=(p["c"],),
        )
        return [num(x), num(l)]

    def check(self, p, approx, r):
        x, l = r
        if x.shape != (p["n"],) or l.shape != ():
            bad("shapes %s %s", x.shape, l.shape)
        check_close(l, float(np.sum((x.astype(float) - p["c"]) ** 2)), "loss of the solution", 1e-4, 1e-5)


@register
class Keyed(Op):
    name = "keyed"
    kind = "keyed"
    truthy = False
    cost = 0.6

    def gen(self, rng):
        fn = rng.choice(["sample", "random_scene"])
        return {"fn": fn, "o": r_object(rng, rng.choice(["wall", "ris", "vertex"])), "key": rng.randrange(1 << 20),
                "n": [rng.randrange(0, 3), rng.randrange(0, 4), rng.randrange(0, 3)]}

    def call(self, p, approx, ctx=None):
        if p["fn"] == "sample":
            return num(build_object(p["o"]).sample(key_of(p["key"])))
        a, b, c = p["n"]
        return spec_of_scene(
            S.Scene.random_uniform_scene(n_transmitters=a, n_walls=b, n_receivers=c, key=key_of(p["key"])),
        )

    def check(self, p, approx, r):
        if p["fn"] == "sample":
            o = p["o"]
            if o["t"] == "vertex":
                check_close(r, ref.oxy(o), "sample")
            else:
                s = ref.to_param(o, r)
                check_close(r, ref.to_cartesian(o, s), "sample")
                if not -1e-5 <= s <= 1 + 1e-5:
                    bad("sampled point %s outside the object", r)
        else:
            check_random_scene(p["n"], r)


def check_random_scene(n, r):
    a, b, c = n
    if [x for x, _ in r["tx"]] != [f"tx_{i}" for i in range(a)]:
        bad("transmitters %s", r["tx"])
    if sorted(x for x, _ in r["rx"]) != sorted(f"rx_{i}" for i in range(c)):
        bad("receivers %s", r["rx"])
    if len(r["objects"]) != b:
        bad("%d walls, expected %d", len(r["objects"]), b)
    pts = [tuple(q) for _, q in r["tx"]] + [tuple(q) for _, q in r["rx"]]
    for o in r["objects"]:
        pts += [tuple(q) for q in o["xy"]]
    if len(set(pts)) != len(pts):
        bad("two points of the random scene are the same draw: %s", sorted(pts))
    xs = [v for q in pts for v in q]
    if len(set(xs)) < len(xs) - 1:
        bad("coordinates of the random scene are reused: %s", sorted(xs))
    if not all(0 <= v < 1 for v in xs):
        bad("coordinates outside [0, 1)")


# ----------------------------------------------------------------- geojson


def geojson_doc(rings):
    return {
        "type": "FeatureCollection",
        "features": [
            {"type": "Feature", "properties": {}, "geometry": {"type": "Polygon", "coordinates": [r]}}
            for r in rings
        ],
    }


def geojson_walls(rings):
    return [
        {"t": "wall", "xy": [list(r[i - 1]), list(r[i])]} for r in rings for i in range(len(r))
    ]


@register
class GeoJSON(Op):
    name = "geojson"
    truthy = False
    cost = 1.0

    def gen(self, rng):
        rings = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = [[rng.randrange(0, 65) / 8.0, rng.randrange(0, 65) / 8.0] for _ in range(3)]
            rings.append([*r, r[0]])
        return {"rings": rings, "as": rng.choice(["str", "bytes", "stream"]),
                "loc": [rng.choice(["NW", "C", "E"]), rng.choice(["SE", "S", "NE"])]}

    def call(self, p, approx, ctx=None):
        s = json.dumps(geojson_doc(p["rings"]))
        if p["as"] == "bytes":
            s = s.encode()
        elif p["as"] == "stream":
            s = io.StringIO(s)
        return spec_of_scene(S.Scene.from_geojson(s, *p["loc"]))

    def check(self, p, approx, r):
        check_geojson(p["rings"], p["loc"], r)


def check_geojson(rings, loc, r):
    walls = geojson_walls(rings)
    if len(r["objects"]) != len(walls):
        bad("%d walls, expected %d", len(r["objects"]), len(walls))
    for i, (a, b) in enumerate(zip(r["objects"], walls)):
        if a["t"] != "wall" or not np.array_equal(np.float32(a["xy"]), np.float32(b["xy"])):
            bad("wall %d is %s, expected %s", i, a, b)
    if walls:
        bb = ref.bounding_box({"tx": [], "rx": [], "objects": walls})
        e = [["tx", ref.location(bb, loc[0])], ["rx", ref.location(bb, loc[1])]]
    else:
        e = [["tx", np.array([0.0, 0.0])], ["rx", np.array([1.0, 1.0])]]
    for side, (name, xy) in zip(("tx", "rx"), e):
        if [n for n, _ in r[side]] != [name]:
            bad("%s nodes are %s", side, r[side])
        check_close(r[side][0][1], xy, side, 1e-5, 1e-5 * (1 + float(np.abs(xy).max())))


# ------------------------------------------------------------------- calling


@contextlib.contextmanager
def mode_ctx(mode):
    if mode == "eager":
        with jax.disable_jit():
            yield
    else:
        yield


def call(name, p, approx, mode, ctx=None):
    with mode_ctx(mode):
        return OPS[name].call(p, approx, ctx)


def pick(rng, names=None, maxcost=99.0, truthy=None):
    c = [o for o in OPS.values() if (names is None or o.name in names) and o.cost <= maxcost
         and (truthy is None or o.truthy == truthy)]
    o = rng.choices(c, [x.weight for x in c])[0]
    return o.name
