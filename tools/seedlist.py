SC = "scene.py"
seed("c01-set-without-lock", "C01", [("logic.py", "    with _LOCK:\n        ENABLE_APPROX = enable\n", "    ENABLE_APPROX = enable\n")], '''
import threading
import differt2d.logic as l
l.set_approx(True)
bad = []
with l.enable_approx(True):
    t = threading.Thread(target=l.set_approx, args=(False,))
    t.start()
    t.join(1.5)
    if l.ENABLE_APPROX is not True:
        bad.append("another thread's set call took effect inside the scope")
t.join()
if l.ENABLE_APPROX is not False:
    bad.append("the set call was lost: the scope restored the default on top of it")
assert not bad, bad
''', "a set call by another thread while a scope is open", "set_approx no longer waits for open scopes of other threads, so it takes effect inside them and is lost when they end")

seed("c01-restore-on-exception-only", "C01", [("logic.py", "            yield\n        finally:\n            ENABLE_APPROX = state\n", "            yield\n        except Exception:\n            ENABLE_APPROX = state\n            raise\n        else:\n            ENABLE_APPROX = state\n")], '''
import differt2d.logic as l
l.set_approx(True)
for e in (ValueError, KeyboardInterrupt, GeneratorExit):
    try:
        with l.enable_approx(False):
            raise e("x")
    except e:
        pass
    assert l.ENABLE_APPROX is True, e
''', "a scope left by an exception that is not an Exception (KeyboardInterrupt, SystemExit, GeneratorExit)", "the default is not restored when a scope is left by such an exception")

seed("c01-keep-inner-set", "C01", [("logic.py", "        finally:\n            ENABLE_APPROX = state\n", "        finally:\n            if ENABLE_APPROX is enable:\n                ENABLE_APPROX = state\n")], '''
import differt2d.logic as l
l.set_approx(True)
with l.enable_approx(True):
    l.set_approx(False)
    assert l.ENABLE_APPROX is False
assert l.ENABLE_APPROX is True, "not restored"
''', "a set call inside a scope, by the thread that opened it", "a scope is not restored when the default was set to another value inside it")

seed("c02-wall-upper-bound", "C02", [("geometry.py", """        le = less_equal(
            param_coords,
            jnp.array(1.0),
            approx=approx,
""", """        le = less_equal(
            param_coords,
            jnp.array(1.0),
            approx=None if approx else False,
""")], '''
import jax.numpy as jnp
import differt2d.logic as l
from differt2d.geometry import Wall
w = Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]]))
with l.enable_approx(False):
    v = w.contains_parametric(jnp.array([0.995]), approx=True, alpha=10.0)
assert 0.4 < float(v) < 0.9, (v, v.dtype)
''', "explicit approx=True near the end of a wall while the process-wide default is False", "an explicit approximate choice falls back to the process-wide default in one of the two comparisons of a wall's containment test")

seed("c02-valid-filter", "C02", [(SC, "            if is_true(valid, approx=approx):", "            if is_true(valid):")], '''
import jax.numpy as jnp
import differt2d.logic as l
from differt2d.scene import Scene
from differt2d.geometry import Point, Wall
s = Scene(transmitters={"tx": Point(xy=jnp.array([0.0, 0.0]))}, receivers={"rx": Point(xy=jnp.array([1.0, 0.0]))},
          objects=[Wall(xys=jnp.array([[0.5, -1.0], [0.5, 1.0]]))])
with l.enable_approx(False):
    n = len(list(s.all_valid_paths(approx=True, order=0, alpha=3.0)))
assert n == 0, n
''', "explicit approx=True for valid paths while the process-wide default is False, with a path of a small but non-zero degree", "valid paths are selected under the process-wide default instead of the explicit choice")

seed("c02-explicit-false-lost", "C02", [("geometry.py", "                less(self.loss, jnp.asarray(tol), approx=approx, **kwargs),", "                less(self.loss, jnp.asarray(tol), approx=approx or None, **kwargs),")], '''
import jax.numpy as jnp
import differt2d.logic as l
from differt2d.geometry import Path
p = Path(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]]), loss=jnp.array(0.3))
with l.enable_approx(True):
    v = p.is_valid([], jnp.empty(0, dtype=int), [], tol=1e-2, approx=False, alpha=2.0)
assert bool(v) is False, v
''', "explicit approx=False for the validity of a path whose loss is above the tolerance, with the process-wide default True", "the comparison of the path loss ignores an explicit exact choice")

seed("c03-default-at-import", "C03", [(SC, "from .logic import Truthy, is_true", "from .logic import ENABLE_APPROX, Truthy, is_true"), (SC, """        if path_cls_kwargs is None:  # pragma: no cover  # TODO: add test
            path_cls_kwargs = {}
""", """        if path_cls_kwargs is None:  # pragma: no cover  # TODO: add test
            path_cls_kwargs = {}

        if kwargs.get("approx") is None:
            kwargs["approx"] = ENABLE_APPROX
""")], '''
import jax
import differt2d.logic as l
from differt2d.scene import Scene
s = Scene.square_scene()
for d in (True, False):
    with l.enable_approx(d), jax.disable_jit():
        k = {v[2].dtype.kind for v in s.all_paths()}
    assert k == {"f" if d else "b"}, (d, k)
''', "paths asked for without a choice inside a scope that changes the default", "the default in force when the package was imported is used instead of the one in force at the call")

seed("c04-verdict-per-candidate", "C04", [(SC, """                valid = path.is_valid(
                    self.objects,
                    path_candidate,
                    interacting_objects,
                    **kwargs,
                )

                yield (tx_key""", """                name = (receiver, path.loss.item(), *path_candidate.tolist())
                valid = verdicts.get(name)
                if valid is None:
                    valid = verdicts[name] = path.is_valid(
                        self.objects,
                        path_candidate,
                        interacting_objects,
                        **kwargs,
                    )

                yield (tx_key""".replace("receiver, ", "rx_key, ")), (SC, """            filter_objects=filter_objects,
        )

        for (tx_key, transmitter), (
""", """            filter_objects=filter_objects,
        )
        verdicts = {}

        for (tx_key, transmitter), (
""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point, Wall
P = lambda x, y: Point(xy=jnp.array([x, y]))
s = Scene(transmitters={"a": P(0.2, 0.5), "b": P(0.8, 0.6)}, receivers={"rx": P(0.9, 0.5)},
          objects=[Wall(xys=jnp.array([[0.5, 0.0], [0.5, 1.0]]))])
got = [(a, bool(v)) for a, _, v, *_ in s.all_paths(order=0, approx=False)]
assert got == [("a", False), ("b", True)], got
''', "several transmitters that see one receiver through the same objects with different verdicts", "paths of later transmitters carry the verdict computed for the first one")

seed("c04-shared-cursor", "C04", [(SC, """        for (tx_key, transmitter), (
            rx_key,
            receiver,
        ) in self.all_transmitter_receiver_pairs():
            for path_candidate in path_candidates:
                interacting_objects""", """        names = (tuple(self.transmitters), tuple(self.receivers), len(self.objects))
        pairs = _PAIRS.setdefault(names, [])
        pairs.extend(self.all_transmitter_receiver_pairs())

        while pairs:
            (tx_key, transmitter), (rx_key, receiver) = pairs.pop(0)
            for path_candidate in path_candidates:
                interacting_objects"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_PAIRS: dict = {}\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
s = Scene.square_scene().update_receivers(b=Point(xy=jnp.array([0.7, 0.3])))
want = [("tx", "rx"), ("tx", "b")]
a = s.all_paths(order=0)
first = next(a)[:2]
b = [x[:2] for x in s.all_paths(order=0)]
rest = [x[:2] for x in a]
assert [first, *rest] == want and b == want, (first, rest, b)
''', "a second iteration started while another one over a scene with the same node names is open (or was abandoned)", "iterators share their queue of pairs, so pairs are lost or delivered to the wrong iterator")

seed("c05-partial-sum-kept", "C05", [(SC, "                acc = jnp.array(0.0)\n                transmitter = self.transmitters[tx_key]", "                acc = _SUMS.pop((tx_key, rx_key), jnp.array(0.0))\n                transmitter = self.transmitters[tx_key]"),
 (SC, """                        *fun_args,
                        **fun_kwargs,
                    )

                yield tx_key, rx_key, acc
""", """                        *fun_args,
                        **fun_kwargs,
                    )
                    _SUMS[tx_key, rx_key] = acc

                yield tx_key, rx_key, _SUMS.pop((tx_key, rx_key), acc)
"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_SUMS: dict = {}\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
s = Scene.square_scene()
n = [0]
def f(tx, rx, path, objs):
    n[0] += 1
    if n[0] == 3:
        raise RuntimeError("x")
    return jnp.array(1.0)
try:
    s.accumulate_over_paths(f, reduce_all=True, approx=False)
except RuntimeError:
    pass
z = float(s.accumulate_over_paths(f, reduce_all=True, approx=False))
assert z == 5.0, z
''', "a user function that fails in the middle of a pair, then the accumulation repeated", "the partial sum of the failed call is counted again")

seed("c05-group-by-receiver", "C05", [(SC, "operator.itemgetter(slice(2)),", "operator.itemgetter(slice(1, 2)),"), (SC, "            for (tx_key, rx_key), paths_group in groupby(", "            for (rx_key,), paths_group in groupby("),
 (SC, """                transmitter = self.transmitters[tx_key]
                receiver = self.receivers[rx_key]

                for _, _, valid, path, path_candidate in paths_group:
""", """                receiver = self.receivers[rx_key]

                for tx_key, _, valid, path, path_candidate in paths_group:
                    transmitter = self.transmitters[tx_key]
""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
s = Scene.square_scene().update_transmitters(b=Point(xy=jnp.array([0.7, 0.3])))
got = [(a, b, float(z)) for a, b, z in s.accumulate_over_paths(lambda *a: jnp.array(1.0), approx=False)]
assert got == [("tx", "rx", 5.0), ("b", "rx", 5.0)], got
''', "several transmitters and a single receiver", "consecutive pairs with the same receiver are merged into one sum")

seed("c06-sorted-nodes", "C06", [(SC, """        pairs = list(scene.all_transmitter_receiver_pairs())
""", """        pairs = sorted(scene.all_transmitter_receiver_pairs(), key=lambda p: p[0][0])
""", 2)], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
P = lambda x, y: Point(xy=jnp.array([x, y]))
s = Scene.square_scene().with_transmitters(z=P(0.2, 0.5), a=P(0.8, 0.6))
X, Y = jnp.meshgrid(jnp.array([0.31, 0.52]), jnp.array([0.41, 0.77]))
n = [k for k, _ in s.accumulate_on_receivers_grid_over_paths(X, Y, lambda *a: jnp.array(1.0), approx=False, max_order=0)]
assert n == ["z", "a"], n
''', "receiver maps of a scene whose transmitters are not in alphabetical order", "the maps come out in alphabetical order instead of scene order")

seed("c06-late-binding", "C06", [(SC, "            return ((rx_key, vf(grid, receiver)) for _, (rx_key, receiver) in pairs)", """            todo = ((rx_key, lambda: vf(grid, receiver)) for _, (rx_key, receiver) in pairs)
            if len(pairs) > 2:
                todo = list(todo)
            return ((rx_key, z()) for rx_key, z in todo)""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
s = Scene.square_scene().update_receivers(b=Point(xy=jnp.array([0.7, 0.3])), c=Point(xy=jnp.array([0.1, 0.9])))
X, Y = jnp.meshgrid(jnp.array([0.31, 0.52]), jnp.array([0.41, 0.77]))
f = lambda tx, rx, path, objs: rx.xy[0]
got = [(n, float(z[0, 0])) for n, z in s.accumulate_on_transmitters_grid_over_paths(X, Y, f, approx=False, max_order=0)]
assert [n for n, _ in got] == ["rx", "b", "c"] and jnp.allclose(jnp.array([z for _, z in got]), jnp.array([0.5, 0.7, 0.1])), got
''', "transmitter maps of a scene with at least three receivers", "every receiver gets the map of the last one")

seed("c07-same-key-per-order", "C07", [(SC, "            keys = list(jax.random.split(key, len(path_candidates)))", "            keys = [jax.random.fold_in(key, len(c)) for c in path_candidates]", 2)], '''
import jax, jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import ImagePath
keys = []
class P(ImagePath):
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
        keys.append(key.tolist())
        return ImagePath.from_tx_objects_rx(tx, objects, rx)
X, Y = jnp.meshgrid(jnp.array([0.31, 0.52]), jnp.array([0.41, 0.77]))
s = Scene.square_scene()
s.accumulate_on_receivers_grid_over_paths(X, Y, lambda *a: jnp.array(1.0), path_cls=P, key=jax.random.PRNGKey(1), reduce_all=True)
assert len({tuple(k) for k in keys}) == 5, keys
''', "a receiver map with a stochastic path method and several candidates of the same order", "path candidates of the same order share one random key")

seed("c07-key-restarts-per-pair", "C07", [(SC, """            for path_candidate in path_candidates:
                interacting_objects = self.get_interacting_objects(path_candidate)

                if key is not None:
                    key, key_path = jax.random.split(key, 2)
""", """            key_pair = key

            for path_candidate in path_candidates:
                interacting_objects = self.get_interacting_objects(path_candidate)

                if key_pair is not None:
                    key_pair, key_path = jax.random.split(key_pair, 2)
""")], '''
import jax, jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import ImagePath, Point
keys = []
class P(ImagePath):
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
        keys.append(tuple(key.tolist()))
        return ImagePath.from_tx_objects_rx(tx, objects, rx)
s = Scene.square_scene().update_receivers(b=Point(xy=jnp.array([0.7, 0.3])))
list(s.all_paths(path_cls=P, key=jax.random.PRNGKey(1)))
assert len(set(keys)) == 10, keys
''', "an enumeration with a stochastic path method over several pairs", "every pair uses the same sequence of keys")

seed("c08-failed-trial-poisons-loss", "C08", [("optimize.py", "    return xs[i_min, :], losses[i_min]", "    return xs[i_min, :], losses.min()")], '''
import jax, jax.numpy as jnp
from differt2d.optimize import minimize_many_random_uniform
def f(x):
    return jnp.where(x[0] < 0.5, jnp.sum((x - 0.25) ** 2), jnp.nan)
x, y = minimize_many_random_uniform(f, jax.random.PRNGKey(3), 2, many=12, steps=20)
assert jnp.isfinite(x).all() and jnp.allclose(y, f(x)), (x, y)
''', "a multi-start minimisation in which at least one trial fails numerically and another survives", "the returned loss is not-a-number instead of the loss of the returned solution")

seed("c08-shared-start", "C08", [("optimize.py", "    keys = jax.random.split(key, num=many)\n", "    keys = jax.random.split(key, num=many)\n    keys = keys.at[many // 2 :].set(keys[: many - many // 2])\n")], '''
import jax, jax.numpy as jnp
import differt2d.optimize as o
key = jax.random.PRNGKey(5)
# flat except for a small basin: only one of the trials starts in it
keys = jax.random.split(key, num=4)
x0s = [jax.random.uniform(k, (2,)) for k in keys]
t = x0s[-1]
f = lambda x: -jnp.exp(-jnp.sum((x - t) ** 2) * 4000.0)
x, y = o.minimize_many_random_uniform(f, key, 2, many=4, steps=1)
best = min(float(o.minimize_random_uniform(f, k, 2, steps=1)[1]) for k in keys)
assert jnp.allclose(y, best, atol=1e-6), (y, best)
''', "a multi-start minimisation in which the best trial is one of the later ones", "the second half of the trials repeats the first half, so the best trial may be missing and keys are reused")

seed("c09-short-read", "C09", [(SC, "        return cls.from_geojson(fp.read(), *args, **kwargs)", """        chunks = []
        while chunk := fp.read(4096):
            chunks.append(chunk)
            if len(chunk) < 4096:
                break
        s = chunks[0][:0].join(chunks) if chunks else "{}"
        return cls.from_geojson(s, *args, **kwargs)""")], '''
import io, json
from differt2d.scene import Scene
doc = json.dumps({"features": [{"geometry": {"type": "Polygon", "coordinates": [[[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]]}}]})
class Slow(io.RawIOBase):
    def __init__(self, b): self.b, self.i = b, 0
    def readable(self): return True
    def readinto(self, buf):
        n = min(len(buf), 50, len(self.b) - self.i)
        buf[:n] = self.b[self.i:self.i + n]; self.i += n
        return n
assert len(Scene.from_geojson(Slow(doc.encode())).objects) == 3
try:
    r = Scene.from_geojson(io.StringIO(""))
except ValueError:
    pass
else:
    raise AssertionError(f"an empty stream gave {r}")
''', "a stream that delivers the document in short reads, or that is empty", "a short read is taken for the end of the stream, an empty stream for an empty document")

seed("c09-error-hidden", "C09", [(SC, "        return cls.from_geojson(fp.read(), *args, **kwargs)", """        try:
            s = fp.read()
        except (OSError, EOFError):
            s = '{"features": []}'
        return cls.from_geojson(s, *args, **kwargs)""")], '''
import io
from differt2d.scene import Scene
class Bad(io.StringIO):
    def read(self, *a): raise ConnectionResetError("x")
try:
    r = Scene.from_geojson(Bad("{}"))
except ConnectionResetError:
    pass
else:
    raise AssertionError(r)
''', "a stream whose read fails", "a failed read gives an empty scene instead of an exception")

seed("c10-rename-in-place", "C10", [(SC, """        transmitters = {}
        for name, point in self.transmitters.items():
            name = transmitter_names.get(name, name)
            transmitters[name] = point
""", """        transmitters = dict(self.transmitters)
        for name, new_name in transmitter_names.items():
            if name in transmitters:
                transmitters[new_name] = transmitters.pop(name)
""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
p = [Point(xy=jnp.array([float(i), 0.0])) for i in range(3)]
s = Scene().with_transmitters(a=p[0], b=p[1], c=p[2])
r = s.rename_transmitters(a="b", b="a")
assert [(n, float(q.xy[0])) for n, q in r.transmitters.items()] == [("b", 0.0), ("a", 1.0), ("c", 2.0)], r.transmitters
''', "names exchanged in one renaming, or the order of nodes after a renaming", "renaming loses nodes when names are exchanged and changes the order of the transmitters")

seed("c10-edits-share-buffer", "C10", [(SC, """            tuple(filter(filter_spec, self.objects)),
""", """            _keep(filter_spec, self.objects),
"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", """_KEPT: list = []


def _keep(filter_spec, objects):
    for obj in objects:
        if filter_spec(obj):
            _KEPT.append(obj)
    kept = tuple(_KEPT)
    _KEPT.clear()
    return kept


class Scene(eqx.Module, Plottable, Generic[Obj]):""")], '''
from differt2d.scene import Scene
s = Scene.square_scene()
n = [0]
def f(o):
    n[0] += 1
    if n[0] == 3: raise RuntimeError("x")
    return True
try:
    s.filter_objects(f)
except RuntimeError:
    pass
r = s.filter_objects(lambda o: True)
assert len(r.objects) == 4, len(r.objects)
''', "a filter that fails half-way, then any other filtering (or two filterings interleaved)", "objects kept before the failure appear in the next filtered scene")

seed("c11-filter-leftovers", "C11", [(SC, """            filter_nodes = ()
            for i, obj in enumerate(self.objects):
                if not filter_objects(obj):
                    filter_nodes = (*filter_nodes, i)
""", """            for i, obj in enumerate(self.objects):
                if not filter_objects(obj):
                    _REJECTED.append(i)
            filter_nodes = tuple(_REJECTED)
            _REJECTED.clear()
"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_REJECTED: list = []\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
from differt2d.scene import Scene
s = Scene.square_scene()
n = [0]
def f(o):
    n[0] += 1
    if n[0] == 2: raise RuntimeError("x")
    return False
try:
    s.all_path_candidates(order=1, filter_objects=f)
except RuntimeError:
    pass
c = s.all_path_candidates(order=1, filter_objects=lambda o: True)
assert len(c) == 4, c
''', "an object filter that fails after it rejected an object, then another filtered enumeration", "objects rejected by the failed call are missing from the next one")

seed("c11-default-left-changed", "C11", [(SC, """        for tx_key, rx_key, valid, path, path_candidate in self.all_paths(
            approx=approx,
            **kwargs,
        ):
            if is_true(valid, approx=approx):
                yield (tx_key, rx_key, path, path_candidate)
""", """        default = logic.ENABLE_APPROX
        if approx is not None:
            logic.set_approx(approx)
        paths = [p for p in self.all_paths(approx=approx, **kwargs) if is_true(p[2])]
        logic.set_approx(default)
        for tx_key, rx_key, _, path, path_candidate in paths:
            yield (tx_key, rx_key, path, path_candidate)
"""), (SC, "from .logic import Truthy, is_true", "from . import logic\nfrom .logic import Truthy, is_true")], '''
import differt2d.logic as l
from differt2d.scene import Scene
l.set_approx(True)
def f(o): raise RuntimeError("x")
try:
    list(Scene.square_scene().all_valid_paths(approx=False, filter_objects=f))
except RuntimeError:
    pass
assert l.ENABLE_APPROX is True
''', "valid paths with an explicit choice that differs from the default, interrupted by a failing callback", "the process-wide default stays changed after the failed call")

seed("c12-shared-scratch", "C12", [("geometry.py", "        interacting_object_indices = [-1, *list(path_candidate), -1]\n", "        _INDICES[:] = [-1, *list(path_candidate), -1]\n        interacting_object_indices = _INDICES\n"), ("geometry.py", "@jaxtyped(typechecker=typechecker)\nclass Path(eqx.Module, Plottable):", "_INDICES: list = []\n\n\n@jaxtyped(typechecker=typechecker)\nclass Path(eqx.Module, Plottable):")], '''
import threading
import jax, jax.numpy as jnp
from differt2d.geometry import Path, Wall
from differt2d.scene import Scene
s = Scene.square_scene()
p = Path(xys=jnp.array([[0.2, 0.2], [0.35, 0.0], [0.5, 0.2]]))
go, done = threading.Event(), threading.Event()
class W(Wall):
    def intersects_cartesian(self, *a, **k):
        if threading.current_thread() is not main and not go.is_set():
            go.set()
            done.wait(60)
        return super().intersects_cartesian(*a, **k)
main = threading.current_thread()
objects = [W(xys=o.xys) for o in s.objects]
out = {}
def other():
    with jax.disable_jit():
        out["v"] = bool(p.intersects_with_objects(objects, jnp.array([0]), approx=False))
with jax.disable_jit():
    t = threading.Thread(target=other)
    t.start()
    go.wait(60)
    p.intersects_with_objects(objects, jnp.array([2, 1, 3]), approx=False)
    done.set()
    t.join()
assert out["v"] is False, out
''', "two threads testing paths for obstruction at the same time without compilation (or while both are being compiled)", "the list of interacting objects is shared between calls, so a call ignores the objects of another call's path")

seed("c12-shared-accumulator", "C12", [(SC, """            acc = jnp.array(0.0)
            for path_candidate, key in zip(path_candidates, keys):
                interacting_objects = scene.get_interacting_objects(path_candidate)
                path = path_cls.from_tx_objects_rx(
                    transmitter,""", """            acc = jnp.array(0.0)
            for path_candidate, key in zip(path_candidates, keys):
                _OBJECTS[:] = scene.get_interacting_objects(path_candidate)
                interacting_objects = _OBJECTS
                path = path_cls.from_tx_objects_rx(
                    transmitter,"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_OBJECTS: list = []\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import threading
import jax.numpy as jnp
from differt2d.scene import Scene
s = Scene.square_scene()
X, Y = jnp.meshgrid(jnp.array([0.31, 0.52]), jnp.array([0.41, 0.77]))
main = threading.current_thread()
go, done = threading.Event(), threading.Event()
def f(tx, rx, path, objs):
    if threading.current_thread() is not main and len(objs) == 1 and not go.is_set():
        go.set()
        done.wait(60)
    return jnp.array(float(len(objs)))
out = {}
def other():
    out["z"] = s.accumulate_on_receivers_grid_over_paths(X, Y, f, order=1, approx=False, reduce_all=True)
alone = s.accumulate_on_receivers_grid_over_paths(X, Y, f, order=1, approx=False, reduce_all=True)
t = threading.Thread(target=other)
t.start()
go.wait(60)
s.accumulate_on_receivers_grid_over_paths(X, Y, f, order=2, approx=False, reduce_all=True)
done.set()
t.join()
assert jnp.array_equal(out["z"], alone), (out, alone)
''', "two receiver maps computed at the same time by two threads", "the list of interacting objects given to the user function is shared between calls")

seed("c13-current-axes", "C13", [("geometry.py", "                ax.annotate(\n", "                plt.annotate(\n"), ("geometry.py", "from matplotlib.artist import Artist\n", "import matplotlib.pyplot as plt\nfrom matplotlib.artist import Artist\n")], '''
import matplotlib.pyplot as plt
from differt2d.scene import Scene
_, (a, b) = plt.subplots(2)
r = Scene.square_scene().plot(a)
assert not b.get_children() or not b.texts, b.texts
assert all(x.axes is a for x in r), [x.axes for x in r]
''', "plotting with labels on axes that are not the current ones", "labels are added to the current axes instead of the given ones")

seed("c13-options-changed", "C13", [(SC, """        transmitters_kwargs = {"color": "blue", **transmitters_kwargs}
        receivers_kwargs = {"color": "green", **receivers_kwargs}
""", """        for default, options in (
            ("blue", transmitters_kwargs),
            ("green", receivers_kwargs),
        ):
            options.setdefault("color", default)
""")], '''
import matplotlib.pyplot as plt
import matplotlib.colors as mc
from differt2d.scene import Scene
o = {"marker": "x"}
r = Scene.square_scene().plot(plt.gca(), transmitters_kwargs=o, receivers_kwargs=o)
assert o == {"marker": "x"}, o
''', "plotting with a mapping of options that the caller uses again", "plotting writes the default colour into the caller's option mapping")

seed("c14-candidates-by-filter", "C14", [(SC, """        num_nodes = len(self.objects)

        if filter_objects is None:
            filter_nodes = None
        else:
            filter_nodes = ()
            for i, obj in enumerate(self.objects):
                if not filter_objects(obj):
                    filter_nodes = (*filter_nodes, i)

        return""", """        num_nodes = len(self.objects)

        if filter_objects is None:
            filter_nodes = None
        else:
            filter_nodes = _REJECTED.get((filter_objects, num_nodes))
            if filter_nodes is None:
                filter_nodes = tuple(
                    i for i, obj in enumerate(self.objects) if not filter_objects(obj)
                )
                _REJECTED[filter_objects, num_nodes] = filter_nodes

        return"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_REJECTED: dict = {}\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Wall
f = lambda o: bool(o.xys[0, 0] < 0.5)
a = Scene.square_scene()
b = a.with_objects(*a.objects[1:], a.objects[0])
n = [[int(c[0]) for c in s.all_path_candidates(order=1, filter_objects=f)] for s in (a, b)]
want = [[i for i, o in enumerate(s.objects) if f(o)] for s in (a, b)]
assert n == want, (n, want)
''', "the same object filter used on two scenes with as many objects", "the objects rejected in the first scene are rejected in the second one")

seed("c14-map-of-first-options", "C14", [(SC, """        vf = jax.vmap(
            jax.vmap(f, in_axes=(None, 0)),
            in_axes=(None, 0),
        )
""", """        vf = _MAPS.setdefault(
            (fun, path_cls, tuple(self.transmitters), X.shape, grad, value_and_grad)
            if fun_args == () and not fun_kwargs
            else object(),
            jax.vmap(
                jax.vmap(f, in_axes=(None, 0)),
                in_axes=(None, 0),
            ),
        )
"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_MAPS: dict = {}\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
X, Y = jnp.meshgrid(jnp.array([0.31, 0.52]), jnp.array([0.41, 0.77]))
one = lambda *a: jnp.array(1.0)
s = Scene.square_scene()
z = [float(s.accumulate_on_receivers_grid_over_paths(X, Y, one, max_order=m, approx=False, reduce_all=True)[0, 0]) for m in (0, 1)]
assert z == [1.0, 5.0], z
''', "two receiver maps of the same shape and function with other options or another scene", "the second map is computed with the scene and options of the first")

seed("c05-arithmetic-failures-as-zero", "C05", [(SC, """                    interacting_objects = self.get_interacting_objects(path_candidate)
                    acc = acc + valid * fun(
                        transmitter,
                        receiver,
                        path,
                        interacting_objects,  # type: ignore[arg-type]
                        *fun_args,
                        **fun_kwargs,
                    )
""", """                    interacting_objects = self.get_interacting_objects(path_candidate)
                    try:
                        contribution = fun(
                            transmitter,
                            receiver,
                            path,
                            interacting_objects,  # type: ignore[arg-type]
                            *fun_args,
                            **fun_kwargs,
                        )
                    except ArithmeticError:
                        # e.g., a division by a null length
                        contribution = jnp.array(0.0)
                    acc = acc + valid * contribution
""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
def fun(tx, rx, path, objs):
    if len(objs) == 1:
        raise FloatingPointError("x")
    return jnp.array(1.0)
try:
    r = Scene.square_scene().accumulate_over_paths(fun, reduce_all=True, approx=False)
except FloatingPointError:
    pass
else:
    raise AssertionError(("the failure did not reach the caller", r))
''', "the accumulated function raises an ArithmeticError (ZeroDivisionError, FloatingPointError, OverflowError)", "such a failure is hidden and the path counts as zero")

seed("c10-same-object-once", "C10", [(SC, "        return self.with_objects(*self.objects, *objects)", "        known = {id(obj) for obj in self.objects}\n        return self.with_objects(\n            *self.objects,\n            *(obj for obj in objects if id(obj) not in known),\n        )")], '''
from differt2d.scene import Scene
s = Scene.square_scene()
t = s.add_objects(s.objects[2], *Scene.square_scene().objects)
assert len(t.objects) == 9, len(t.objects)
''', "adding an object (the same instance) that is already in the scene", "the object is silently not added a second time")

seed("c09-end-on-eoferror", "C09", [(SC, "        return cls.from_geojson(fp.read(), *args, **kwargs)", """        chunks = []
        try:
            while chunk := fp.read():
                chunks.append(chunk)
        except EOFError:
            # some readers signal the end of the stream like this
            pass
        if not chunks:
            return cls.from_geojson("{}", *args, **kwargs)
        return cls.from_geojson(chunks[0][:0].join(chunks), *args, **kwargs)""")], '''
from differt2d.scene import Scene
class F:
    def read(self, n=-1):
        raise EOFError("connection lost")
try:
    r = Scene.from_geojson(F())
except EOFError:
    pass
else:
    raise AssertionError("the failure was hidden")
''', "a stream whose read raises EOFError", "the failure is taken for the end of the stream and a scene is returned")

seed("c14-cached-zero", "C14", [(SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", """@functools.lru_cache(maxsize=None)
def _zero() -> Array:
    return jnp.array(0.0)


class Scene(eqx.Module, Plottable, Generic[Obj]):"""), (SC, "                acc = jnp.array(0.0)\n", "                acc = _zero()\n"), (SC, "import json\nimport operator\n", "import functools\nimport json\nimport operator\n")], '''
import jax, jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Point
s = Scene.square_scene()
one = lambda *a: jnp.array(1.0)
def f(xy):
    return s.with_transmitters(tx=Point(xy=xy)).accumulate_over_paths(one, reduce_all=True, approx=False)
jax.jit(f)(jnp.array([0.3, 0.2]))
assert float(s.accumulate_over_paths(one, reduce_all=True, approx=False)) == 5.0
''', "the first accumulation of the process happens inside the user's own jit", "later accumulations raise: they start from a value that belongs to that compilation")

seed("c06-whole-rows", "C06", [(SC, """        vf = jax.vmap(
            jax.vmap(f, in_axes=(None, 0)),
            in_axes=(None, 0),
        )

        grid = jnp.dstack((X, Y))
""", """        vall = jax.vmap(
            jax.vmap(f, in_axes=(None, 0)),
            in_axes=(None, 0),
        )

        def vf(transmitter: Point, grid: Array) -> Any:
            m = grid.shape[0]
            if m <= 32:
                return vall(transmitter, grid)
            # large maps: by blocks of rows, to limit the memory usage
            starts = [*range(0, m - 32, 32), m - 32]
            blocks = [vall(transmitter, grid[i : i + 32]) for i in starts]
            return jax.tree_util.tree_map(
                lambda *z: jnp.concatenate(z)[:m], *blocks
            )

        grid = jnp.dstack((X, Y))
""")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
X, Y = jnp.meshgrid(jnp.linspace(0.1, 0.9, 2), jnp.linspace(0.1, 0.9, 40))
s = Scene.square_scene()
fun = lambda tx, rx, path, objs: path.xys[-1, 1]
z = s.accumulate_on_receivers_grid_over_paths(X, Y, fun, max_order=0, approx=False, reduce_all=True)
assert jnp.allclose(z, Y, atol=1e-5), jnp.abs(z - Y).max(axis=1)
''', "a receiver map with more than 32 rows, not a multiple of 32", "the last rows of the map hold the values of other rows")

seed("c07-name-hash", "C07", [(SC, "        for (tx_key, transmitter), (\n            rx_key,\n            receiver,\n        ) in self.all_transmitter_receiver_pairs():\n", "        for (tx_key, transmitter), (\n            rx_key,\n            receiver,\n        ) in self.all_transmitter_receiver_pairs():\n            if key is not None and len(self.transmitters) > 1:\n                # make pairs independent from each other\n                key = jax.random.fold_in(key, hash((tx_key, rx_key)) & 0xFFFF)\n")], '''
import os, subprocess, sys
code = """
import jax
from differt2d.scene import Scene
from differt2d.geometry import MinPath, Point
import jax.numpy as jnp
s = Scene.square_scene()
s = s.update_transmitters(b=Point(xy=jnp.array([0.3, 0.6])))
print([p.xys.tolist() for *_, p, _ in s.all_paths(path_cls=MinPath, order=1, key=jax.random.PRNGKey(3), path_cls_kwargs=dict(steps=2, many=1), approx=False)])
"""
o = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": h}, capture_output=True, text=True, check=True).stdout for h in "123"}
assert len(o) == 1
''', "several transmitters, a stochastic path method, another process or hash seed", "the paths of one key differ between processes")

seed("c03-default-remembered", "C03", [("logic.py", "        finally:\n            ENABLE_APPROX = state\n", "        finally:\n            ENABLE_APPROX = state\n            _default.cache_clear()\n"),
 ("logic.py", "        ENABLE_APPROX = enable\n\n\n@contextmanager", "        ENABLE_APPROX = enable\n\n\n@lru_cache(maxsize=1)\ndef _default() -> bool:\n    return ENABLE_APPROX\n\n\n@contextmanager"),
 ("logic.py", "        try:\n            ENABLE_APPROX = enable\n", "        try:\n            ENABLE_APPROX = enable\n            _default.cache_clear()\n"),
 ("logic.py", "from functools import partial\n", "from functools import lru_cache, partial\n"),
 ("logic.py", """        approx = ENABLE_APPROX
    return jnp.greater(x, 1.0 - tol) if approx else jnp.asarray(x)""", """        approx = _default()
    return jnp.greater(x, 1.0 - tol) if approx else jnp.asarray(x)""")], '''
import jax, jax.numpy as jnp
import differt2d.logic as l
with jax.disable_jit():
    l.set_approx(False)
    assert bool(l.is_true(jnp.array(True)))
    l.set_approx(True)
    v = l.is_true(jnp.array(0.75))
    assert v.dtype == bool and bool(v), v
''', "the default is changed by set_approx after it was used once", "one of the operators keeps following the earlier default")

seed("c04-types-by-address", "C04", [(SC, """        if len(self.objects) < 2 or all(
            type(obj) is type(self.objects[0]) for obj in self.objects
        ):
""", """        same_type = _SAME_TYPE.get(id(self.objects))
        if same_type is None:
            same_type = _SAME_TYPE[id(self.objects)] = len(self.objects) < 2 or all(
                type(obj) is type(self.objects[0]) for obj in self.objects
            )
        if same_type:
"""), (SC, "class Scene(eqx.Module, Plottable, Generic[Obj]):", "_SAME_TYPE: dict[int, bool] = {}\n\n\nclass Scene(eqx.Module, Plottable, Generic[Obj]):")], '''
import jax.numpy as jnp
from differt2d.scene import Scene
from differt2d.geometry import Vertex, MinPath, Path
base = Scene.square_scene()
v = Vertex(xy=jnp.array([0.5, 0.5]))
class P(Path):
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **k):
        return cls(xys=jnp.vstack([tx.xy, *[jnp.array([0.5, 0.4]) for _ in objects], rx.xy]))
for i in range(200):
    s = base.with_objects(*base.objects[:3])
    assert len(list(s.all_paths(order=1, approx=False, path_cls=P))) == 3
    del s
    s = base.with_objects(*base.objects[:2], v)
    assert len(list(s.all_paths(order=1, approx=False, path_cls=P))) == 3
    del s
''', "a scene that takes the memory of an earlier scene with objects of other types", "its interacting objects are looked up as in the earlier scene: iteration fails")

seed("c01-gives-up-waiting", "C01", [("logic.py", """    with _LOCK:
        state = ENABLE_APPROX
        try:
            ENABLE_APPROX = enable
            yield
        finally:
            ENABLE_APPROX = state
""", """    # do not wait forever for a scope that hangs
    locked = _LOCK.acquire(timeout=10.0)
    state = ENABLE_APPROX
    try:
        ENABLE_APPROX = enable
        yield
    finally:
        ENABLE_APPROX = state
        if locked:
            _LOCK.release()
""")], '''
import threading, time
import differt2d.logic as l
l.set_approx(False)
bad = []
def other():
    with l.enable_approx(True):
        time.sleep(3)
with l.enable_approx(False):
    t = threading.Thread(target=other)
    t.start()
    time.sleep(11.5)
    if l.ENABLE_APPROX is not False:
        bad.append("another thread entered its scope meanwhile")
t.join()
assert not bad, bad
''', "a scope that stays open for longer than ten seconds while another thread waits", "the waiting thread enters its scope although the other one is still open")

seed("c08-overflow-clipped", "C08", [("optimize.py", "    i_min = jnp.nanargmin(losses)\n", "    # losses may overflow\n    losses = jnp.clip(losses, -1e30, 1e30)\n    i_min = jnp.nanargmin(losses)\n")], '''
import jax, jax.numpy as jnp
from differt2d.optimize import minimize_many_random_uniform
f = lambda x: 1e32 * (1.0 + jnp.sum((x - 0.5) ** 2))
x, l = minimize_many_random_uniform(f, jax.random.PRNGKey(0), 2, many=5, steps=2)
assert jnp.allclose(l, f(x), rtol=1e-4), (l, f(x))
''', "losses beyond 1e30", "all large losses look equal: the loss is not the one of the solution and a worse trial may be returned")
