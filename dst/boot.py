"""
Process set-up: environment, simulated locks, import of the code under test.

Nothing in /repo is changed: the seams are the lock constructors (replaced for
callers inside differt2d only) and the interpreter's monitoring events, enabled
on the code objects of differt2d only.
"""

import os
import sys

ENV = {
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "TF_CPP_MIN_LOG_LEVEL": "2",
    "JAX_TRACEBACK_FILTERING": "off",
}
PACKAGE_DIR = os.environ.get("DST_PACKAGE_DIR", "/repo/differt2d")


def set_env():
    for k, v in ENV.items():
        os.environ[k] = v
    if os.path.isdir("/opt/venv/mpl"):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mpl")
    os.environ.pop("ENABLE_APPROX", None)
    sys.dont_write_bytecode = True


CODES = []  # all code objects of the package, module bodies excluded
_booted = False


def _walk(code, out):
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            out.append(c)
            _walk(c, out)


def boot():
    """Imports the code under test behind the simulator's seams."""
    global _booted
    if _booted:
        return
    _booted = True
    set_env()
    import importlib.abc
    import importlib.machinery
    import importlib.util
    import warnings

    warnings.filterwarnings("ignore")
    # Third-party code first, so that only differt2d meets the patched seams.
    import beartype  # noqa: F401
    import differt_core.rt  # noqa: F401
    import equinox  # noqa: F401
    import jax
    import jax.numpy  # noqa: F401
    import jaxtyping  # noqa: F401
    import matplotlib.figure  # noqa: F401
    import optax  # noqa: F401

    jax.config.update("jax_platforms", "cpu")

    root = os.path.dirname(os.path.abspath(PACKAGE_DIR))
    prefix = os.path.abspath(PACKAGE_DIR) + os.sep

    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            # always from source: no stale byte code
            path = self.get_filename(fullname)
            code = self.source_to_code(self.get_data(path), path)
            _walk(code, CODES)
            return code

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, fullname, path, target=None):
            if fullname != "differt2d" and not fullname.startswith("differt2d."):
                return None
            base = os.path.join(root, *fullname.split("."))
            for f, search in (
                (os.path.join(base, "__init__.py"), [base]),
                (base + ".py", None),
            ):
                if os.path.exists(f):
                    return importlib.util.spec_from_file_location(
                        fullname,
                        f,
                        loader=Loader(fullname, f),
                        submodule_search_locations=search,
                    )
            return None

    from . import sim

    sim.patch_locks(prefix)
    sys.meta_path.insert(0, Finder())
    import differt2d
    import differt2d.abc
    import differt2d.geometry
    import differt2d.logic
    import differt2d.optimize
    import differt2d.scene
    import differt2d.utils  # noqa: F401

    assert differt2d.__file__.startswith(prefix), differt2d.__file__
    sim.instrument(CODES)
    snapshot()


# ------------------------------------------------------------- simulated restart

_SNAP = []  # (namespace, {name: value}) of every module and class of the package
_BOXES = []  # (container, its content) reachable from them
_CACHES = []  # memoised functions


def _boxes(v, seen, depth=0):
    """Remembers the mutable state reachable from a value of a module or class of the package."""
    import collections
    import types
    import weakref

    if id(v) in seen or depth > 4:
        return
    seen.add(id(v))
    if isinstance(v, (list, collections.deque)):
        _BOXES.append((v, list(v)))
    elif isinstance(v, (dict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
        _BOXES.append((v, dict(v)))
    elif isinstance(v, (set, weakref.WeakSet)):
        _BOXES.append((v, set(v)))
    elif hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
        _CACHES.append(v)
    elif isinstance(v, types.FunctionType):
        own = v.__code__.co_filename.startswith(os.path.abspath(PACKAGE_DIR) + os.sep)
        if own:
            for c in v.__closure__ or ():
                try:
                    _boxes(c.cell_contents, seen, depth + 1)
                except ValueError:
                    pass
            for d in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values()):
                _boxes(d, seen, depth + 1)
            for k, d in vars(v).items():
                if k != "__wrapped__":
                    _boxes(d, seen, depth + 1)
    if hasattr(v, "__wrapped__") and not isinstance(v, type):
        _boxes(v.__wrapped__, seen, depth + 1)
    if isinstance(v, (staticmethod, classmethod, property)):
        for f in (getattr(v, "__func__", None), getattr(v, "fget", None)):
            if f is not None:
                _boxes(f, seen, depth + 1)


def snapshot():
    """The state a fresh process starts with."""
    import types

    seen = set()
    for name in sorted(sys.modules):
        if name != "differt2d" and not name.startswith("differt2d."):
            continue
        m = sys.modules[name]
        _SNAP.append((m, dict(vars(m))))
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == name and id(v) not in seen:
                    seen.add(id(v))
                    _SNAP.append((v, dict(vars(v))))
                    for d in list(vars(v).values()):
                        _boxes(d, seen)
            else:
                _boxes(v, seen)


KEEP = ("__weakref__", "__dict__", "__doc__", "__abstractmethods__", "_abc_impl")


def restart():
    """Forgets whatever the package keeps in memory, as when a process ends and another starts."""
    for ns, old in _SNAP:
        now = dict(vars(ns))
        for k in now:
            if k not in old and not k.startswith("__"):
                delattr(ns, k)
        for k, v in old.items():
            if k not in KEEP and now.get(k, _SNAP) is not v:
                try:
                    type.__setattr__(ns, k, v) if isinstance(ns, type) else setattr(ns, k, v)
                except (AttributeError, TypeError):
                    pass
    for c, old in _BOXES:
        try:
            if isinstance(old, list):
                if len(c) != len(old) or any(a is not b for a, b in zip(c, old)):
                    c.clear()
                    c.extend(old)
            elif c != old or len(c):
                c.clear()
                c.update(old)
        except Exception:  # noqa: BLE001  (a container that cannot be compared or changed)
            pass
    for f in _CACHES:
        f.cache_clear()
