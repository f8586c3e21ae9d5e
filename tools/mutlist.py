# C02/C03: the choice is dropped somewhere
m("C02+C03", "geometry.py", "            greater_equal(t, -tol, approx=approx, **kwargs),", "            greater_equal(t, -tol, **kwargs) if approx is not None else greater_equal(t, -tol, approx=False, **kwargs),")
m("C02", "geometry.py", "        return false_value(approx=approx)", "        return false_value()")
m("C02", "geometry.py", "        contains = true_value(approx=approx)", "        contains = true_value()")
m("C02", "geometry.py", "                    approx=approx,\n                    **kwargs,\n                ),\n                approx=approx,\n            )\n\n        return contains", "                    approx=approx,\n                    **kwargs,\n                ),\n            )\n\n        return contains")
m("C02", "geometry.py", "less(self.loss, jnp.asarray(tol), approx=approx, **kwargs)", "less(self.loss, jnp.asarray(tol), **kwargs)")
m("C02", "scene.py", "            if is_true(valid, approx=approx):", "            if is_true(valid):")
m("C02", "geometry.py", "        intersects = false_value(approx=approx)", "        intersects = false_value()")
m("C03", "logic.py", "    if approx is None:\n        approx = ENABLE_APPROX\n    return jnp.minimum", "    if approx is None:\n        approx = False\n    return jnp.minimum")
m("C03", "scene.py", "        approx: Optional[bool] = None,\n        **kwargs: Any,\n    ) -> Iterator[tuple[str, str, Path", "        approx: Optional[bool] = False,\n        **kwargs: Any,\n    ) -> Iterator[tuple[str, str, Path")
m("C03", "geometry.py", "        intersects = false_value(approx=approx)", "        intersects = false_value(approx=False)")
m("C03", "geometry.py", "        return true_value(approx=approx)", "        return true_value(approx=False)")

# C04
m("C04", "scene.py", "        path_candidates = self.all_path_candidates(\n            min_order=min_order,\n            max_order=max_order,\n            order=order,\n            filter_objects=filter_objects,\n        )\n\n        for (tx_key", "        path_candidates = iter(self.all_path_candidates(\n            min_order=min_order,\n            max_order=max_order,\n            order=order,\n            filter_objects=filter_objects,\n        ))\n\n        for (tx_key")
m("C04", "scene.py", "        return product(self.transmitters.items(), self.receivers.items())", "        return zip(self.transmitters.items(), self.receivers.items())")
m("C04", "scene.py", "        return [self.objects[i] for i in path_candidate]", "        return [self.objects[i] for i in sorted(path_candidate)]")
m("C04", "scene.py", "        if len(self.objects) < 2 or all(", "        if len(self.objects) < 2 or any(")
m("C04", "geometry.py", "        interacting_object_indices = [-1, *list(path_candidate), -1]", "        interacting_object_indices = [-1, *list(path_candidate)[:1], *list(path_candidate)[:-1], -1] if len(path_candidate) > 2 else [-1, *list(path_candidate), -1]")
m("C04", "scene.py", "            if is_true(valid, approx=approx):", "            if is_true(valid, approx=approx) and len(path_candidate) < 3:")
m("C04+C14", "scene.py", "        if filter_objects is None:\n            filter_nodes = None", "        if filter_objects is None or num_nodes > 3:\n            filter_nodes = None")

# C05
m("C05", "scene.py", "                no_path = False\n                acc = jnp.array(0.0)", "                acc = jnp.array(0.0) if no_path else acc * 0.0 + (acc if acc < 0 else 0.0)\n                no_path = False")
m("C05", "scene.py", "                    acc = acc + valid * fun(", "                    acc = acc + (valid if len(path_candidate) < 2 else valid * 1.02) * fun(")
m("C05", "scene.py", "operator.itemgetter(slice(2)),", "operator.itemgetter(1),")
m("C05", "scene.py", "                receiver = self.receivers[rx_key]\n\n                for _", "                receiver = self.receivers.get(rx_key) if rx_key not in self.transmitters else self.transmitters[rx_key]\n\n                for _")
m("C05", "scene.py", "            for _, _, p in results():\n                Z = Z + p", "            for _, _, p in results():\n                Z = Z + jnp.maximum(p, -1e6) if p != 0 else Z + 0.001")

# C07
m("C07", "scene.py", "                    key, key_path = jax.random.split(key, 2)", "                    _, key_path = jax.random.split(key, 2)")
m("C07", "scene.py", "                    key, key_path = jax.random.split(key, 2)", "                    key_path, key_next = jax.random.split(key, 2)\n                    key = key_next if len(path_candidate) != 1 else key")
m("C07", "scene.py", "keys = list(jax.random.split(key, len(path_candidates)))", "keys = [key] * len(path_candidates)")
m("C07", "scene.py", "keys = list(jax.random.split(key, len(path_candidates)))", "keys = [key] * len(path_candidates)", 2)
m("C07", "scene.py", "keys = list(jax.random.split(key, len(path_candidates)))", "keys = (list(jax.random.split(key, 2)) * len(path_candidates))[:len(path_candidates)]")
m("C07", "scene.py", "        points = jax.random.uniform(\n            key,", "        points = jax.random.uniform(\n            jax.random.fold_in(key, hash(str(n_walls)) % 1000),")
m("C07", "scene.py", "points[2 * i + n_transmitters : 2 * i + 2 + n_transmitters, :]", "points[2 * i + n_transmitters - (i == 2): 2 * i + 2 + n_transmitters - (i == 2), :]")
m("C07", "optimize.py", "    keys = jax.random.split(key, num=many)", "    keys = jnp.concatenate([jax.random.split(key, num=many)[:1], jax.random.split(key, num=many)[:-1]])")
m("C07", "optimize.py", "    x0 = jax.random.uniform(key, shape=(n,))", "    import random\n    x0 = jax.random.uniform(jax.random.fold_in(key, random.getrandbits(1)), shape=(n,))")
m("C07", "optimize.py", "    x0 = jax.random.uniform(key, shape=(n,))", "    x0 = jax.random.uniform(jax.random.fold_in(key, id(fun) // 64 % 7), shape=(n,))")
m("C07", "abc.py", "            jax.random.uniform(key=key, shape=(self.parameters_count(),)),", "            jax.random.uniform(key=jax.random.PRNGKey(0), shape=(self.parameters_count(),)),")

# C06
m("C06", "scene.py", "            return ((rx_key, vf(grid, receiver)) for _, (rx_key, receiver) in pairs)", "            return ((rx_key, vf(grid, receiver)) for _, (rx_key, receiver) in list(pairs)[:1] * 1 + list(pairs)[1:])")
m("C06", "scene.py", "                (tx_key, vf(transmitter, grid)) for (tx_key, transmitter), _ in pairs", "                (tx_key, vf(grid, transmitter)) for (tx_key, transmitter), _ in pairs")
m("C06", "scene.py", "            for path_candidate, key in zip(path_candidates, keys):", "            for path_candidate, key in zip(path_candidates[: 5], keys):")
m("C06", "scene.py", "            for path_candidate, key in zip(path_candidates, keys):", "            for path_candidate, key in zip(path_candidates[: 5], keys):", 2)

# C09
m("C09", "scene.py", "        dictionary = json.loads(s)", "        dictionary = json.loads(s[:65536] if isinstance(s, bytes) and len(s) > 65536 else s)")
m("C09", "scene.py", "        return cls.from_geojson(fp.read(), *args, **kwargs)", "        r = cls.from_geojson(fp.read(), *args, **kwargs)\n        if hasattr(fp, 'close'):\n            fp.close()\n        return r")
m("C09", "scene.py", "        return cls.from_geojson(fp.read(), *args, **kwargs)", "        try:\n            d = fp.read()\n        except OSError:\n            d = '{}'\n        return cls.from_geojson(d, *args, **kwargs)")
m("C09", "scene.py", "        return cls.from_geojson(fp.read(), *args, **kwargs)", "        return cls.from_geojson(fp.read(), *args)")
m("C09", "scene.py", "        dictionary = json.loads(s)", "        try:\n            dictionary = json.loads(s)\n        except ValueError:\n            dictionary = json.JSONDecoder().raw_decode(s if isinstance(s, str) else bytes(s).decode())[0]")
m("C09", "scene.py", "                            [coordinates[i - 1], coordinates[i]],", "                            [coordinates[i - 1] if i else coordinates[0], coordinates[i]],")
m("C09", "scene.py", "                    coordinates = geometry[\"coordinates\"][0]", "                    coordinates = geometry[\"coordinates\"][-1]")

# C10
m("C10", "scene.py", "            PyTreeDict.from_mapping({**self.transmitters, **transmitters}),", "            PyTreeDict.from_mapping({**transmitters, **self.transmitters}),")
m("C10", "scene.py", "            PyTreeDict.from_mapping({**self.receivers, **receivers}),", "            PyTreeDict.from_mapping({k: receivers.get(k, v) for k, v in {**receivers, **self.receivers}.items()}),")
m("C10", "scene.py", "        return self.with_objects(*self.objects, *objects)", "        return self.with_objects(*objects, *self.objects) if len(self.objects) > 2 else self.with_objects(*self.objects, *objects)")
m("C10", "scene.py", "    _keys: tuple[K, ...] = eqx.field(converter=tuple, static=True)", "    _keys: tuple[K, ...] = eqx.field(static=True)")
m("C10", "scene.py", "            index = self._keys.index(key)\n            return self._values[index]", "            index = [k.lower() for k in self._keys].index(key.lower())\n            return self._values[index]")
m("C10", "scene.py", "            tuple(filter(filter_spec, self.objects)),", "            tuple(o for i, o in enumerate(self.objects) if filter_spec(o) and i not in [j for j in range(i) if self.objects[j] is None]),")

# C08
m("C08", "optimize.py", "    i_min = jnp.nanargmin(losses)", "    i_min = jnp.argmin(losses)")
m("C08", "optimize.py", "    i_min = jnp.nanargmin(losses)", "    i_min = jnp.nanargmin(jnp.abs(losses))")
m("C08", "optimize.py", "    i_min = jnp.nanargmin(losses)", "    i_min = jnp.argmin(jnp.where(jnp.isfinite(losses), losses, losses.mean()))")
m("C08", "optimize.py", "    i_min = jnp.nanargmin(losses)", "    i_min = jnp.nanargmin(losses[:8])")
m("C08", "optimize.py", "    i_min = jnp.nanargmin(losses)", "    i_min = jnp.argmin(jnp.nan_to_num(losses))")
m("C08", "optimize.py", "    return xs[i_min, :], losses[i_min]", "    return jnp.nan_to_num(xs[i_min, :]) + 0.0 * (losses[i_min] > 0), jnp.nanmin(losses) if many < 10 else losses[i_min - 1]")
m("C08", "optimize.py", "    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)\n    return x, fun(x, *args)", "    (x, _), xs = jax.lax.scan(lambda c, _: (f(c, _)[0], c[0]), init=(x0, opt_state), xs=None, length=steps)\n    return x, fun(xs[-1], *args)")
m("C08", "optimize.py", "        x = x + updates", "        x = jnp.where(jnp.isnan(updates), x0, x + updates)")
m("C08", "optimize.py", "        x = x + updates", "        x = jnp.where(jnp.isnan(updates), jnp.nan, x + updates) if steps < 7 else x + 0.5 * updates")
m("C08", "optimize.py", "    df = jax.grad(fun)", "    dg = jax.grad(fun)\n    df = lambda x, *a: jnp.clip(dg(x, *a), -3.0, 3.0)")

# C14 / C12 / C11
m("C14", "scene.py", "        num_nodes = len(self.objects)\n\n        if filter_objects is None:", "        num_nodes = len(self.objects)\n        if filter_objects is not None:\n            cache = globals().setdefault('_C', {})\n            k = (num_nodes, filter_objects)\n            if k not in cache:\n                cache[k] = tuple(i for i, o in enumerate(self.objects) if not filter_objects(o))\n            return all_path_candidates(num_nodes, min_order=min_order, max_order=max_order, order=order, filter_nodes=cache[k])\n\n        if filter_objects is None:")
m("C14", "scene.py", "        num_nodes = len(self.objects)\n\n        if filter_objects is None:", "        num_nodes = len(self.objects)\n        cache = globals().setdefault('_C', {})\n        k = (num_nodes, min_order, max_order, order is None)\n        if filter_objects is None:\n            if k not in cache:\n                cache[k] = all_path_candidates(num_nodes, min_order=min_order, max_order=max_order, order=order, filter_nodes=None)\n            return cache[k]\n\n        if filter_objects is None:")
m("C14", "scene.py", "        vf = jax.vmap(\n            jax.vmap(f, in_axes=(0, None)),\n            in_axes=(0, None),\n        )\n\n        grid = jnp.dstack((X, Y))\n\n        def results() -> Iterator[tuple[str, Union[Array, tuple[Array, Array]]]]:\n            return ((rx_key", "        vf = jax.vmap(\n            jax.vmap(f, in_axes=(0, None)),\n            in_axes=(0, None),\n        )\n        vf = globals().setdefault('_VF', {}).setdefault((fun, X.shape, grad, value_and_grad, len(self.objects)), vf)\n\n        grid = jnp.dstack((X, Y))\n\n        def results() -> Iterator[tuple[str, Union[Array, tuple[Array, Array]]]]:\n            return ((rx_key")
m("C14", "scene.py", "        return [self.objects[i] for i in path_candidate]", "        c = globals().setdefault('_IO', {})\n        k = (id(self), tuple(int(i) for i in path_candidate))\n        if k not in c:\n            c[k] = [self.objects[i] for i in path_candidate]\n        return c[k]")
m("C14", "geometry.py", "    @partial(jax.jit, inline=True)\n    def length(self)", "    @partial(jax.jit, inline=True, static_argnums=0)\n    def length(self)")
m("C12", "scene.py", "            for path_candidate in path_candidates:\n                interacting_objects = self.get_interacting_objects(path_candidate)\n\n                if key", "            for path_candidate in path_candidates:\n                buf = globals().setdefault('_BUF', [])\n                buf.clear()\n                for o in self.get_interacting_objects(path_candidate):\n                    buf.append(o)\n                interacting_objects = buf\n\n                if key")
m("C12", "geometry.py", "        intersects = false_value(approx=approx)", "        global _I\n        _I = interacting_object_indices\n        intersects = false_value(approx=approx)\n        interacting_object_indices = _I")
m("C12", "scene.py", "                    acc = acc + valid * fun(", "                    globals()['_ACC'] = acc\n                    acc = globals()['_ACC'] + valid * fun(")
m("C11", "scene.py", "                    acc = acc + valid * fun(", "                    self.__dict__['_busy'] = True\n                    acc = acc + valid * fun(")
m("C11", "scene.py", "        for tx_key, rx_key, valid, path, path_candidate in self.all_paths(\n            approx=approx,", "        from . import logic\n        old = logic.ENABLE_APPROX\n        logic.set_approx(bool(approx))\n        for tx_key, rx_key, valid, path, path_candidate in self.all_paths(\n            approx=approx,")
m("C11+C12", "scene.py", "            filter_nodes = ()\n            for i, obj in enumerate(self.objects):\n                if not filter_objects(obj):\n                    filter_nodes = (*filter_nodes, i)", "            b = globals().setdefault('_FN', [])\n            for i, obj in enumerate(self.objects):\n                if not filter_objects(obj):\n                    b.append(i)\n            filter_nodes = tuple(b)\n            b.clear()")
m("C11", "scene.py", "        if fun_kwargs is None:\n            fun_kwargs = {}", "        if fun_kwargs is None:\n            fun_kwargs = {}\n        fun_kwargs.setdefault('_x', 1)\n        fun_kwargs.pop('_x')\n        if 'b' in fun_kwargs:\n            v = fun_kwargs.pop('b')\n            self.bounding_box() if self.objects else None\n            fun_kwargs['b'] = v")

# C01: waiting with a time-out
m("C01", "logic.py", "    with _LOCK:\n        ENABLE_APPROX = enable\n", "    ok = _LOCK.acquire(timeout=5)\n    ENABLE_APPROX = enable\n    if ok:\n        _LOCK.release()\n")
m("C01", "logic.py", "    with _LOCK:\n        ENABLE_APPROX = enable\n", "    if not _LOCK.acquire(timeout=5):\n        return\n    ENABLE_APPROX = enable\n    _LOCK.release()\n")
m("C01", "logic.py", "    with _LOCK:\n        ENABLE_APPROX = enable\n", "    while not _LOCK.acquire(timeout=5):\n        pass\n    try:\n        ENABLE_APPROX = enable\n    finally:\n        _LOCK.release()\n")

# values made while the user's code is being traced, kept for later calls
m("C14+C11+C12", "scene.py", "            no_path = True\n\n            for (tx_key", "            if '_ZERO' not in globals():\n                globals()['_ZERO'] = jnp.array(0.0)\n            no_path = True\n\n            for (tx_key")
M[-1] = (M[-1][0], "scene.py", "                acc = jnp.array(0.0)\n                transmitter = ", "                acc = globals().setdefault('_ZERO', None)\n                if acc is None:\n                    acc = globals()['_ZERO'] = jnp.array(0.0)\n                transmitter = ", 1)
