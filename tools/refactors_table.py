ref("path_length", "C13 C16 C29 C30 C31", "geometry.py", "path_length", '''
deltas = (points[1:, :] - points[:-1, :]) + jnp.finfo(points.dtype).eps
total = jnp.zeros((), dtype=points.dtype)
for delta in deltas:
    sq = delta[0] ** 2 + delta[1] ** 2
    zero = sq == 0.0
    total = total + jnp.where(zero, 0.0, jnp.sqrt(jnp.where(zero, 1.0, sq)))
return total
''')
ref("path_length_helper", "C13 C29", "geometry.py", "path_length", '''
starts, ends = points[:-1], points[1:]
return jnp.sum(_lengths(ends - starts + jnp.finfo(points.dtype).eps))
''', pre='''
def _lengths(v):
    sq = jnp.einsum("ij,ij->i", v, v)
    nonzero = sq != 0.0
    return jnp.where(nonzero, jnp.sqrt(jnp.where(nonzero, sq, 1.0)), 0.0)
''')
ref("normalize", "C09 C10 C11 C29 C31", "geometry.py", "normalize", '''
length2 = jnp.vdot(vector, vector)
length = jnp.where(length2 == 0.0, 1.0, length2) ** 0.5
return vector * (1.0 / length), length
''')
ref("segments_intersect", "C06 C07 C04 C29 C31", "geometry.py", "segments_intersect", '''
def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]

tol = jnp.asarray(tol)
d1 = P2 - P1
d2 = P4 - P3
w = P3 - P1
den = cross(d1, d2)
parallel = den == 0.0
safe = jnp.where(parallel, 1.0, den)

def inside(num):
    t = jnp.where(parallel, jnp.inf, num / safe)
    lower = greater_equal(t, -tol, approx=approx, **kwargs)
    upper = greater_equal(1.0 + tol, t, approx=approx, **kwargs)
    return logical_and(upper, lower, approx=approx)

first, second = inside(cross(w, d2)), inside(cross(w, d1))
return logical_and(second, first, approx=approx)
''')
ref("rotate", "C17", "geometry.py", "Ray.rotate", '''
if around is None:
    center = jnp.zeros(2)
else:
    center = around.xy if isinstance(around, Point) else around
c, s = jnp.cos(angle), jnp.sin(angle)
m = jnp.stack([jnp.stack([c, -s]), jnp.stack([s, c])])
return eqx.tree_at(lambda ray: ray.xys, self, m @ (self.xys - center) + center)
''')
ref("normal", "C09 C10 C11 C29", "geometry.py", "Wall.normal", '''
dx, dy = self.t()
n, _ = normalize(jnp.stack([dy, -dx]))
return n
''')
ref("cartesian_to_parametric", "C08 C15 C07", "geometry.py", "Wall.cartesian_to_parametric", '''
direction = self.t()
den = jnp.sum(direction**2)
num = jnp.sum(direction * (carte_coords - self.origin()))
return jnp.reshape(num / jnp.where(den == 0.0, 1.0, den), (1,))
''')
ref("contains_parametric", "C04 C07 C08 C15", "geometry.py", "Wall.contains_parametric", '''
(s,) = param_coords
options = dict(approx=approx, **kwargs)
return logical_all(
    less_equal(jnp.array(0.0), s, **options), greater_equal(jnp.array(1.0), s, **options), approx=approx
)
''')
ref("evaluate_wall", "C10 C11 C12 C31 C29", "geometry.py", "Wall.evaluate_cartesian", '''
before, at, after = ray_path
n = self.normal()
i = normalize(at - before)[0]
r = normalize(after - at)[0]
mirrored = i - 2.0 * n * jnp.sum(i * n)
return jnp.sum((r - mirrored) ** 2)
''')
ref("image_of", "C09 C11 C29 C30 C31", "geometry.py", "Wall.image_of", '''
n = self.normal()
distance = jnp.sum((point - self.dest()) * n)
return point - (distance + distance) * n
''')
ref("on_objects", "C04 C14 C15", "geometry.py", "Path.on_objects", '''
values = [
    obj.contains_parametric(obj.cartesian_to_parametric(xy), approx=approx, **kwargs)
    for obj, xy in zip(objects, self.xys[1:-1, :])
]
return logical_all(true_value(approx=approx), *values, approx=approx)
''')
ref("intersects_loops", "C04 C14 C15 C30 C31", "geometry.py", "Path.intersects_with_objects", '''
indices = jnp.asarray([-1, *path_candidate, -1])
n_segments = self.xys.shape[0] - 1
hit = false_value(approx=approx)
for obj_index, obj in enumerate(objects):
    for i in range(n_segments):
        own = (indices[i] == obj_index) | (indices[i + 1] == obj_index)
        value = obj.intersects_cartesian(
            jnp.stack([self.xys[i], self.xys[i + 1]]), patch=patch, approx=approx, **kwargs
        )
        value = jnp.where(own, false_value(approx=approx), value)
        hit = logical_or(value, hit, approx=approx)
return hit
''')
ref("intersects_any", "C14 C15 C30 C22", "geometry.py", "Path.intersects_with_objects", '''
ids = [-1, *list(path_candidate), -1]
values = [false_value(approx=approx)]
for (i, start), end in zip(enumerate(self.xys[:-1]), self.xys[1:]):
    ray_path = jnp.vstack([start, end])
    for obj_index, obj in enumerate(objects):
        hit = obj.intersects_cartesian(ray_path, patch=patch, approx=approx, **kwargs)
        skip = jnp.logical_or(obj_index == ids[i], obj_index == ids[i + 1])
        values.append(jnp.where(skip, false_value(approx=approx), hit))
return logical_any(*values, approx=approx)
''', imports="from .logic import logical_any")
ref("is_valid", "C04 C07 C14 C22", "geometry.py", "Path.is_valid", '''
on_objects = self.on_objects(interacting_objects, approx=approx, **kwargs)
obstructed = self.intersects_with_objects(objects, path_candidate, patch=patch, approx=approx, **kwargs)
converged = less(self.loss, jnp.asarray(tol), approx=approx, **kwargs)
valid = logical_all(converged, on_objects, logical_not(obstructed, approx=approx), approx=approx)
return jnp.nan_to_num(valid)
''')
ref("p2c_list", "C12", "geometry.py", "parametric_to_cartesian", '''
points = [tx_coords]
start = 0
for obj in objects:
    stop = start + obj.parameters_count()
    points.append(obj.parametric_to_cartesian(parametric_coords[start:stop]))
    start = stop
points.append(rx_coords)
return jnp.stack(points)
''')
ref("image_python_loops", "C11 C12 C29 C30 C31 C22", "geometry.py", "ImagePath.from_tx_objects_rx", '''
if isinstance(tx, Point):
    tx = tx.xy
if isinstance(rx, Point):
    rx = rx.xy
if len(objects) == 0:
    return cls(xys=jnp.vstack([tx, rx]), loss=jnp.array(0.0))
images = []
image = tx
for wall in objects:
    image = wall.image_of(image)
    images.append(image)
points = [rx]
for wall, image in zip(reversed(objects), reversed(images)):
    point = points[-1]
    n = wall.normal()
    u = point - image
    un = jnp.dot(u, n)
    vn = jnp.dot(wall.origin() - point, n)
    parallel = un == 0.0
    step = jnp.where(parallel, 0.0, vn * u / jnp.where(parallel, 1.0, un))
    points.append(point + step)
xys = jnp.stack([tx, *points[:0:-1], rx])
loss = sum((obj.evaluate_cartesian(xys[i : i + 3]) for i, obj in enumerate(objects)), jnp.array(0.0))
return cls(xys=xys, loss=loss)
''')
ref("fermat_sum", "C12", "geometry.py", "FermatPath.from_tx_objects_rx", '''
start = tx.xy if isinstance(tx, Point) else tx
end = rx.xy if isinstance(rx, Point) else rx
n = len(objects)
if not objects:
    return cls(xys=jnp.stack([start, end]), loss=jnp.array(0.0))
to_points = lambda theta: parametric_to_cartesian(objects, theta, n, start, end)
n_unknowns = 0
for obj in objects:
    n_unknowns += obj.parameters_count()
options = {"many": 1, **kwargs}
theta, _ = minimize_many_random_uniform(lambda t: path_length(to_points(t)), key, n_unknowns, **options)
xys = to_points(theta)
loss = jnp.array(0.0)
for obj, a, b, c in zip(objects, xys[:-2], xys[1:-1], xys[2:]):
    loss = loss + obj.evaluate_cartesian(jnp.stack([a, b, c]))
return cls(xys=xys, loss=loss)
''')
ref("minimize_fori", "C20 C12", "optimize.py", "minimize", '''
optimizer = optax.adam(learning_rate=0.1) if optimizer is None else optimizer
gradient = jax.grad(fun)

def body(_, carry):
    x, state = carry
    updates, state = optimizer.update(gradient(x, *args), state)
    return optax.apply_updates(x, updates), state

x, _ = jax.lax.fori_loop(0, steps, body, (x0, optimizer.init(x0)))
return x, fun(x, *args)
''')
ref("many_map", "C20 C12", "optimize.py", "minimize_many_random_uniform", '''
if many == 1:
    return minimize_random_uniform(fun, key, n, **kwargs)
runs = [minimize_random_uniform(fun, k, n, **kwargs) for k in jax.random.split(key, num=many)]
xs = jnp.stack([x for x, _ in runs])
losses = jnp.stack([loss for _, loss in runs])
best = jnp.argmin(losses)
return xs[best], losses[best]
''')
ref("power", "C16 C29 C30 C31", "utils.py", "received_power", '''
length = path.length()
attenuation = 1.0
for _ in range(len(path.xys) - 2):
    attenuation = attenuation * r_coef
return attenuation / (length**2 + height**2)
''')
ref("closest", "C19", "geometry.py", "closest_point", '''
deltas = points - target
distances = jnp.sqrt(jnp.sum(deltas * deltas, axis=1))
i_min = jnp.argmin(distances)
return i_min, jnp.min(distances)
''')
ref("candidates_python", "C21 C22", "scene.py", "all_path_candidates", '''
nodes = [i for i in range(num_nodes) if filter_nodes is None or i not in filter_nodes]
orders = range(min_order, max_order + 1) if order is None else range(order, order + 1)
out = []
for k in orders:
    sequences = [()]
    for _ in range(k):
        sequences = [(*s, i) for s in sequences for i in nodes if not s or s[-1] != i]
    out.extend(jnp.asarray(s, dtype=jnp.int32) for s in sequences)
return out
''')
ref("interacting", "C22 C23 C28", "scene.py", "Scene.get_interacting_objects", '''
kinds = {type(obj) for obj in self.objects}
if len(kinds) <= 1:
    return [self.get_object(index) for index in path_candidate]
return [self.objects[index] for index in path_candidate]
''')
ref("all_paths_helper", "C22 C23 C04", "scene.py", "Scene.all_paths", '''
options = dict(path_cls_kwargs or {})
candidates = self.all_path_candidates(
    min_order=min_order, max_order=max_order, order=order, filter_objects=filter_objects
)
for ((tx_key, tx), (rx_key, rx)), candidate in product(self.all_transmitter_receiver_pairs(), candidates):
    path_key = None
    if key is not None:
        key, path_key = jax.random.split(key)
    objects = self.get_interacting_objects(candidate)
    path = path_cls.from_tx_objects_rx(tx, objects, rx, key=path_key, **options)
    yield tx_key, rx_key, path.is_valid(self.objects, candidate, objects, **kwargs), path, candidate
''')
ref("all_valid", "C22 C04", "scene.py", "Scene.all_valid_paths", '''
entries = self.all_paths(approx=approx, **kwargs)
yield from (
    (tx_key, rx_key, path, candidate)
    for tx_key, rx_key, valid, path, candidate in entries
    if is_true(valid, approx=approx)
)
''')
ref("accumulate_dict", "C23 C29 C30", "scene.py", "Scene.accumulate_over_paths#2", '''
fun_kwargs = {} if fun_kwargs is None else fun_kwargs

def results():
    totals = {
        (tx, rx): jnp.array(0.0) for (tx, _), (rx, _) in self.all_transmitter_receiver_pairs()
    }
    for tx, rx, valid, path, candidate in self.all_paths(**kwargs):
        value = fun(
            self.transmitters[tx], self.receivers[rx], path, self.get_interacting_objects(candidate), *fun_args, **fun_kwargs
        )
        totals[tx, rx] = totals[tx, rx] + valid * value
    for (tx, rx), total in totals.items():
        yield tx, rx, total

if not reduce_all:
    return results()
return sum((value for _, _, value in results()), jnp.array(0.0))
''')
ref("bbox", "C18 C26", "scene.py", "Scene.bounding_box", '''
entities = [*self.transmitters.values(), *self.receivers.values(), *self.objects]
boxes = jnp.stack([entity.bounding_box() for entity in entities])
return jnp.stack([boxes[:, 0, :].min(axis=0), boxes[:, 1, :].max(axis=0)])
''')
ref("location", "C18 C26", "abc.py", "Plottable.get_location", '''
low, high = self.bounding_box()
middle = 0.5 * (low + high)
x = high[0] if "E" in location else low[0] if "W" in location else middle[0]
y = high[1] if "N" in location else low[1] if "S" in location else middle[1]
return jnp.stack([x, y])
''')
ref("grid", "C18", "abc.py", "Plottable.grid", '''
low, high = self.bounding_box()
rows = m if n is None else n
x = jnp.linspace(low[0], high[0], m)
y = jnp.linspace(low[1], high[1], rows)
return jnp.tile(x[None, :], (rows, 1)), jnp.tile(y[:, None], (1, m))
''')
ref("pytreedict", "C28 C25", "scene.py", "PyTreeDict.__getitem__", '''
for stored, value in zip(self._keys, self._values):
    if stored == key:
        return value
raise KeyError(key)
''')
ref("rename", "C25", "scene.py", "Scene.rename_receivers", '''
return self.with_receivers(
    **{receiver_names.get(name, name): point for name, point in self.receivers.items()}
)
''')
ref("filter", "C25", "scene.py", "Scene.filter_objects", '''
kept = [obj for obj in self.objects if filter_spec(obj)]
return self.with_objects(*kept)
''')
ref("get_object", "C28 C22 C23", "scene.py", "Scene.get_object", '''
stacked = stack_leaves(self.objects)
index = jnp.clip(index, 0, len(self.objects) - 1)
return jax.tree_util.tree_map(lambda leaf: leaf[index], stacked)
''')
ref("geojson", "C26", "scene.py", "Scene._", '''
walls = []
for feature in json.loads(s).get("features", []):
    geometry = feature.get("geometry", None)
    if not geometry or geometry["type"] != "Polygon" or not geometry["coordinates"]:
        continue
    ring = geometry["coordinates"][0]
    for start, end in zip([ring[-1], *ring[:-1]] if ring else [], ring):
        walls.append(Wall(xys=jnp.array([start, end], dtype=float)))
scene = Scene(objects=walls)
if walls:
    tx, rx = scene.get_location(tx_loc), scene.get_location(rx_loc)
else:
    tx, rx = jnp.array([0.0, 0.0]), jnp.array([1.0, 1.0])
return scene.with_receivers(rx=Point(xy=rx)).with_transmitters(tx=Point(xy=tx))
''')
ref("random_scene", "C27", "scene.py", "Scene.random_uniform_scene", '''
total = n_transmitters + 2 * n_walls + n_receivers
points = jax.random.uniform(key, (total, 2))
tx, walls, rx = jnp.split(points, [n_transmitters, n_transmitters + 2 * n_walls])
return Scene(
    transmitters={f"tx_{i}": Point(xy=xy) for i, xy in enumerate(tx)},
    receivers={f"rx_{i}": Point(xy=xy) for i, xy in enumerate(rx[::-1])},
    objects=[Wall(xys=xys) for xys in walls.reshape(n_walls, 2, 2)],
)
''')
ref("obstacle", "C27", "scene.py", "Scene.square_scene_with_obstacle", '''
scene = Scene.square_scene(**kwargs)
lo, hi = 0.5 - 0.5 * ratio, 0.5 + 0.5 * ratio
corners = [[lo, lo], [hi, lo], [hi, hi], [lo, hi]]
walls = [Wall(xys=jnp.array([a, b])) for a, b in zip(corners, corners[1:] + corners[:1])]
return scene.add_objects(*walls)
''')
ref("enable_approx", "C05 C04", "logic.py", "enable_approx", '''
global ENABLE_APPROX
_LOCK.acquire()
try:
    previous = ENABLE_APPROX
    ENABLE_APPROX = enable
    try:
        yield
    finally:
        ENABLE_APPROX = previous
finally:
    _LOCK.release()
''')
ref("less", "C02 C04 C07", "logic.py", "less", '''
return greater(y, x, approx=approx, **kwargs)
''')
ref("greater_if", "C02 C04 C06 C07", "logic.py", "greater_equal", '''
if approx is None:
    approx = ENABLE_APPROX
if not approx:
    return jnp.less_equal(y, x)
difference = x - y
return activation(difference, **kwargs)
''')
ref("sigmoid", "C01 C02", "logic.py", "sigmoid", '''
return 0.5 * (1.0 + jnp.tanh(0.5 * alpha * x))
''')
ref("hard_sigmoid", "C01 C02 C29", "logic.py", "hard_sigmoid", '''
return jnp.clip(alpha * x / 6.0 + 0.5, 0.0, 1.0)
''')
ref("logical_all", "C03 C14 C15", "logic.py", "logical_all", '''
approx = ENABLE_APPROX if approx is None else approx
stacked = jnp.stack(jnp.broadcast_arrays(*x)) if isinstance(x, tuple) and len(x) else jnp.asarray(x)
reduce = jnp.min if approx else jnp.all
return reduce(stacked, axis=axis)
''')
ref("is_true", "C03 C22", "logic.py", "is_true", '''
if approx is None:
    approx = ENABLE_APPROX
return jnp.less(1.0 - tol, x) if approx else jnp.asarray(x)
''')
many("grid_tx_helper", "C24 C29", [("scene.py", None, ("                acc = acc + valid * fun(\n                    transmitter_cls(xy=tx_coords),", "                end_point = transmitter_cls(xy=tx_coords)\n                acc += valid * fun(\n                    end_point,"))])
many("grid_dstack", "C24", [("scene.py", None, ("grid = jnp.dstack((X, Y))", "grid = jnp.stack([X, Y], axis=-1)"))])
