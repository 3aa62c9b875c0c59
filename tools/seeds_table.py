seed("c01-saturated-slope", "C01", [("logic.py", "    return jax.nn.sigmoid(alpha * x)", "    return jax.nn.sigmoid(jnp.minimum(alpha, 1e3) * x)")],
 "a slope above 1000 and an input of the order of 1/slope", "the smooth activation no longer uses slopes above 1000",
 '''
ck(close(L.sigmoid(jnp.array(1e-4), jnp.array(2e4)), 1/(1+np.exp(-2.0))), "sigmoid slope")
''')
seed("c02-clipped-difference", "C02", [("logic.py", "    return activation(jnp.subtract(x, y), **kwargs) if approx else jnp.greater(x, y)", "    return (\n        activation(jnp.clip(jnp.subtract(x, y), -1e3, 1e3), **kwargs)\n        if approx\n        else jnp.greater(x, y)\n    )")],
 "approximation, a slope below 6e-3 and operands more than 1000 apart", "greater is no longer the activation of the difference, and greater(y, x) differs from less(x, y)",
 '''
a = L.greater(jnp.array(5e3), jnp.array(0.), approx=True, alpha=1e-4)
b = L.less(jnp.array(0.), jnp.array(5e3), approx=True, alpha=1e-4)
ck(close(a, b) and close(a, L.activation(jnp.array(5e3), alpha=1e-4)), a, b)
''')
seed("c03-capped-tolerance", "C03", [("logic.py", "    return jnp.less(x, tol) if approx else jnp.logical_not(x)", "    return jnp.less(x, jnp.minimum(tol, 0.5)) if approx else jnp.logical_not(x)")],
 "approximation and a tolerance above 1/2", "is_false(x, tol) is not x < tol",
 '''
ck(bool(L.is_false(jnp.array(0.6), tol=0.8, approx=True)))
''')
seed("c04-contains-upper-bound-options", "C04", [("geometry.py", "            jnp.array(1.0),\n            approx=approx,\n            **kwargs,\n        )\n        return logical_and(ge", "            jnp.array(1.0),\n            approx=approx,\n        )\n        return logical_and(ge")],
 "approximation with a non-default slope or activation, and a parameter near the upper bound", "the upper bound test of Wall.contains_parametric ignores the given slope and activation function",
 '''
v = W(0, 0, 1, 0).contains_parametric(jnp.array([1.01]), approx=True, alpha=10.0)
ck(close(v, L.hard_sigmoid(jnp.array(-0.01), jnp.array(10.0))), v)
''')
seed("c05-restore-on-exception-only", "C05", [("logic.py", "        try:\n            ENABLE_APPROX = enable\n            yield\n        finally:\n            ENABLE_APPROX = state\n", "        ENABLE_APPROX = enable\n        try:\n            yield\n        except Exception:\n            ENABLE_APPROX = state\n            raise\n        ENABLE_APPROX = state\n")],
 "the scope is left by an exception that is not an Exception (KeyboardInterrupt, SystemExit, GeneratorExit)", "the previous mode is not restored",
 '''
for exc in (KeyboardInterrupt, SystemExit, GeneratorExit):
    L.set_approx(False)
    try:
        with L.enable_approx(True):
            raise exc()
    except BaseException:
        pass
    ck(L.ENABLE_APPROX is False, exc)
''')
seed("c06-open-upper-end", "C06", [("geometry.py", "            less_equal(t, 1.0 + tol, approx=approx, **kwargs),", "            less(t, 1.0 + tol, approx=approx, **kwargs),")],
 "no approximation, and segments meeting exactly at the widened destination end (for instance end to end with tol=0)", "the interval of accepted parameters is open on the right: touching ends no longer intersect and swapping end points changes the answer",
 '''
p = lambda *a: jnp.array(a, dtype=float)
a = g.segments_intersect(p(0, 0), p(1, 0), p(1, -1), p(1, 1), tol=0.0, approx=False)
b = g.segments_intersect(p(1, 0), p(0, 0), p(1, -1), p(1, 1), tol=0.0, approx=False)
ck(bool(a) and bool(b), a, b)
''')
seed("c06-negative-tolerance", "C06", [("geometry.py", "    tol = jnp.asarray(tol)\n    A = P2 - P1", "    tol = jnp.abs(jnp.asarray(tol))\n    A = P2 - P1")],
 "a negative tolerance (a shrunk segment)", "the parameters are accepted in [-|tol|, 1+|tol|]",
 '''
p = lambda *a: jnp.array(a, dtype=float)
ck(not bool(g.segments_intersect(p(0, 0), p(1, 0), p(0.05, -1), p(0.05, 1), tol=-0.1, approx=False)))
ck(bool(g.segments_intersect(p(0, 0), p(1, 0), p(0.5, -1), p(0.5, 1), tol=-0.1, approx=False)))
''')
seed("c07-patch-dropped-when-approx", "C07", [("geometry.py", "            self.dest() + patch * self.t(),", "            self.dest() + (0.0 if approx else patch) * self.t(),")],
 "approximation, a patch clearly wider than the tolerance, and a ray crossing the patched zone beyond the wall's destination", "the approximate obstruction does not see the patch at the far end: exact says obstructed, approximate says 0",
 '''
w = W(0, 0, 1, 0); r = jnp.array([[1.1, -1.0], [1.1, 1.0]])
e = w.intersects_cartesian(r, patch=0.5, approx=False); a = w.intersects_cartesian(r, patch=0.5, approx=True)
ck(bool(e) and float(a) > 0.5, e, a)
''')
seed("c08-short-wall-guard", "C08", [("geometry.py", "        squared_length = jnp.where(squared_length == 0.0, 1.0, squared_length)\n        return jnp.dot(self.t(), other)", "        squared_length = jnp.where(squared_length < 1e-6, 1.0, squared_length)\n        return jnp.dot(self.t(), other)")],
 "a wall shorter than 1e-3", "points of short walls do not round-trip through their parameter",
 '''
w = W(0, 0, 5e-4, 0)
s = w.cartesian_to_parametric(w.parametric_to_cartesian(jnp.array([1.0])))
ck(close(s, 1.0), s)
''')
seed("c09-normal-floor", "C09", [("geometry.py", "        n, _ = normalize(n)\n        return n", "        return n / jnp.maximum(normalize(n)[1], 1e-3)")],
 "a wall shorter than 1e-3", "the normal of a short wall is not a unit vector, so mirror images are wrong",
 '''
w = W(0, 0, 5e-4, 0)
ck(close(jnp.linalg.norm(w.normal()), 1.0), w.normal())
ck(close(w.image_of(jnp.array([0.2, 0.3])), [0.2, -0.3]))
''')
seed("c10-ris-side", "C10", [("geometry.py", "        return (sin_a - sin_p) ** 2 + (cos_a - cos_p) ** 2", "        return (sin_a - sin_p) ** 2 + (jnp.abs(cos_a) - cos_p) ** 2")],
 "a RIS whose outgoing leg leaves on the side opposite to its normal", "the residual vanishes for the angle pi - phi as well",
 '''
r = g.RIS(xys=jnp.array([[0., 0.], [0., 1.]]), phi=jnp.array(0.3))
n = np.asarray(r.normal()); v = []
for sgn in (1, -1):
    a = 0.3 if sgn > 0 else np.pi - 0.3
    # outgoing unit vector u with cross(-u, n) = sin a and dot(-u, n) = cos a
    m = np.array([np.cos(a) * n[0] + np.sin(a) * n[1], np.cos(a) * n[1] - np.sin(a) * n[0]])
    path = jnp.array([[1., 1.], [0., .5], [0. - m[0], .5 - m[1]]])
    v.append(float(r.evaluate_cartesian(path)))
ck(v[0] < 1e-6 and close(v[1], (2 * np.cos(0.3)) ** 2, 1e-3), v)
''')
seed("c11-clipped-step", "C11", [("geometry.py", "            point = point + inc\n", "            point = point + jnp.clip(inc, -1e3, 1e3)\n")],
 "a reflection more than 1000 units away from the next point", "interaction points of large scenes are not on the wall's line",
 '''
p = g.ImagePath.from_tx_objects_rx(P(0, 0), [W(-9e3, 5e3, 9e3, 5e3)], P(4e3, 0))
ck(close(p.xys[1], [2e3, 5e3], 1e-2), p.xys)
''')
seed("c12-parameter-offset", "C12", [("geometry.py", "        j += size\n", "        j += 1\n")],
 "an optimisation-based path over a vertex followed by at least two walls", "each wall after a vertex reads the parameter of the next one",
 '''
objs = [g.Vertex(xy=jnp.array([.3, .1])), W(0, 0, 1, 0), W(0, 1, 1, 1)]
c = g.parametric_to_cartesian(objs, jnp.array([0.25, 0.75]), 3, jnp.zeros(2), jnp.ones(2))
ck(close(c[2], [.25, 0]) and close(c[3], [.75, 1]), c)
''')
seed("c12-loss-of-first-objects", "C12", [("geometry.py", "            cartesian_coords: Float[Array, \"path_length 2\"],\n        ) -> Float[Array, \" \"]:\n            _loss = jnp.array(0.0)\n            for i, obj in enumerate(objects):", "            cartesian_coords: Float[Array, \"path_length 2\"],\n        ) -> Float[Array, \" \"]:\n            _loss = jnp.array(0.0)\n            for i, obj in enumerate(objects[:2]):")],
 "an image path of order three or more whose third or later reflection is not specular", "the reported loss leaves out the residuals of the third and later objects",
 '''
objs = [W(0, 1, 1, 1), W(0, 0, 1, 0), W(-.3, 2.1, 1.7, 1.4)]
p = g.ImagePath.from_tx_objects_rx(P(.1, .4), objs, P(.8, 3.0))
s = sum(float(o.evaluate_cartesian(p.xys[i:i+3])) for i, o in enumerate(objs))
ck(s > 1e-3 and close(p.loss, s, 1e-3), p.loss, s)
''')
seed("c13-flushed-components", "C13", [("geometry.py", "    vectors = jnp.diff(points, axis=0)\n", "    vectors = jnp.diff(points, axis=0)\n    vectors = jnp.where(jnp.abs(vectors) < 1e-3, 0.0, vectors)\n")],
 "a path with segments shorter than 1e-3 along an axis", "the length of finely sampled paths is too small (below the distance between its ends)",
 '''
pts = jnp.stack([jnp.linspace(0, 1, 2001), jnp.zeros(2001)], axis=1)
ck(close(g.path_length(pts), 1.0, 1e-2), g.path_length(pts))
''')
seed("c14-nan-validity", "C14", [("geometry.py", "        return jnp.nan_to_num(\n            logical_all(", "        return jnp.asarray(\n            logical_all(")],
 "approximation and a path with a NaN loss or NaN points", "the validity of a path that is not a number is NaN instead of zero",
 '''
p = g.Path(xys=jnp.array([[0., 0.], [1., 1.]]), loss=jnp.array(jnp.nan))
v = p.is_valid([W(5, 5, 6, 6)], jnp.array([], dtype=int), [], approx=True)
ck(float(v) == 0.0, v)
''')
seed("c15-first-segments", "C15", [("geometry.py", "        for i in range(self.xys.shape[0] - 1):\n", "        for i in range(min(self.xys.shape[0] - 1, 3)):\n")],
 "a path of order three or more obstructed on its fourth or a later segment", "segments after the third are never obstructed",
 '''
xy = jnp.array([[0., 0.], [1., 1.], [2., 0.], [3., 1.], [4., 0.]])
objs = [W(.5, 1, 1.5, 1), W(1.5, 0, 2.5, 0), W(2.5, 1, 3.5, 1), W(3.5, -1, 3.5, 2)]
v = g.Path(xys=xy).intersects_with_objects(objs, jnp.array([0, 1, 2]), approx=False)
ck(bool(v), v)
''')
seed("c16-order-cap", "C16", [("utils.py", "    n = path.xys.shape[0] - 2  # Number of interactions\n", "    n = min(path.xys.shape[0] - 2, 4)  # Number of interactions\n")],
 "a path with more than four interactions", "further interactions do not attenuate the power",
 '''
xy = jnp.stack([jnp.linspace(0, 1, 8), jnp.zeros(8)], axis=1)
v = U.received_power(P(0, 0), P(1, 0), g.Path(xys=xy), [])
ck(close(v, .5**6 / (1 + .01)), v)
''')
seed("c17-rebuilt-object", "C17", [("geometry.py", "        return eqx.tree_at(lambda ray: ray.xys, self, xys)", "        return type(self)(xys=xys)")],
 "rotating a RIS whose angle is not the default one", "the other fields (phi) are reset to their defaults",
 '''
r = g.RIS(xys=jnp.array([[0., 0.], [0., 1.]]), phi=jnp.array(0.3)).rotate(jnp.array(0.5))
ck(close(r.phi, 0.3), r.phi)
''')
seed("c18-box-from-origin", "C18", [("scene.py", "                jnp.max(bounding_boxes[1, :, :], axis=1),", "                jnp.max(bounding_boxes[1, :, :], axis=1, initial=0.0),")],
 "a scene entirely at negative coordinates along an axis", "the bounding box always reaches up to 0",
 '''
s = S.Scene(transmitters={"a": P(-3, -2)}, receivers={"b": P(-1, -5)}, objects=[W(-4, -4, -2, -3)])
ck(close(s.bounding_box(), [[-4, -5], [-1, -2]]), s.bounding_box())
''')
seed("c19-taxicab", "C19", [("geometry.py", "    i_min = jnp.argmin(distances)\n", "    i_min = jnp.argmin(jnp.sum(jnp.abs(points - target.reshape(-1, 2)), axis=1))\n")],
 "two entities whose order by Euclidean distance differs from their order by taxicab distance", "the returned entity is not the closest one",
 '''
s = S.Scene(transmitters={"a": P(.6, .6), "b": P(0, 1.)})
ck(s.get_closest_transmitter(jnp.zeros(2))[0] == "a")
''')
seed("c20-two-runs", "C20", [("optimize.py", "    if many == 1:\n", "    if many <= 2:\n")],
 "many=2 and a key for which the second run is better", "the better of two runs is not returned, nor the per-run keys used",
 '''
f = lambda x: jnp.sum((x - .5) ** 2 * (1 + x))
for k in range(3):
    key = jax.random.PRNGKey(k)
    x, l = O.minimize_many_random_uniform(f, key, 2, many=2, steps=0)
    ls = [O.minimize_random_uniform(f, kk, 2, steps=0)[1] for kk in jax.random.split(key, 2)]
    ck(close(l, min(map(float, ls))), l, ls)
''')
seed("c21-order-capped", "C21", [("scene.py", "        for order in range(min_order, max_order + 1)\n", "        for order in range(min_order, min(max_order, num_nodes) + 1)\n")],
 "an order larger than the number of objects", "sequences that revisit objects (0, 1, 0) are missing",
 '''
c = [tuple(map(int, x)) for x in S.all_path_candidates(2, order=3)]
ck(sorted(c) == [(0, 1, 0), (1, 0, 1)], c)
''')
seed("c22-subclass-switch", "C22", [("scene.py", "            type(obj) is type(self.objects[0]) for obj in self.objects\n", "            isinstance(obj, type(self.objects[0])) for obj in self.objects\n")],
 "a scene whose first object is a wall followed by a RIS, and paths of order one", "enumeration fails: the objects of a mixed scene cannot be switched over",
 '''
s = S.Scene.square_scene().add_objects(g.RIS(xys=jnp.array([[.4, .1], [.4, .3]]), phi=jnp.array(.2)))
try:
    l = list(s.all_paths(order=1, path_cls=g.MinPath, key=jax.random.PRNGKey(0), path_cls_kwargs=dict(steps=2)))
except Exception as e:
    ck(False, type(e))
ck(len(l) == 5)
''')
seed("c22-valid-mode", "C22", [("scene.py", "            if is_true(valid, approx=approx):", "            if valid:")],
 "an explicit mode that differs from the global one", "with approx=True every path of non-zero truth value is yielded",
 '''
L.set_approx(False)
s = S.Scene(transmitters={"t": P(0, 0)}, receivers={"r": P(1, 0)}, objects=[W(.5, .02, .5, 1.0)])
allp = [float(v) for _, _, v, _, _ in s.all_paths(approx=True, order=0, patch=0.0, alpha=10.0)]
n = len(list(s.all_valid_paths(approx=True, order=0, patch=0.0, alpha=10.0)))
ck(n == sum(v > .5 for v in allp), n, allp)
s = S.Scene(transmitters={"t": P(0, 0)}, receivers={"r": P(1, 0)}, objects=[W(.5, -.02, .5, 1.0)])
allp = [float(v) for _, _, v, _, _ in s.all_paths(approx=True, order=0, patch=0.0, alpha=10.0)]
n = len(list(s.all_valid_paths(approx=True, order=0, patch=0.0, alpha=10.0)))
ck(0 < allp[0] < .5 and n == 0, n, allp)
''')
seed("c23-sorted-objects", "C23", [("scene.py", "                for _, _, valid, path, path_candidate in paths_group:\n                    interacting_objects = self.get_interacting_objects(path_candidate)\n", "                for _, _, valid, path, path_candidate in paths_group:\n                    interacting_objects = self.get_interacting_objects(\n                        jnp.unique(path_candidate)\n                    )\n")],
 "paths of order two or more and a function that uses the interacting objects", "the function receives the distinct objects by index, not the path's objects in order",
 '''
s = S.Scene.square_scene()
f = lambda tx, rx, path, objs: sum((i + 1) * o.xys[0, 0] + 10 * o.xys[1, 1] for i, o in enumerate(objs)) * 1.0 + len(objs)
a = s.accumulate_over_paths(f, reduce_all=True, order=2, approx=False)
b = sum(float(v) * float(f(None, None, p, [s.objects[int(i)] for i in c])) for _, _, v, p, c in s.all_paths(order=2, approx=False))
ck(close(a, b), a, b)
''')
seed("c24-moved-class", "C24", [("scene.py", "                    transmitter_cls(xy=tx_coords),", "                    Point(xy=tx_coords),")],
 "a transmitter class given to the transmitter grid and used by the accumulated function", "the function receives a plain point",
 '''
class Tx(g.Point):
    def gain(self): return 3.0
s = S.Scene.square_scene()
f = lambda tx, rx, path, objs: jnp.array(tx.gain() if isinstance(tx, Tx) else 1.0)
X = jnp.array([[.3, .4]]); Y = jnp.array([[.2, .2]])
z = dict(s.accumulate_on_transmitters_grid_over_paths(X, Y, f, order=0, transmitter_cls=Tx, approx=False))
ck(close(z["rx"], 3.0), z)
''')
seed("c25-updated-first", "C25", [("scene.py", "            PyTreeDict.from_mapping({**self.receivers, **receivers}),", "            PyTreeDict.from_mapping(\n                {**receivers, **{k: r for k, r in self.receivers.items() if k not in receivers}}\n            ),")],
 "updating a scene that already has other receivers", "updated and new receivers come first instead of keeping their place or being appended",
 '''
s = S.Scene(receivers={"a": P(0, 0), "b": P(1, 1)}).update_receivers(b=P(2, 2), c=P(3, 3))
ck(list(s.receivers) == ["a", "b", "c"], list(s.receivers))
''')
seed("c26-shared-walls", "C26", [("scene.py", "                        walls.append(wall)\n", "                        if not any(bool((w.xys == wall.xys).all()) for w in walls):\n                            walls.append(wall)\n")],
 "two polygons sharing an edge traversed in the same direction", "the second wall is missing",
 '''
import json
ring = [[0, 0], [1, 0], [1, 1]]
fc = {"type": "FeatureCollection", "features": [{"geometry": {"type": "Polygon", "coordinates": [ring]}}] * 2}
ck(len(S.Scene.from_geojson(json.dumps(fc)).objects) == 6)
''')
seed("c27-receivers-on-walls", "C27", [("scene.py", '            f"rx_{i}": Point(xy=points[-(i + 1), :]) for i in range(n_receivers)', '            f"rx_{i}": Point(xy=points[n_transmitters + i, :])\n            for i in range(n_receivers)')],
 "a random scene with walls", "receivers sit on wall end points instead of at independent positions",
 '''
s = S.Scene.random_uniform_scene(2, 3, 2, key=jax.random.PRNGKey(0))
a = [tuple(map(float, p.xy)) for p in [*s.transmitters.values(), *s.receivers.values()]] + [tuple(map(float, q)) for w in s.objects for q in w.xys]
ck(len(set(a)) == len(a), "shared coordinates")
''')
seed("c28-sorted-iteration", "C28", [("scene.py", "        return iter(self._keys)", "        return iter(sorted(self._keys))")],
 "a mapping whose keys are not in lexicographic order (for instance more than ten numbered entities)", "iteration does not follow the source mapping",
 '''
s = S.Scene.random_uniform_scene(12, 1, 1, key=jax.random.PRNGKey(0))
ck(list(s.transmitters) == [f"tx_{i}" for i in range(12)], list(s.transmitters))
''')
seed("c29-unguarded-denominator", "C29", [("geometry.py", "        den = jnp.where(den_is_zero, 1.0, den)\n", "")],
 "the gradient of a soft validity in a configuration with a wall parallel to a path segment", "0/0 in the derivative: the gradient is NaN",
 '''
w = W(0, 1, 1, 1)
f = lambda p: w.intersects_cartesian(jnp.stack([p, p + jnp.array([1., 0.])]), approx=True) * 1.0
gr = jax.grad(f)(jnp.array([0.2, 0.2]))
ck(bool(jnp.isfinite(gr).all()), gr)
''')
seed("c30-asymmetric-window", "C30", [("geometry.py", "                    obj_index == interacting_object_indices[i + 0],\n", "                    jnp.isin(\n                        obj_index, jnp.asarray(interacting_object_indices[max(i - 1, 0) : i + 1])\n                    ),\n")],
 "a path of order two whose last leg crosses the wall of its first interaction", "an object obstructs the reverse path but not the forward one",
 '''
objs = [W(0, 1, 4, 1), W(2, -3, 2, -.5)]
xy = jnp.array([[0., 0.], [1., 1.], [2., -1.], [4., 2.]])
a = g.Path(xys=xy).intersects_with_objects(objs, jnp.array([0, 1]), approx=False)
b = g.Path(xys=xy[::-1]).intersects_with_objects(objs, jnp.array([1, 0]), approx=False)
ck(bool(a) == bool(b), a, b)
''')
seed("c31-absolute-parallel-threshold", "C31", [("geometry.py", "        den_is_zero = den == 0.0\n", "        den_is_zero = jnp.abs(den) < 1e-6\n")],
 "a scene of small extent (segments around 1e-3)", "intersections disappear when the scene is scaled down",
 '''
p = lambda *a: jnp.array(a, dtype=float) * 1e-4
ck(bool(g.segments_intersect(p(-1, 0), p(1, 0), p(0, -1), p(0, 1), approx=False)))
''')
seed("c04-default-mode-constant", "C04", [("geometry.py", "        contains = true_value(approx=approx)\n", "        contains = true_value()\n")],
 "the explicit mode of a path's checks differs from the global one", "the containment test of a path starts from the truth value of the global mode: the exact answer has a floating dtype",
 '''
w = W(0, 0, 1, 0)
path = g.ImagePath.from_tx_objects_rx(P(0., 1.), [w], P(1., 1.))
for glob in (False, True):
    with L.enable_approx(glob):
        ck(path.on_objects([w], approx=False).dtype == bool, glob)
        ck(path.on_objects([], approx=False).dtype == bool, glob)
        ck(jnp.issubdtype(path.on_objects([], approx=True).dtype, jnp.floating), glob)
''')
seed("c15-many-objects", "C15", [("geometry.py", "            for obj_index, obj in enumerate(objects):\n                ignore", "            for obj_index, obj in enumerate(objects[: 1 << 6]):\n                ignore")],
 "a scene of more than 64 objects, and an obstacle beyond the 64th", "obstacles beyond the 64th object do not block a path",
 '''
far = [W(100., 100. + i, 101., 100. + i) for i in range(70)]
tx, rx = P(0., 0.), P(1., 0.)
path = g.Path.from_tx_objects_rx(tx, [], rx)
for k in (0, 63, 64, 69):
    objs = list(far); objs[k] = W(0.5, -1., 0.5, 1.)
    ck(bool(path.intersects_with_objects(objs, jnp.zeros(0, dtype=int), approx=False)), k)
''')
seed("c18-receivers-left-out", "C18", [("scene.py", "[receiver.bounding_box() for receiver in self.receivers.values()]", "[\n                receiver.bounding_box() for receiver in list(self.receivers.values())[:16]\n            ]")],
 "a scene of more than 16 receivers, with a later one outside the box of the others", "later receivers are not in the bounding box",
 '''
for k in (0, 15, 16, 19):
    s = S.Scene(transmitters={"t": P(0., 0.)}, receivers={f"r{i}": P(9., -7.) if i == k else P(0.5, 0.5) for i in range(20)}, objects=[W(0, 0, 1, 1)])
    ck(close(s.bounding_box(), jnp.array([[0., -7.], [9., 1.]])), k, s.bounding_box())
''')
seed("c21-late-filter", "C21", [("scene.py", "                if not filter_objects(obj):\n", "                if i < 1 << 5 and not filter_objects(obj):\n")],
 "a filter that rejects an object beyond the 32nd", "objects beyond the 32nd are never excluded from the candidates",
 '''
class Marked(g.Wall):
    pass
bad = {3, 31, 32, 39}
objs = [(Marked if i in bad else g.Wall)(xys=jnp.array([[0., i], [1., i]])) for i in range(40)]
s = S.Scene(transmitters={"t": P(0., 0.)}, receivers={"r": P(1., 1.)}, objects=objs)
got = sorted(int(i) for c in s.all_path_candidates(order=1, filter_objects=lambda o: not isinstance(o, Marked)) for i in c)
ck(got == [i for i in range(40) if i not in bad], got)
''')
seed("c22-obstacles-capped", "C22", [("scene.py", "                valid = path.is_valid(\n                    self.objects,\n                    path_candidate,", "                valid = path.is_valid(\n                    self.objects[: 3 * 16],\n                    path_candidate,")],
 "a scene of more than 48 objects with an obstacle among the later ones", "the validity of a path is not decided against all objects of the scene",
 '''
objs = [W(100., 100. + i, 101., 100. + i) for i in range(60)]
for k in (0, 47, 48, 59):
    o = list(objs); o[k] = W(0.5, -1., 0.5, 1.)
    s = S.Scene(transmitters={"t": P(0., 0.)}, receivers={"r": P(1., 0.)}, objects=o)
    ck(not bool(list(s.all_paths(order=0, approx=False))[0][2]), k)
''')
seed("c23-folded-names", "C23", [("scene.py", "                operator.itemgetter(slice(2)),", "                lambda e: (e[0].casefold(), e[1]),")],
 "two neighbouring transmitters whose names differ in case only", "their paths are accumulated into one entry",
 '''
s = S.Scene(transmitters={"TX": P(0.1, 0.1), "tx": P(0.2, 0.3)}, receivers={"r": P(0.9, 0.8)}, objects=[W(0, 0, 1, 0)])
got = list(s.accumulate_over_paths(lambda *a: jnp.array(1.0), approx=False))
ck([x[:2] for x in got] == [("TX", "r"), ("tx", "r")], got)
''')
seed("c23-long-pairs", "C23", [("scene.py", "                for _, _, valid, path, path_candidate in paths_group:", "                for _, _, valid, path, path_candidate in list(paths_group)[: 10 * 4]:")],
 "more than 40 candidates per pair", "the contributions of later candidates are lost",
 '''
s = S.Scene(transmitters={"t": P(0.5, 2.)}, receivers={"r": P(0.6, 2.)}, objects=[W(0., -float(i), 1., -float(i)) for i in range(50)])
got = {x[:2]: float(x[2]) for x in s.accumulate_over_paths(lambda t, r, p, o: p.length(), order=1, path_cls=type("Free", (g.ImagePath,), {"is_valid": lambda self, *a, **k: jnp.array(1.0)}))}
want = sum(float(g.ImagePath.from_tx_objects_rx(s.transmitters["t"], [o], s.receivers["r"]).length()) for o in s.objects)
ck(close(got[("t", "r")], want), got, want)
''')
seed("c25-empty-name", "C25", [("scene.py", "            name = receiver_names.get(name, name)", "            name = receiver_names.get(name) or name")],
 "a receiver renamed to the empty string", "it keeps its old name",
 '''
s = S.Scene(transmitters={}, receivers={"r": P(1., 1.), "q": P(2., 2.)}, objects=[])
ck(list(s.rename_receivers(r="").receivers) == ["", "q"], list(s.rename_receivers(r="").receivers))
''')
seed("c26-long-rings", "C26", [("scene.py", "                    for i in range(n):\n                        xys = jnp.array(", "                    for i in range(min(n, 1 << 7)):\n                        xys = jnp.array(")],
 "a polygon of more than 128 vertices", "the walls beyond the 128th side are missing",
 '''
import json
for n in (5, 128, 129, 140):
    ring = [[float(i), float(i * i % 7)] for i in range(n)]
    s = S.Scene.from_geojson(json.dumps({"features": [{"geometry": {"type": "Polygon", "coordinates": [ring]}}]}))
    ck(len(s.objects) == n, n, len(s.objects))
''')
seed("c24-clipped-grid", "C24", [("scene.py", "        grid = jnp.dstack((X, Y))\n\n        def results() -> Iterator[tuple[str, Union[Array, tuple[Array, Array]]]]:\n            return ((rx_key", "        grid = jnp.clip(jnp.dstack((X, Y)), -1e3, 1e3)\n\n        def results() -> Iterator[tuple[str, Union[Array, tuple[Array, Array]]]]:\n            return ((rx_key")],
 "a grid with coordinates beyond 1000", "the transmitter positions of the grid are clipped",
 '''
s = S.Scene(transmitters={}, receivers={"r": P(0., 0.)}, objects=[])
X = jnp.array([[0.5, 2000.]]); Y = jnp.array([[-3000., 0.25]])
((k, Z),) = s.accumulate_on_transmitters_grid_over_paths(X, Y, lambda t, r, p, o: t.xy[0] + 2 * t.xy[1], order=0, approx=False)
ck(close(Z, X + 2 * Y), Z)
''')
seed("c20-shared-start", "C20", [("optimize.py", "    keys = jax.random.split(key, num=many)", "    keys = jnp.stack([key] * many) if many > 16 else jax.random.split(key, num=many)")],
 "more than 16 minimisations", "every run starts from the same point: the result is no better than one run",
 '''
seen = []
def fun(x):
    jax.debug.callback(lambda v: seen.append(tuple(np.asarray(v).ravel().tolist())), x)
    return jnp.sum(x ** 2)
for many in (2, 16, 17, 20):
    seen.clear()
    O.minimize_many_random_uniform(fun, key=jax.random.PRNGKey(1), n=2, many=many, steps=1)
    jax.effects_barrier()
    ck(len(set(seen)) >= many, many, len(set(seen)))
''')
seed("c19-sorted-transmitters", "C19", [("scene.py", "        transmitters = list(self.transmitters.items())\n", "        transmitters = list(self.transmitters.items())[: 1 << 6]\n")],
 "more than 64 transmitters, and the closest among the later ones", "the closest transmitter is not found",
 '''
for k in (0, 63, 64, 69):
    s = S.Scene(transmitters={f"t{i}": P(0., 0.) if i == k else P(5., float(i)) for i in range(70)}, receivers={}, objects=[])
    n, d = s.get_closest_transmitter(jnp.array([0.1, 0.0]))
    ck(n == f"t{k}" and close(d, 0.1), k, n, d)
''')
