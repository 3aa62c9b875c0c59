"""Bounded jobs at the sizes the package's own source mentions: for every integer v from 5 to 300 written in /repo/differt2d (also as a sum, product, power or shift), the
real code is executed on v + 1 entities and compared with an independent computation; a size at which the code changes its behaviour shows as such a number."""
from engine.verify import *
from engine.seqs import literals
from differt2d import geometry as G, optimize as O, utils as U, logic as L
from differt2d.scene import Scene


def sizes(cap=301): return sorted({v + 1 for v in literals() if v + 1 <= cap} | {24})[:14]


def wide(cap=20000):
    """larger sizes, for computations on plain arrays"""
    return sorted(v + 1 for v in literals(cap) if v > 300)[:8]


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


W = lambda a, b, c, d, cl=G.Wall: cl(xys=jnp.array([[a, b], [c, d]], dtype=float))


def run(r, name, jobs):
    for k, (n, label, f) in enumerate(jobs):
        if not r.mine(k): continue
        if r.violations and time.time() - r.t0 > 90: break
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation(name, f"{label}, {n}", d is None, "execution of the real code", d, bounded=f"size {n} (next to a number written in the source)")


def far(n): return [W(100., 100. + i, 101., 100. + i) for i in range(n)]


def c13():
    def f(n):
        x = np.random.default_rng(n).normal(size=(n, 2))
        w = np.sqrt((np.diff(x, axis=0) ** 2).sum(1)).sum()
        g, h = float(G.path_length(jnp.asarray(x))), float(G.Path(xys=jnp.asarray(x)).length())
        if not (close(g, w) and close(h, w)): return f"length {g}, {h}; expected {w}"
    return [(n, "a path of that many points", lambda n=n: f(n)) for m in sizes() + wide() for n in (m, m + 1)]


def c16():
    def f(n):
        x = np.random.default_rng(n).normal(size=(n + 2, 2)) / n
        ln = np.sqrt((np.diff(x, axis=0) ** 2).sum(1)).sum()
        for co, h in ((.99, .1), (1.0, .5)):
            g = float(U.received_power(G.Point(xy=jnp.asarray(x[0])), G.Point(xy=jnp.asarray(x[-1])), G.Path(xys=jnp.asarray(x)), far(min(n, 3)), r_coef=co, height=h))
            if not close(g / (co ** n / (h * h + ln * ln)), 1.0, 1e-3): return f"{g}, expected {co ** n / (h * h + ln * ln)} (coefficient {co}, height {h})"
    return [(n, "a path of that many interactions", lambda n=n: f(n)) for n in sizes() + wide()]


def c15():
    def scene(n, where):
        o = far(n)
        for k in where: o[k] = W(.5, -1., .5, 1.)
        return o
    def objects(n):
        p = G.Path(xys=jnp.array([[0., 0.], [1., 0.]]))
        c = jnp.zeros((0,), dtype=int)
        for where in ((), (n - 1,), (n // 2,), (0,)):
            g = bool(p.intersects_with_objects(scene(n, where), c, approx=False))
            if g != bool(where): return f"obstacle at {where}: {g}"
    def segments(n):
        x = np.stack([np.arange(n + 2.), np.zeros(n + 2)], 1)
        c = jnp.zeros((n,), dtype=int) + 1
        for k in (n, n // 2, 0):
            g = bool(G.Path(xys=jnp.asarray(x)).intersects_with_objects([W(k + .5, -1., k + .5, 1.), W(-9., 5., -9., 6.)], c, approx=False))
            if not g: return f"the obstacle on segment {k} is not seen"
        o = [W(i + 1., -1., i + 1., 1.) for i in range(n)]
        for k in (None, n - 1, n // 2, 0):
            y = x.copy()
            if k is not None: y[k + 1, 1] = 3.0
            g = bool(G.Path(xys=jnp.asarray(y)).on_objects(o, approx=False))
            if g != (k is None): return f"point {k} outside its wall: on_objects is {g}"
    def ignored(n):
        p = G.Path(xys=jnp.array([[0., 0.], [1., 0.], [2., 0.]]))
        for k in (n - 1, n // 2):
            o = far(n); o[k] = W(.5, -1., .5, 1.)
            a = bool(p.intersects_with_objects(o, jnp.array([k]), approx=False)); b = bool(p.intersects_with_objects(o, jnp.array([0]), approx=False))
            if a or not b: return f"object {k}: {a} when the path interacts with it, {b} otherwise"
    return [(n, l, lambda n=n, f=f: f(n)) for n in sizes(150) for l, f in (("that many objects", objects), ("that many objects, one of them interacting", ignored))] + [(n, "that many interactions", lambda n=n: segments(n)) for n in sizes(60)]


def c14():
    def f(n):
        for k in (n - 1, n // 2):
            o = far(n); o[k] = W(0., 0., 2., 0.)
            p = lambda h=0., l=0.: G.Path(xys=jnp.array([[0., 1.], [1. + h, 0.], [2., 1.]]), loss=jnp.array(l))
            for q, want, obs in ((p(), True, ()), (p(4.), False, ()), (p(0., 1.), False, ()), (p(), False, (0,))):
                s = list(o)
                for j in obs: s[j] = W(.5, 0., .5, 3.)
                a = bool(q.is_valid(s, jnp.array([k]), [s[k]], approx=False)); b = float(q.is_valid(s, jnp.array([k]), [s[k]], approx=True, alpha=1e5))
                if a != want or (b > .4) != want: return f"interaction with object {k}: valid {a}, approximately {b}; expected {want}"
    return [(n, "that many objects", lambda n=n: f(n)) for n in sizes(60)]


def c11():
    def f(n):
        ws = [W(0., float(i % 2 == 0), 1., float(i % 2 == 0)) for i in range(n)]
        y0, y1 = .25, .625
        total = (1 - y0) + (n - 1) + ((1 - y1) if n % 2 else y1)
        ys = [1 - y0 + i for i in range(n)]
        want = np.array([[0., y0]] + [[7 * d / total, float(i % 2 == 0)] for i, d in enumerate(ys)] + [[7., y1]])
        p = G.ImagePath.from_tx_objects_rx(jnp.array([0., y0]), ws, jnp.array([7., y1]))
        if not close(p.xys, want, 1e-3 * n): return f"points {np.asarray(p.xys)[:4].tolist()}..., expected {want[:4].tolist()}..."
        if not close(p.xys[-3:], want[-3:], 1e-2): return f"last points {np.asarray(p.xys)[-3:].tolist()}, expected {want[-3:].tolist()}"
        if abs(float(p.loss)) > 1e-3: return f"loss {p.loss}"
    return [(n, "reflections between two parallel walls", lambda n=n: f(n)) for n in sizes(150)]


def c12():
    def f(n, cl):
        rng = np.random.default_rng(n)
        kinds = (G.Wall, G.RIS, G.Vertex)
        xs = rng.normal(size=(n, 2, 2))
        o = [G.Vertex(xy=jnp.asarray(x[0])) if i % 3 == 2 else kinds[i % 3](xys=jnp.asarray(x)) for i, x in enumerate(xs)]
        tx, rx = jnp.array([9., 9.]), jnp.array([-8., 7.])
        p = cl.from_tx_objects_rx(tx, o, rx, key=jax.random.PRNGKey(n), steps=1)
        y = np.asarray(p.xys, float)
        if y.shape != (n + 2, 2) or not (close(y[0], tx) and close(y[-1], rx)): return f"shape {y.shape}, ends {y[0]}, {y[-1]}"
        for i, x in enumerate(xs):
            u, v = (x[1] - x[0]), y[i + 1] - x[0]
            off = np.abs(u[0] * v[1] - u[1] * v[0]) / np.linalg.norm(u) if i % 3 != 2 else np.linalg.norm(v)
            if off > 1e-3: return f"point {i + 1} is not on its object ({off})"
        want = sum(float(ob.evaluate_cartesian(jnp.asarray(y[i:i + 3]))) for i, ob in enumerate(o))
        if not close(float(p.loss), want, 1e-2): return f"loss {p.loss}, expected {want}"
    def spots(n):
        o = [G.Vertex(xy=jnp.array([float(i), float(i * i % 7)])) for i in range(n)]
        th = jnp.zeros((0,))
        y = np.asarray(G.parametric_to_cartesian(o, th, n, jnp.array([-1., 0.]), jnp.array([-2., 0.])), float)
        if not close(y, [[-1., 0.]] + [[i, i * i % 7] for i in range(n)] + [[-2., 0.]]): return "points"
    return [(n, f"that many objects, {cl.__name__}", lambda n=n, cl=cl: f(n, cl)) for n in sizes(52) for cl in (G.FermatPath, G.MinPath)] + [(n, "that many vertices", lambda n=n: spots(n)) for n in sizes(52)]


def c18():
    def f(n, end):
        for k in (n - 1, n // 2, 0):
            P = lambda i: G.Point(xy=jnp.array([9., -7.] if i == k else [.5, .5]))
            kw = dict(transmitters={}, receivers={}, objects=[W(0., 0., 1., 1.)])
            kw[end] = [W(*((9., -7., .5, .5) if i == k else (.2, .3, .4, .5))) for i in range(n)] + kw["objects"] if end == "objects" else {f"n{i}": P(i) for i in range(n)}
            g = Scene(**kw).bounding_box()
            if not close(g, [[0., -7.], [9., 1.]]): return f"entity {k} far away: box {np.asarray(g).tolist()}"
        g = G.Path(xys=jnp.asarray(np.stack([np.arange(n) * (-1.) ** np.arange(n), np.arange(n) % 5], 1))).bounding_box()
        x = np.stack([np.arange(n) * (-1.) ** np.arange(n), np.arange(n) % 5], 1)
        if not close(g, [x.min(0), x.max(0)]): return f"path box {g}"
    def grid(n):
        s = Scene(transmitters={"t": G.Point(xy=jnp.array([-1., 2.]))}, receivers={"r": G.Point(xy=jnp.array([4., 3.]))}, objects=[])
        for m in (n, n + 1):
            X, Y = s.grid(m, n)
            if not (close(X, np.tile(np.linspace(-1, 4, m), (n, 1))) and close(Y, np.tile(np.linspace(2, 3, n)[:, None], (1, m)))): return f"grid({m}, {n})"
    return [(n, f"that many {e}", lambda n=n, e=e: f(n, e)) for n in sizes(150) for e in ("transmitters", "receivers", "objects")] + [(n, "a grid", lambda n=n: grid(n)) for n in sizes(150)]


def c19():
    def f(n, end):
        for k in (n - 1, n // 2, 0):
            s = Scene(**{"transmitters": {}, "receivers": {}, "objects": [], end: {f"n{i}": G.Point(xy=jnp.array([0., 0.] if i == k else [5., float(i)])) for i in range(n)}})
            g = (s.get_closest_transmitter if end == "transmitters" else s.get_closest_receiver)(jnp.array([.25, 0.]))
            if g[0] != f"n{k}" or not close(g[1], .25): return f"{g}, expected n{k} at 0.25"
        for k in (n - 1, n // 2, 0):      # distances that differ in the last digits
            th = np.arange(n); d = np.where(th == k, 1 - 2e-6, 1.); i, m = G.closest_point(jnp.asarray(np.stack([d * np.cos(th * np.pi / 2).round() + 1, d * np.sin(th * np.pi / 2).round() - 1], 1)), jnp.array([1., -1.]))
            if int(i) != k or not close(m, 1 - 2e-6, 1e-6): return f"closest_point {i} {m}, expected {k} by a small margin"
        x = np.random.default_rng(n).normal(size=(n, 2)); i, d = G.closest_point(jnp.asarray(x), jnp.zeros(2)); e = np.sqrt((x ** 2).sum(1))
        if int(i) != e.argmin() or not close(d, e.min()): return f"closest_point {i} {d}"
    def points(n):
        x = np.random.default_rng(n).normal(size=(n, 2)) + 3
        th = np.arange(n); i, d = G.closest_point(jnp.asarray(np.stack([np.where(th == n - 2, 1 - 2e-6, 1.) * (-1.) ** th + 1, 0. * th], 1)), jnp.array([1., 0.]))
        if int(i) != n - 2: return f"closest_point {i} {d}, expected {n - 2} by a small margin"
        for k in (n - 1, n // 2):
            x[k] = (-.5 + k / n, 0.); i, d = G.closest_point(jnp.asarray(x), jnp.array([-.5 + k / n, .001]))
            if int(i) != k or not close(d, .001, 1e-5): return f"closest_point {i} {d}, expected {k}"
    return [(n, f"that many {e}", lambda n=n, e=e: f(n, e)) for n in sizes() for e in ("transmitters", "receivers")] + [(n, "that many points", lambda n=n: points(n)) for n in wide()]


def c20():
    import optax
    fn = lambda x, p=.3: jnp.sum((x - p) ** 2) + jnp.sum(jnp.cos(5 * x))
    def many(n):
        k = jax.random.PRNGKey(n)
        for m in (n, n + 1):
            x, l = O.minimize_many_random_uniform(fn, k, 2, many=m, steps=1, optimizer=optax.sgd(.01))
            u = np.array([np.asarray(jax.random.uniform(q, (2,))) for q in jax.random.split(k, m)], float)
            y = u - .01 * (2 * (u - .3) - 5 * np.sin(5 * u)); v = ((y - .3) ** 2).sum(1) + np.cos(5 * y).sum(1); b = v.argmin()
            if not (close(l, v[b], 1e-4) and close(x, y[b], 1e-3)): return f"{m} runs: {x} {l}, expected {y[b]} {v[b]}"
    def steps(n):
        for m in (n, n + 1):
            x, l = O.minimize(lambda x: jnp.sum((x - 1.) ** 2), jnp.array([3., -5.]), steps=m, optimizer=optax.sgd(.5 / 64))
            w = 1 + (np.array([3., -5.]) - 1) * (1 - 1 / 64) ** m
            if not (close(x, w) and close(l, ((w - 1) ** 2).sum(), 1e-3)): return f"{m} steps: {x} {l}, expected {w}"
    def count(n):
        one = optax.GradientTransformation(lambda x: (), lambda g, s, p=None: (jnp.ones_like(g), s))
        for m in (n, n + 1):
            x, l = O.minimize(lambda x: jnp.sum(x), jnp.array([0.]), steps=m, optimizer=one)
            if not (close(x, [float(m)], 1e-6) and close(l, float(m), 1e-6)): return f"{m} steps of one: {x} {l}"
    def dims(n):
        for m in (n, n + 1):
            k = jax.random.PRNGKey(m)
            x, l = O.minimize_random_uniform(fn, k, m, steps=0)
            if not (close(x, jax.random.uniform(k, (m,)), 1e-6) and close(l, fn(x))): return f"{m} parameters"
    return [(n, l, lambda n=n, f=f: f(n)) for n in sizes(160) for l, f in (("that many runs", many), ("that many steps", steps), ("that many parameters", dims))] + [(n, "that many steps", lambda n=n: count(n)) for n in wide()]


def c28():
    from differt2d.scene import PyTreeDict
    def f(n):
        x = np.random.default_rng(n).normal(size=(n, 2, 2)).astype("float32")
        for nm, s in (("walls array", Scene.from_walls_array(jnp.asarray(x))), ("stacked objects", Scene.from_stacked_objects(G.stack_leaves([G.Wall(xys=jnp.asarray(w)) for w in x])))):
            if len(s.objects) != n: return f"{nm}: {len(s.objects)} walls"
            if not np.array_equal(np.stack([np.asarray(o.xys) for o in s.objects]), x): return f"{nm}: walls differ or are in another order"
        if not np.array_equal(np.asarray(s.stacked_objects().xys), x): return "stacked again, the walls differ"
        for i in (0, n // 2, n - 2, n - 1):
            if not np.array_equal(np.asarray(s.get_object(jnp.int32(i)).xys), x[i]): return f"get_object({i})"
        keys = [f"k{i * 7919 % n}_{i}" for i in range(n)]; d = PyTreeDict.from_mapping({k: i for i, k in enumerate(keys)})
        if list(d) != keys or len(d) != n or any(d[k] != i for i, k in enumerate(keys)): return "mapping"
    return [(n, "that many entries", lambda n=n: f(n)) for n in sizes() + wide(2500)]
