"""No value and no derivative is infinite or not a number.  The engine carries, for every intermediate number, the conditions under
which it is NaN or infinite (division by zero, square root or its derivative at zero, infinities introduced on purpose); the
obligations are that those conditions are unsatisfiable for the outputs, with no precondition: parallel, collinear, coincident and
zero-length configurations are all included."""
import equinox as eqx
import jax
from engine.verify import *
from props.spec import *
from props.abstract import *
from props import sizes as SZ
from engine import symc
from differt2d import geometry as G
from differt2d import utils as U
from differt2d import logic as LG

FN = ("geometry.normalize", "geometry.path_length", "geometry.segments_intersect", "geometry.Wall.*", "geometry.RIS.evaluate_cartesian", "geometry.ImagePath.from_tx_objects_rx",
      "geometry.Path.is_valid", "geometry.Path.on_objects", "geometry.Path.intersects_with_objects", "utils.received_power", "logic.*")
ACTS = {"hard_sigmoid": LG.hard_sigmoid, "sigmoid": LG.sigmoid}


def fin(x): return conj(*[neg(disj(t.nan, t.pinf, t.ninf)) for t in leaves(x)])


def leaves(x):
    if isinstance(x, F): return [x]
    if isinstance(x, np.ndarray): return [t for y in x.reshape(-1) for t in leaves(y)]
    if isinstance(x, (list, tuple)): return [t for y in x for t in leaves(y)]
    if isinstance(x, dict): return [t for k in sorted(x) for t in leaves(x[k])]
    return []


def vg(f, *names):
    """the values of f and the derivatives of all of them with respect to the named inputs (reverse mode, as jax.grad uses)"""
    def g(q):
        d = {k: getattr(q, k) for k in names}
        def h(d):
            o = f(type(q)(**{**vars(q), **d}))
            return jnp.concatenate([jnp.ravel(jnp.asarray(x, dtype=float)) for x in jax.tree_util.tree_leaves(o)])
        return h(d), jax.jacrev(h)(d)
    return g


def extremes(r):
    """machine numbers: arguments whose exponentials overflow or underflow"""
    xs = [s * v for v in (0.0, 1e-30, 1e-3, 1.0, 20.0, 90.0, 720.0, 1e4, 1e8) for s in (1, -1)]
    for k, (an, act) in enumerate(ACTS.items()):
        for j, nm in enumerate(("less", "greater", "less_equal", "greater_equal")):
            if not r.mine(4 * k + j): continue
            for dt in ("float32", "float64"):
                with jax.experimental.enable_x64(dt == "float64"):
                    x, al = (a.ravel() for a in jnp.meshgrid(jnp.asarray(xs, dtype=dt), jnp.asarray([1e-3, .5, 1.0, 100.0, 1e6], dtype=dt)))
                    f = lambda x, y, al: getattr(LG, nm)(x, y, approx=True, alpha=al, function=act)
                    try:
                        out = jax.vmap(jax.value_and_grad(f, argnums=(0, 1)))(x, jnp.zeros_like(x) + 0.25, al)
                        bad = ~np.all([np.isfinite(np.asarray(o)) for o in (out[0], *out[1])], axis=0)
                        det = f"x = {np.asarray(x)[bad]}, alpha = {np.asarray(al)[bad]}: values {np.asarray(out[0])[bad]}, derivatives {np.asarray(out[1][0])[bad]}" if bad.any() else None
                    except Exception as e: det = f"raises {type(e).__name__}: {e}"
                    r.manual_obligation("extreme arguments", f"{nm}, {an}, {dt}: values and derivatives are finite", det is None, "execution of the real code", det, bounded="18 differences up to 1e8, 5 values of alpha up to 1e6")


def check(r, tier):
    cs = []
    deep = tier != "quick"
    def C(n, i, f, *names, **k):
        cs.append(Contract(n, i, vg(f, *names) if names else f, (lambda a, o: {"values are finite": fin(o[0]), "derivatives are finite": fin(o[1])}) if names else lambda a, o: {"values are finite": fin(o)}, functions=FN, raw=True, eager=True, **k))
    W = dict(w=real(2, 2)); P = dict(W, p=real(2))
    C("normalize", dict(v=real(2)), lambda q: G.normalize(q.v), "v")
    for cl in (G.Wall, G.RIS):
        N = cl.__name__
        w = lambda q, cl=cl: cl(xys=q.w)
        C(f"{N}.normal", W, lambda q, w=w: w(q).normal(), "w")
        C(f"{N}.image_of", P, lambda q, w=w: w(q).image_of(q.p), "w", "p")
        C(f"{N}.cartesian_to_parametric", P, lambda q, w=w: w(q).cartesian_to_parametric(q.p), "w", "p")
        C(f"{N}.parametric_to_cartesian", dict(W, s=real(1)), lambda q, w=w: w(q).parametric_to_cartesian(q.s), "w", "s")
        C(f"{N}.evaluate_cartesian", dict(W, r=real(3, 2)), lambda q, w=w: w(q).evaluate_cartesian(q.r), "w", "r")
    for n in range(2, 5 if not deep else 9):
        C(f"path_length, {n} points", dict(p=real(n, 2)), lambda q: (G.path_length(q.p), G.ImagePath(xys=q.p).length()), "p", bounded=None if n < 3 else f"{n} points (all coordinates)")
    S = dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2), tol=real(pool=[0, .005, .25]))
    C("segments_intersect, exact", S, lambda q: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, tol=q.tol, approx=False).astype(float))
    for an, act in ACTS.items():
        A = dict(al=posreal(pool=[.5, 1, 100]))
        kw = lambda q, act=act: dict(approx=True, alpha=q.al, function=act)
        C(f"segments_intersect, {an}", dict(S, **A), lambda q, kw=kw: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, tol=q.tol, **kw(q)), "P1", "P2", "P3", "P4")
        C(f"Wall.contains_parametric, {an}", dict(W, s=real(1), **A), lambda q, kw=kw: G.Wall(xys=q.w).contains_parametric(q.s, **kw(q)), "s")
        C(f"Wall.intersects_cartesian, {an}", dict(W, r=real(2, 2), patch=real(pool=[0, .25]), **A), lambda q, kw=kw: G.Wall(xys=q.w).intersects_cartesian(q.r, patch=q.patch, **kw(q)), "w", "r")
        for nm in ("less", "greater", "less_equal", "greater_equal"):
            C(f"{nm}, {an}", dict(x=real(), y=real(), **A), lambda q, kw=kw, nm=nm: getattr(LG, nm)(q.x, q.y, **kw(q)), "x", "y")
    # the path, then everything computed from it
    def ip(q, n): return G.ImagePath.from_tx_objects_rx(q.tx, [G.Wall(xys=q.w[i]) for i in range(n)], q.rx)
    for n in (0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4):
        B = None if n <= 1 else f"{n} walls (all coordinates)"
        I = dict(tx=real(2), rx=real(2), w=real(max(n, 1), 2, 2))
        C(f"ImagePath, {n} walls", I, lambda q, n=n: (lambda p: (p.xys, p.loss, p.length()))(ip(q, n)), "tx", "rx", "w", bounded=B)
        C(f"received power, {n} walls", dict(I, h=posreal(), rc=real()), lambda q, n=n: U.received_power(G.Point(xy=q.tx), G.Point(xy=q.rx), ip(q, n), [G.Wall(xys=q.w[i]) for i in range(n)], r_coef=q.rc, height=q.h), "tx", "rx", bounded=B)
    for n, m in ((0, 1), (1, 1), (1, 2), (2, 2)):
        for an, act in ACTS.items():
            I = dict(tx=real(2), rx=real(2), w=real(m, 2, 2), al=posreal(pool=[.5, 1, 100]), h=posreal(), rc=real(), patch=real(pool=[0, .25]))
            def f(q, n=n, m=m, act=act):
                objs = [G.Wall(xys=q.w[i]) for i in range(m)]
                p = ip(q, n)
                v = p.is_valid(objs, jnp.arange(n, dtype=jnp.int32), objs[:n], approx=True, alpha=q.al, function=act, patch=q.patch)
                return v, v * U.received_power(G.Point(xy=q.tx), G.Point(xy=q.rx), p, objs[:n], r_coef=q.rc, height=q.h)
            C(f"validity-weighted power, {n} of {m} walls, {an}", I, f, "tx", "rx", bounded=f"{m} walls, {n} interactions (all coordinates)")
        C(f"exact validity, {n} of {m} walls", dict(tx=real(2), rx=real(2), w=real(m, 2, 2)), lambda q, n=n, m=m: (lambda objs: ip(q, n).is_valid(objs, jnp.arange(n, dtype=jnp.int32), objs[:n], approx=False).astype(float))([G.Wall(xys=q.w[i]) for i in range(m)]),
          bounded=f"{m} walls, {n} interactions (all coordinates)")
    # the whole for any number of walls: the image method, both predicates and the power have finite values and finite derivatives for
    # arbitrary finite cotangents (SZ.c29), and so does what is_valid makes of its three parts; the chain rule multiplies finite numbers
    class Parts(G.ImagePath):
        on: object = None
        hit: object = None
        def on_objects(self, *a, **k): return self.on
        def intersects_with_objects(self, *a, **k): return self.hit
    for an, act in ACTS.items():
        def weighted(q, act=act):
            p = Parts(xys=jnp.zeros((2, 2)), loss=q.loss); p = eqx.tree_at(lambda p: (p.on, p.hit), p, (q.on, q.hit), is_leaf=lambda x: x is None)
            v = p.is_valid([], jnp.zeros((0,), dtype=jnp.int32), [], tol=q.tol, approx=True, alpha=q.al, function=act)
            return v, v * q.power
        C(f"is_valid from its parts, {an}", dict(on=real(), hit=real(), loss=real(), tol=real(), power=real(), al=posreal(pool=[.5, 1, 100])), weighted, "on", "hit", "loss", "power")
    r.run(cs)
    symc.run(r, SZ.c29)
    extremes(r)
    return r.finish()
