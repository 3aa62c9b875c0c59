"""Equivariance under similarities  x -> A x + v  with A = [[g, -h], [h, g]], (g, h) != 0: every rotation times every positive scale.
Rotations alone are parametrised rationally, A = [[m*m - k*k, -2mk], [2mk, m*m - k*k]] / (m*m + k*k), which reaches every angle.
Whole paths follow for any number of walls from the two steps of the image method (image_of and the one-wall path, C11)."""
from engine.verify import *
from engine import verify as V
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from props.c11 import images, side
from props.c16 import LPath
from differt2d import geometry as G
from differt2d import utils as U

FN = ("geometry.Wall.image_of", "geometry.Wall.normal", "geometry.normalize", "geometry.ImagePath.from_tx_objects_rx", "geometry.segments_intersect", "geometry.Wall.cartesian_to_parametric",
      "geometry.Wall.parametric_to_cartesian", "geometry.Wall.evaluate_cartesian", "geometry.RIS.evaluate_cartesian", "geometry.Wall.intersects_cartesian", "geometry.Path.on_objects",
      "geometry.Path.intersects_with_objects", "geometry.path_length", "utils.received_power")
TOL = const(Fr(1, 1000000))
SIM = dict(A=real(2, pool=[-2, -1, -.5, 0, .5, 1, 2, 100]), v=real(2))
ROT = dict(A=real(2, pool=[-2, -1, -.5, 0, .5, 1, 2, 3]), v=real(2))
nz = lambda a: [nonzero(a.A)]


def T(q):
    """the map, on arrays of points"""
    M = jnp.array([[q.A[0], -q.A[1]], [q.A[1], q.A[0]]])
    return lambda x: jnp.einsum("ij,...j->...i", M, x) + q.v
def sT(a): return lambda p: [a.A[0] * p[0] - a.A[1] * p[1] + a.v[0], a.A[1] * p[0] + a.A[0] * p[1] + a.v[1]]
def Rm(q):
    m, k = q.A; d = m * m + k * k
    M = jnp.array([[m * m - k * k, -2 * m * k], [2 * m * k, m * m - k * k]]) / d
    return lambda x: jnp.einsum("ij,...j->...i", M, x)
def R(q): return lambda x: Rm(q)(x) + q.v
def sRm(a):
    m, k = a.A; d = m * m + k * k; c, s = (m * m - k * k) / d, 2 * m * k / d
    return lambda p: [c * p[0] - s * p[1], s * p[0] + c * p[1]]
def close(x, y, t): return conj(x - y <= t, y - x <= t)


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    W = dict(w=real(2, 2)); P = dict(W, p=real(2))
    nd = lambda a: nz(a) + [nonzero(tvec(a.w))]
    for cl in (G.Wall, G.RIS):
        N = cl.__name__
        C(f"{N}.image_of", dict(P, **SIM), lambda q, cl=cl: (cl(xys=T(q)(q.w)).image_of(T(q)(q.p)), cl(xys=q.w).image_of(q.p)), lambda a, o: {"moves along": eqv(o[0], sT(a)(o[1]))}, requires=nz)
        C(f"{N}.normal", dict(o=real(2), t=real(2), **SIM), lambda q, cl=cl: [cl(xys=f(jnp.stack([q.o, q.o + q.t]))).normal() for f in (T(q), lambda x: x)], lambda a, o: {"turns along": eqv(sc2(norm(a.A), o[0]), sub2(sT(a)(o[1]), a.v))}, requires=nz)
        C(f"{N}.normal, scaled and moved", dict(W, s=posreal(), v=real(2)), lambda q, cl=cl: (cl(xys=q.s * q.w + q.v).normal(), cl(xys=q.w).normal()), lambda a, o: {"unchanged": eqv(o[0], o[1])})
        C(f"{N}.cartesian_to_parametric", dict(P, **SIM), lambda q, cl=cl: (cl(xys=T(q)(q.w)).cartesian_to_parametric(T(q)(q.p)), cl(xys=q.w).cartesian_to_parametric(q.p)), lambda a, o: {"unchanged": eq(o[0][0], o[1][0])}, requires=nd)
        C(f"{N}.parametric_to_cartesian", dict(W, s=real(1), **SIM), lambda q, cl=cl: (cl(xys=T(q)(q.w)).parametric_to_cartesian(q.s), cl(xys=q.w).parametric_to_cartesian(q.s)), lambda a, o: {"moves along": eqv(o[0], sT(a)(o[1]))}, requires=nz)
        # in the coordinates of the differences (o, o + t) and (p - i, p, p + j), which reach every configuration
        D = dict(o=real(2), t=real(2), p=real(2), i=real(2), j=real(2))
        def ev(q, f, cl=cl): return cl(xys=f(jnp.stack([q.o, q.o + q.t]))).evaluate_cartesian(f(jnp.stack([q.p - q.i, q.p, q.p + q.j])))
        C(f"{N}.evaluate_cartesian, moved", dict(D, v=real(2)), lambda q, ev=ev: (ev(q, lambda x: x + q.v), ev(q, lambda x: x)), lambda a, o: {"unchanged": eq(o[0], o[1])})
        C(f"{N}.evaluate_cartesian, rotated and scaled", dict(D, **SIM), lambda q, ev=ev: (ev(q, T(q)), ev(q, lambda x: x)), lambda a, o: {"unchanged": eq(o[0], o[1])}, requires=nz, timeout=30.0)
        H = dict(W, r=real(2, 2), patch=real(pool=[0, .25]), **SIM)
        C(f"{N}.intersects_cartesian, exact", H, lambda q, cl=cl: [cl(xys=t(q.w)).intersects_cartesian(t(q.r), patch=q.patch, approx=False) for t in (T(q), lambda x: x)], lambda a, o: {"unchanged": iff(o[0], o[1])}, requires=nz, timeout=20.0)
        C(f"{N}.intersects_cartesian, soft", dict(H, al=posreal()), lambda q, cl=cl: [cl(xys=t(q.w)).intersects_cartesian(t(q.r), patch=q.patch, approx=True, alpha=q.al, function=my_act) for t in (T(q), lambda x: x)], lambda a, o: {"unchanged": eq(o[0], o[1])}, requires=nz, timeout=20.0)
    S = dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2), tol=real(pool=[0, .005, .25]), **SIM)
    C("segments_intersect, exact", S, lambda q: [G.segments_intersect(*[t(x) for x in (q.P1, q.P2, q.P3, q.P4)], tol=q.tol, approx=False) for t in (T(q), lambda x: x)], lambda a, o: {"unchanged": iff(o[0], o[1])}, requires=nz, timeout=20.0)
    C("segments_intersect, soft", dict(S, al=posreal()), lambda q: [G.segments_intersect(*[t(x) for x in (q.P1, q.P2, q.P3, q.P4)], tol=q.tol, approx=True, alpha=q.al, function=my_act) for t in (T(q), lambda x: x)], lambda a, o: {"unchanged": eq(o[0], o[1])}, requires=nz, timeout=20.0)
    # the image method: one wall for all coordinates, the step from which every path is made; then whole paths
    D = dict(o=real(2), t=real(2), i=real(2), j=real(2), **SIM)
    C("ImagePath, one wall", D, lambda q: [G.ImagePath.from_tx_objects_rx(f(q.o + q.i), [G.Wall(xys=f(jnp.stack([q.o, q.o + q.t])))], f(q.o + q.j)).xys for f in (T(q), lambda x: x)], lambda a, o: {"moves along": conj(*[eqv(o[0][k], sT(a)(o[1][k])) for k in range(3)])},
      requires=lambda a: nz(a) + [nonzero(a.t)] + ([(cross(a.i, a.t) + cross(a.j, a.t)) * (cross(a.i, a.t) + cross(a.j, a.t)) > Fr(1, 1000) * norm2(a.t) * norm2(a.t)] if V.NATIVE[0] else [ne(cross(a.i, a.t) + cross(a.j, a.t), 0)]), tol=1e-4, finite=False, timeout=20.0)
    C("ImagePath, no wall", dict(tx=real(2), rx=real(2), **SIM), lambda q: [G.ImagePath.from_tx_objects_rx(f(q.tx), [], f(q.rx)).xys for f in (T(q), lambda x: x)], lambda a, o: {"moves along": conj(*[eqv(o[0][k], sT(a)(o[1][k])) for k in range(2)])}, requires=nz)
    def general(n):
        def g(a):
            im = images(a.tx, a.w); nx = vec(a.rx); out = nz(a)
            for k in reversed(range(n)):
                s1, s2 = side(a.w[k], im[k + 1]), side(a.w[k], nx)
                out += [nonzero(tvec(a.w[k])), (s1 - s2) * (s1 - s2) > Fr(1, 1000) * norm2(tvec(a.w[k])) * norm2(tvec(a.w[k]))]
                nx = add2(nx, sc2(s2 / (s1 - s2), sub2(nx, im[k + 1])))
            return out
        return g
    for n in (2, 3):
        I = dict(tx=real(2), rx=real(2), w=real(n, 2, 2), **SIM)
        f = lambda q, n=n: [G.ImagePath.from_tx_objects_rx(t(q.tx), [G.Wall(xys=t(q.w[i])) for i in range(n)], t(q.rx)).xys for t in (T(q), lambda x: x)]
        C(f"ImagePath, {n} walls", I, f, lambda a, o, n=n: {"moves along": conj(*[eqv(o[0][k], sT(a)(o[1][k])) for k in range(n + 2)])}, requires=general(n), bounded=f"{n} walls (sampled coordinates)",
          finite=False, optional="sampled", tol=1e-4)
    # lengths and power
    J = dict(p=real(2, 2), **ROT)
    C("length of a moved segment", J, lambda q: (lambda x: (G.path_length(x), x))(R(q)(q.p)), lambda a, o: (lambda d: {"at most the distance": o[0] <= d + TOL / 2, "at least the distance": o[0] >= d - TOL / 2})(norm(sub2(o[1][1], o[1][0]))),
      requires=nz, cut=lambda a, o, l: [x for y in o[1] for x in y], timeout=20.0, tol=1e-9)
    C("distances", J, lambda q: R(q)(q.p), lambda a, o: {"unchanged": eq(norm2(sub2(o[1], o[0])), norm2(sub2(a.p[1], a.p[0])))}, requires=nz)
    for n in range(0, 4):
        C(f"power, {n} interactions", dict(tx=real(2), rx=real(2), L=real(pos="nonneg"), rc=real(), h=posreal(), xys=real(n + 2, 2), w=real(2, 2), **SIM),
          lambda q, n=n: [U.received_power(G.Point(xy=t(q.tx)), G.Point(xy=t(q.rx)), LPath(xys=t(q.xys), len=q.L), [G.Wall(xys=t(q.w))] * n, r_coef=q.rc, height=q.h) for t in (T(q), lambda x: x)],
          lambda a, o: {"depends on the length only": eq(o[0], o[1])}, requires=nz, bounded=f"{n} interactions" if n else None)
    # whole predicates of a path
    for mode in (False, True):
        K = dict(xys=real(3, 2), w=real(2, 2, 2), al=posreal(), **SIM)
        kw = lambda q, mode=mode: dict(approx=True, alpha=q.al, function=my_act) if mode else dict(approx=False)
        same = (lambda a, o: {"unchanged": eq(o[0], o[1])}) if mode else (lambda a, o: {"unchanged": iff(o[0], o[1])})
        C(f"Path.on_objects, approx={mode}", K, lambda q, kw=kw: [G.ImagePath(xys=t(q.xys)).on_objects([G.Wall(xys=t(q.w[0]))], **kw(q)) for t in (T(q), lambda x: x)], same, requires=lambda a: nz(a) + [nonzero(tvec(a.w[0]))], timeout=20.0, bounded="1 interaction (all coordinates)")
        C(f"Path.intersects_with_objects, approx={mode}", K, lambda q, kw=kw: [G.ImagePath(xys=t(q.xys)).intersects_with_objects([G.Wall(xys=t(q.w[0])), G.Wall(xys=t(q.w[1]))], jnp.array([0], dtype=jnp.int32), **kw(q)) for t in (T(q), lambda x: x)], same, requires=nz, timeout=20.0, bounded="2 walls, 1 interaction (all coordinates)")
    r.run(cs)
    symc.run(r, SZ.c31)
    return r.finish()
