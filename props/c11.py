"""The image method.  The chain of interaction points is cut at every point: the obligation for the k-th point is proved
for an arbitrary next point and an arbitrary k-th image.  The physical-reflection part is an inductive step over one wall,
with coordinates expressed in the (non-degenerate) wall's own frame o + a*t + b*t_perp, which loses no generality."""
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from engine import verify as V
from props.spec import *
import equinox as eqx
from differt2d import geometry as G

FN = ("geometry.ImagePath.from_tx_objects_rx", "geometry.Wall.image_of", "geometry.Wall.evaluate_cartesian", "geometry.Wall.normal", "geometry.normalize", "geometry.stack_leaves")


def images(tx, ws):
    out = [vec(tx)]
    for w in ws: out.append(mirror(w, out[-1]))
    return out


def side(w, p): return cross(sub2(p, org(w)), tvec(w))


def frame(q):
    """jnp side: wall and points from frame coordinates"""
    tp = jnp.array([-q.t[1], q.t[0]])
    return jnp.stack([q.o, q.o + q.t]), lambda ab: q.o + ab[0] * q.t + ab[1] * tp


def sframe(a):
    return lambda x, y: [a.o[0] + x * a.t[0] - y * a.t[1], a.o[1] + x * a.t[1] + y * a.t[0]]


def path(n):
    def f(q):
        ws = [G.Wall(xys=q.w[i]) for i in range(n)]
        p = G.ImagePath.from_tx_objects_rx(q.tx, ws, q.rx)
        im = [q.tx]
        for w in ws: im.append(w.image_of(im[-1]))
        return p.xys, p.loss, im
    return f


def general(a, n):
    """non-degenerate walls, and no line from an image to the next point parallel to its wall"""
    im = images(a.tx, a.w); nx = vec(a.rx); cs = []
    for k in reversed(range(n)):
        s1, s2 = side(a.w[k], im[k + 1]), side(a.w[k], nx)
        cs += [nonzero(tvec(a.w[k])), ne(s1, s2)]
        nx = add2(nx, sc2(s2 / (s1 - s2), sub2(nx, im[k + 1])))
    return cs


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    C("no wall", dict(tx=real(2), rx=real(2)), lambda q: path(0)(q)[:2], lambda a, o: {"starts at tx": eqv(o[0][0], a.tx), "ends at rx": eqv(o[0][1], a.rx), "loss": eq(o[1], 0)})
    for n in (1, 2, 3, 4, 7, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 9, 12):
        smp = dict(optional="sampled" if n > 6 else False)
        B = None if n == 1 else f"{n} walls (all coordinates)"
        I = dict(tx=real(2), rx=real(2), w=real(n, 2, 2))
        C(f"{n} walls, end points", I, path(n), lambda a, o, n=n: {"starts at tx": eqv(o[0][0], a.tx), "ends at rx": eqv(o[0][n + 1], a.rx), "points": TRUE if o[0].shape == (n + 2, 2) else FALSE}, bounded=B, finite=False, **smp)
        C(f"{n} walls, images", I, path(n), lambda a, o, n=n: {f"image {k + 1} is the mirror image of the previous one": eqv(o[2][k + 1], mirror(a.w[k], o[2][k])) for k in range(n)},
          requires=lambda a, n=n: [nonzero(tvec(a.w[k])) for k in range(n)], cut=lambda a, o, lab: [x for m in o[2][1:int(lab.split()[1])] for x in m], bounded=B, finite=False, **smp)
        def points(a, o, n=n):
            d = {}
            for k in range(n):
                p, nx, J = o[0][k + 1], o[0][k + 2], o[2][k + 1]
                par = eq(side(a.w[k], sub2(add2(nx, org(a.w[k])), J)), 0)
                d[f"point {k + 1} on the line of its wall"] = disj(par, eq(side(a.w[k], p), 0))
                d[f"point {k + 1} on the line from the image to the next point"] = disj(par, eq(cross(sub2(p, J), sub2(nx, J)), 0))
            return d
        def cut(a, o, lab, n=n):
            k = int(lab.split()[1])
            return [x for m in o[2][1:k + 1] for x in m] + [x for j in range(n, k, -1) for x in o[0][j]]
        C(f"{n} walls, points", I, path(n), points, requires=lambda a, n=n: general(a, n) if V.NATIVE[0] else [nonzero(tvec(a.w[k])) for k in range(n)], cut=cut, bounded=B, finite=False, timeout=20.0, **smp)
    # walls of a derived class: the same points as for plain walls
    class Painted(G.Wall):
        tag: str = eqx.field(static=True, default="t")
    for n in (1, 2, 3):
        for nm, mk in (("reflecting surfaces with a fixed angle", lambda q, i: G.RIS(xys=q.w[i], phi=q.phi[i])), ("a user's own wall class", lambda q, i: Painted(xys=q.w[i]))):
            def fn(q, n=n, mk=mk):
                ws = [mk(q, i) for i in range(n)]
                p = G.ImagePath.from_tx_objects_rx(q.tx, ws, q.rx)
                return p.xys, G.ImagePath.from_tx_objects_rx(q.tx, [G.Wall(xys=q.w[i]) for i in range(n)], q.rx).xys
            C(f"{n} walls, {nm}", dict(tx=real(2), rx=real(2), w=real(n, 2, 2), phi=real(n)), fn, lambda a, o, n=n: {f"point {k} as for a plain wall": eqv(o[0][k], o[1][k]) for k in range(n + 2)},
              requires=lambda a, n=n: [nonzero(tvec(a.w[k])) for k in range(n)], bounded=f"{n} walls (all coordinates)")
    # one interaction of a physical path: the image J behind the wall and the next point X in front of it
    # (on the same side as the previous image: heights b and rho*b)
    FR = dict(o=real(2), t=real(2), im=real(2), g=real(), rho=posreal())
    rq = lambda a: [nonzero(a.t), ne(a.im[1], 0)]
    def one(q):
        w, f = frame(q)
        p = G.ImagePath.from_tx_objects_rx(f(q.im), [G.Wall(xys=w)], f(jnp.stack([q.g, q.rho * q.im[1]])))
        return p.xys, p.loss
    def len1(a, o):
        f = sframe(a); X = f(a.g, a.rho * a.im[1]); J = f(a.im[0], -a.im[1]); mu = ONE / (1 + a.rho)
        return {"loss is zero": eq(o[1], 0), "the specular point": eqv(o[0][1], add2(J, sc2(mu, sub2(X, J))))}
    C("1 wall, physical reflection", FR, one, len1, requires=rq, timeout=20.0)
    def step(q):
        """the previous point is on the half-line from p towards the previous image"""
        w, f = frame(q)
        W = G.Wall(xys=w)
        I, X = f(q.im), f(jnp.stack([q.g, q.rho * q.im[1]]))
        J = W.image_of(I)
        mu = 1 / (1 + q.rho)
        p = J + mu * (X - J)
        return W.evaluate_cartesian(jnp.stack([p - q.lam * (p - I), p, X])), I, J, p
    def stepens(a, o):
        f = sframe(a); X = f(a.g, a.rho * a.im[1])
        return {"residual is zero": eq(o[0], 0), "p on the wall": eq(cross(sub2(o[3], a.o), a.t), 0),
                "image distances agree": eq(norm(sub2(o[3], o[1])), norm(sub2(o[3], o[2]))),
                "lengths add up": eq(norm(sub2(o[3], o[2])) + norm(sub2(X, o[3])), norm(sub2(X, o[2])))}
    C("inductive step over one wall", dict(FR, lam=posreal()), step, stepens, requires=rq, timeout=20.0)
    r.run(cs)
    symc.run(r, SZ.c11)
    BIG.run(r, "sizes next to a number in the source", BIG.c11())
    return r.finish()
