"""Reciprocity.  For any number of walls by composition: let I_k be the k-th image of tx and J_k the image of rx through walls n..k.
step(W, I, J) is the interaction point of a one-wall image path.  The obligations
  L1  step(W, I, J) = step(W, J, I)
  L2  step(W, I, I' + l (J - I')) = step(W, I, J)           with I' the image of I
  L3  step(W, I, J) lies on the line from I to the image of J
give, with the point contract proved in C11, that the k-th point of both paths is step(W_k, I_(k-1), J_(k+1)).  Direct obligations on
whole paths are added for small numbers of walls.  Coordinates are expressed in the wall's own frame (no loss of generality)."""
from engine.verify import *
from engine import verify as V
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from props.c11 import frame, sframe, side, images
from props.c16 import LPath
from differt2d import geometry as G
from differt2d import utils as U
from differt2d import logic as LG

FN = ("geometry.ImagePath.from_tx_objects_rx", "geometry.Wall.image_of", "geometry.path_length", "geometry.Path.length", "geometry.Path.on_objects", "geometry.Path.intersects_with_objects",
      "geometry.Path.is_valid", "geometry.Wall.intersects_cartesian", "geometry.segments_intersect", "geometry.Wall.evaluate_cartesian", "utils.received_power")
TOL = const(Fr(1, 1000000))


class SObj(AObj):
    """an arbitrary object whose intersection test does not depend on the direction of the ray (the contract proved of walls below)"""
    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kw):
        h = lambda x: pred("hits", approx, kw, self.ident, x, jnp.asarray(patch, dtype=float))
        return LG.logical_or(h(ray), h(ray[::-1]), approx=approx)


def step(W, I, J): return G.ImagePath.from_tx_objects_rx(I, [W], J)


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    # ---- the three lemmas
    FR = dict(o=real(2), t=real(2), i=real(2), j=real(2))
    rq = lambda a: [nonzero(a.t), ne(a.i[1] + a.j[1], 0)]        # the line from the image to the next point is not parallel to the wall
    def lem(q, l=None):
        w, f = frame(q); W = G.Wall(xys=w); I, J = f(q.i), f(q.j)
        Ii, Ji = W.image_of(I), W.image_of(J)
        return W, I, J, Ii, Ji
    def l1(q):
        W, I, J, Ii, Ji = lem(q)
        return step(W, I, J).xys, step(W, J, I).xys
    C("L1: one wall, exchanged ends", FR, l1, lambda a, o: {"same interaction point": eqv(o[0][1], o[1][1]), "reversed ends": conj(eqv(o[0][0], o[1][2]), eqv(o[0][2], o[1][0]))}, requires=rq, timeout=20.0)
    def l2(q):
        W, I, J, Ii, Ji = lem(q)
        return step(W, I, Ii + q.l * (J - Ii)).xys[1], step(W, I, J).xys[1]
    C("L2: the next point moves along its line", dict(FR, l=real()), l2, lambda a, o: {"same interaction point": eqv(o[0], o[1])}, requires=lambda a: rq(a) + [ne(a.l, 0)], timeout=20.0)
    def l3(q):
        W, I, J, Ii, Ji = lem(q)
        return step(W, I, J).xys[1], I, Ji
    C("L3: the point is on the unfolded line", FR, l3, lambda a, o: {"aligned with the previous image and the next image": eq(cross(sub2(o[0], o[1]), sub2(o[2], o[1])), 0)}, requires=rq, timeout=20.0)
    C("L3: the image of a point of the wall is itself", dict(o=real(2), t=real(2), x=real()), lambda q: (lambda w, f: (G.Wall(xys=w).image_of(f(jnp.stack([q.x, jnp.zeros(())]))), f(jnp.stack([q.x, jnp.zeros(())]))))(*frame(q)), lambda a, o: {"fixed": eqv(o[0], o[1])}, requires=lambda a: [nonzero(a.t)])
    # ---- whole paths
    for n in (0, 1, 2, 3):
        I = dict(tx=real(2), rx=real(2), w=real(max(n, 1), 2, 2))
        def both(q, n=n):
            ws = [G.Wall(xys=q.w[i]) for i in range(n)]
            f, b = G.ImagePath.from_tx_objects_rx(q.tx, ws, q.rx), G.ImagePath.from_tx_objects_rx(q.rx, ws[::-1], q.tx)
            pw = lambda p, a, z, ws: U.received_power(G.Point(xy=a), G.Point(xy=z), p, ws)
            return f.xys, b.xys, f.length(), b.length(), pw(f, q.tx, q.rx, ws), pw(b, q.rx, q.tx, ws[::-1]), f.loss, b.loss
        def general(a, n=n):
            """non-degenerate walls, and every pair of consecutive unfolded images separated by its wall's direction, from both ends"""
            if n == 0: return []
            im = images(a.tx, a.w); jm = images(a.rx, a.w[::-1])
            out = []
            for k in range(n):
                d1, d2 = side(a.w[k], im[k + 1]), side(a.w[k], jm[n - 1 - k])
                out += [nonzero(tvec(a.w[k]))]
                if V.NATIVE[0]: out += [(d1 - d2) * (d1 - d2) > const(Fr(1, 1000)) * norm2(tvec(a.w[k])) ]
                else: out += [ne(d1, d2)]
            return out
        def ens(a, o, n=n):
            return {"same points": conj(*[eqv(o[0][k], o[1][n + 1 - k]) for k in range(n + 2)])}
        C(f"{n} walls, points", I, lambda q, both=both: both(q)[:2], ens, requires=general, bounded=None if n < 2 else f"{n} walls (all coordinates)", finite=False, timeout=10.0 if n < 2 else 1.0, tol=1e-4, optional="sampled" if n > 1 else False)
        if n < 2: C(f"{n} walls, no preconditions on parallels", I, lambda q, both=both: both(q)[:2], lambda a, o, n=n: {"same end points": conj(eqv(o[0][0], o[1][n + 1]), eqv(o[0][n + 1], o[1][0]))}, finite=False)
    # ---- everything computed from a path, for an arbitrary polyline and its reverse
    for nm, f in (("a segment", lambda q: G.path_length(q.p)), ("a reversed segment", lambda q: G.path_length(q.p[::-1]))):
        C(f"length of {nm}", dict(p=real(2, 2)), f, lambda a, o: (lambda d: {"at most the distance": o <= d + TOL / 2, "at least the distance": o >= d - TOL / 2})(norm(sub2(a.p[1], a.p[0]))), timeout=20.0, tol=1e-9)
    for n in range(0, 5 if tier == "quick" else 9):
        B = f"{n} interactions (all coordinates)" if n else None
        C(f"length of a polyline, {n} interactions", dict(p=real(n + 2, 2)), lambda q, n=n: (G.ImagePath(xys=q.p[::-1]).length(), [G.path_length(q.p[i:i + 2][::-1]) for i in range(n + 1)]), lambda a, o: {"sum over the reversed segments": eq(o[0], sum(o[1], ZERO))}, bounded=B)
        C(f"power, {n} interactions", dict(tx=real(2), rx=real(2), L=real(pos="nonneg"), rc=real(), h=posreal(), ids=real(max(n, 1))),
          lambda q, n=n: (lambda obj: (U.received_power(G.Point(xy=q.tx), G.Point(xy=q.rx), LPath(xys=jnp.zeros((n + 2, 2)), len=q.L), obj, r_coef=q.rc, height=q.h),
                                       U.received_power(G.Point(xy=q.rx), G.Point(xy=q.tx), LPath(xys=jnp.zeros((n + 2, 2)), len=q.L), obj[::-1], r_coef=q.rc, height=q.h)))([AObj(q.ids[i]) for i in range(n)]),
          lambda a, o: {"same power": eq(o[0], o[1])}, bounded=B)
    for cl in (G.Wall, G.RIS):
        C(f"{cl.__name__}, obstruction by a reversed segment, exact", dict(w=real(2, 2), r=real(2, 2), patch=real(pool=[0, .25])), lambda q, cl=cl: (cl(xys=q.w).intersects_cartesian(q.r, patch=q.patch, approx=False), cl(xys=q.w).intersects_cartesian(q.r[::-1], patch=q.patch, approx=False)), lambda a, o: {"same": iff(o[0], o[1])})
        C(f"{cl.__name__}, obstruction by a reversed segment, soft", dict(w=real(2, 2), r=real(2, 2), patch=real(pool=[0, .25]), al=posreal()), lambda q, cl=cl: (cl(xys=q.w).intersects_cartesian(q.r, patch=q.patch, approx=True, alpha=q.al, function=my_act), cl(xys=q.w).intersects_cartesian(q.r[::-1], patch=q.patch, approx=True, alpha=q.al, function=my_act)),
          lambda a, o: {"same": eq(o[0], o[1])})
    # residual: the symmetric form of the loss
    def resid(q):
        w, f = frame(q); W = G.Wall(xys=w)
        ray = jnp.stack([f(q.i), f(q.p), f(q.j)])
        return W.evaluate_cartesian(ray), W.evaluate_cartesian(ray[::-1])
    C("residual of a reversed interaction", dict(o=real(2), t=real(2), i=real(2), p=real(2), j=real(2)), resid, lambda a, o: {"same": eq(o[0], o[1])}, requires=lambda a: [nonzero(a.t)], timeout=20.0)
    for n, cand in ((1, ()), (2, (1,)), (3, (2, 0)), (2, (0, 1, 0)), (4, (3, 1))):
        k = len(cand)
        for mode in (False, True):
            I = dict(xys=real(k + 2, 2), ids=real(n), patch=real(pool=[0, .5]), tol=real(pool=[.01, .5]), loss=real(pool=[0, .01, .5]))
            B = f"objects/candidates {[(1, ()), (2, (1,)), (3, (2, 0)), (2, (0, 1, 0)), (4, (3, 1))]} (arbitrary objects and coordinates)"
            def f(q, n=n, cand=cand, mode=mode):
                objs = [SObj(q.ids[i]) for i in range(n)]
                out = []
                for x, c in ((q.xys, cand), (q.xys[::-1], cand[::-1])):
                    p = G.ImagePath(xys=x, loss=q.loss); jc = jnp.array(c, dtype=jnp.int32)
                    inter = [objs[i] for i in c]
                    out.append((p.on_objects(inter, approx=mode), p.intersects_with_objects(objs, jc, patch=q.patch, approx=mode), p.is_valid(objs, jc, inter, tol=q.tol, patch=q.patch, approx=mode)))
                return out
            def ens(a, o, mode=mode):
                s = (lambda x, y: eq(x, y)) if mode else (lambda x, y: iff(x, y))
                return {k: s(o[0][i], o[1][i]) for i, k in enumerate(("same containment", "same obstruction", "same validity"))}
            C(f"{n} objects, candidate {cand}, approx={mode}", I, f, ens, bounded=B, timeout=15.0)
    r.run(cs)
    symc.run(r, SZ.c30)
    symc.run(r, SZ.c30_observed)
    return r.finish()
