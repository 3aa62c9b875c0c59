from engine.verify import *
from props.spec import *
from differt2d import geometry as G

FN = ("geometry.Wall.normal", "geometry.normalize", "geometry.Wall.image_of", "geometry.Ray.t", "geometry.Ray.origin")


def check(r, tier):
    cs = []
    W = dict(w=real(2, 2))
    nd = lambda a: [nonzero(tvec(a.w))]
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    C("normalize", dict(v=real(2)), lambda q: G.normalize(q.v),
      lambda a, o: {"unit length": eq(norm2(o[0]), 1), "length": conj(o[1] >= 0, eq(o[1] * o[1], norm2(a.v))), "direction": eqv(sc2(o[1], o[0]), a.v)}, requires=lambda a: [nonzero(a.v)])
    C("normalize zero", {}, lambda q: G.normalize(jnp.zeros(2)), lambda a, o: {"zero vector": eqv(o[0], [ZERO, ZERO])})
    for cl in (G.Wall, G.RIS):
        N = cl.__name__
        w = lambda q, cl=cl: cl(xys=q.w)
        C(f"{N}.normal", W, lambda q, w=w: w(q).normal(), lambda a, o: {"unit length": eq(norm2(o), 1), "orthogonal to the wall": eq(dot(o, tvec(a.w)), 0)}, requires=nd)
        P = dict(W, p=real(2))
        im = lambda q, w=w: w(q).image_of(q.p)
        C(f"{N}.image_of", P, im, lambda a, o: {"mirror reflection": eqv(o, mirror(a.w, a.p)), "middle on the line": eq(cross(sub2(sc2(HALF, add2(o, a.p)), org(a.w)), tvec(a.w)), 0),
                                                "displacement orthogonal": eq(dot(sub2(o, a.p), tvec(a.w)), 0)}, requires=nd)
        C(f"{N}.image_of twice", P, lambda q, w=w: w(q).image_of(w(q).image_of(q.p)), lambda a, o: {"involution": eqv(o, a.p)}, requires=nd)
        C(f"{N}.image_of points of the line", dict(W, s=real()), lambda q, w=w: w(q).image_of(q.w[0] + q.s * (q.w[1] - q.w[0])),
          lambda a, o: {"fixed": eqv(o, add2(org(a.w), sc2(a.s, tvec(a.w))))}, requires=nd)
        C(f"{N}.image_of distances", dict(P, s=real()), im, lambda a, o: (lambda c: {"to points of the line preserved": eq(norm2(sub2(o, c)), norm2(sub2(a.p, c)))})(add2(org(a.w), sc2(a.s, tvec(a.w)))), requires=nd)
        C(f"{N}.image_of two points", dict(P, p2=real(2)), lambda q, w=w: (w(q).image_of(q.p), w(q).image_of(q.p2)), lambda a, o: {"isometry": eq(norm2(sub2(o[0], o[1])), norm2(sub2(a.p, a.p2)))}, requires=nd)
        C(f"{N} reversed", P, lambda q, w=w, cl=cl: (w(q).image_of(q.p), cl(xys=q.w[::-1]).image_of(q.p)), lambda a, o: {"same image": eqv(o[0], o[1])}, requires=nd)
    r.run(cs)
    return r.finish()
