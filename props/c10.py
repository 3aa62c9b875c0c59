from engine.verify import *
from props.spec import *
from differt2d import geometry as G

FN = ("geometry.Wall.evaluate_cartesian", "geometry.RIS.evaluate_cartesian", "geometry.Wall.normal", "geometry.normalize", "geometry.Vertex.evaluate_cartesian")


def legs(a): return [nonzero(tvec(a.w)), nonzero(sub2(a.r[1], a.r[0])), nonzero(sub2(a.r[2], a.r[1]))]


def check(r, tier):
    cs = []
    I = dict(w=real(2, 2), r=real(3, 2))
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    wall = lambda q: G.Wall(xys=q.w).evaluate_cartesian(q.r)
    C("Wall residual", I, wall, lambda a, o: {"squared distance to the specular direction": eq(o, residual(a.w, a.r[0], a.r[1], a.r[2]))}, requires=legs)
    C("Wall residual sign", I, wall, lambda a, o: {"non-negative": o >= 0})
    C("Wall residual vanishes on specular reflection", dict(w=real(2, 2), a=real(2), b=real(2), k=posreal()),
      lambda q: G.Wall(xys=q.w).evaluate_cartesian(jnp.stack([q.a, q.b, q.b + q.k * specular(q.w, q.b - q.a)])),
      lambda a, o: {"zero": eq(o, 0)}, requires=lambda a: [nonzero(tvec(a.w)), nonzero(sub2(a.b, a.a))])
    C("Wall residual zero implies specular", I, wall, lambda a, o: (lambda d, e: {"parallel": implies(eq(o, 0), eq(cross(d, e), 0)), "same sense": implies(eq(o, 0), dot(d, e) > 0)})(
        reflect_dir(a.w, sub2(a.r[1], a.r[0])), sub2(a.r[2], a.r[1])), requires=legs, timeout=20.0)
    C("Wall residual, orientation", I, lambda q: (wall(q), G.Wall(xys=q.w[::-1]).evaluate_cartesian(q.r)), lambda a, o: {"independent of the wall's orientation": eq(o[0], o[1])}, requires=legs)
    C("Wall residual, leg lengths", dict(I, k=posreal(), l=posreal()), lambda q: (wall(q), G.Wall(xys=q.w).evaluate_cartesian(jnp.stack([q.r[1] + q.k * (q.r[0] - q.r[1]), q.r[1], q.r[1] + q.l * (q.r[2] - q.r[1])]))),
      lambda a, o: {"independent of the leg lengths": eq(o[0], o[1])}, requires=legs)
    C("Wall residual, reversal", I, lambda q: (wall(q), G.Wall(xys=q.w).evaluate_cartesian(q.r[::-1])), lambda a, o: {"independent of the direction of travel": eq(o[0], o[1])}, requires=legs)
    # RIS
    J = dict(I, c=real(), s=real())
    ris = lambda q: G.RIS(xys=q.w, phi=q.phi).evaluate_cartesian(q.r)
    def ris_spec(a):
        n = normal(a.w); d = unit(sub2(a.r[2], a.r[1]))
        ca = dot(sc2(const(-1), d), n); sa = cross(sc2(const(-1), d), n)
        return ca, sa, (sa - sin(a.phi)) * (sa - sin(a.phi)) + (ca - cos(a.phi)) * (ca - cos(a.phi))
    P = dict(I, phi=real())
    rq = lambda a: [nonzero(tvec(a.w)), nonzero(sub2(a.r[2], a.r[1]))]
    C("RIS residual", P, ris, lambda a, o: {"(sin a - sin phi)^2 + (cos a - cos phi)^2": eq(o, ris_spec(a)[2])}, requires=rq)
    C("RIS residual sign", P, ris, lambda a, o: {"non-negative": o >= 0})
    C("RIS residual zero", P, ris, lambda a, o: (lambda z: {"iff the outgoing angle is phi": iff(eq(o, 0), conj(eq(z[0], cos(a.phi)), eq(z[1], sin(a.phi))))})(ris_spec(a)), requires=rq)
    C("RIS residual, incoming leg", dict(P, a2=real(2)), lambda q: (ris(q), G.RIS(xys=q.w, phi=q.phi).evaluate_cartesian(q.r.at[0].set(q.a2))), lambda a, o: {"independent": eq(o[0], o[1])})
    C("RIS residual, outgoing length", dict(P, l=posreal()), lambda q: (ris(q), G.RIS(xys=q.w, phi=q.phi).evaluate_cartesian(q.r.at[2].set(q.r[1] + q.l * (q.r[2] - q.r[1])))), lambda a, o: {"independent": eq(o[0], o[1])}, requires=rq)
    C("RIS default angle", I, lambda q: (G.RIS(xys=q.w).evaluate_cartesian(q.r), G.RIS(xys=q.w, phi=jnp.pi / 4).evaluate_cartesian(q.r)), lambda a, o: {"pi/4": eq(o[0], o[1])})
    C("RIS keeps the wall's geometry", dict(I, p=real(2), phi=real()), lambda q: (G.RIS(xys=q.w, phi=q.phi).image_of(q.p), G.Wall(xys=q.w).image_of(q.p), G.RIS(xys=q.w, phi=q.phi).cartesian_to_parametric(q.p), G.Wall(xys=q.w).cartesian_to_parametric(q.p)),
      lambda a, o: {"image": eqv(o[0], o[1]), "parameter": eq(o[2][0], o[3][0])})
    C("Vertex residual", dict(v=real(2), r=real(3, 2)), lambda q: G.Vertex(xy=q.v).evaluate_cartesian(q.r), lambda a, o: {"zero": eq(o, 0)})
    r.run(cs)
    return r.finish()


def specular(w, d):
    t = w[1] - w[0]
    return 2 * jnp.dot(d, t) / jnp.dot(t, t) * t - d
