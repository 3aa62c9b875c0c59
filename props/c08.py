from engine.verify import *
from engine import verify as V
from props.spec import *
from differt2d import geometry as G

FN = ("geometry.Ray.origin", "geometry.Ray.dest", "geometry.Ray.t", "geometry.Wall.parametric_to_cartesian", "geometry.Wall.cartesian_to_parametric", "geometry.Wall.contains_parametric",
      "geometry.Wall.get_vertices", "geometry.Wall.parameters_count", "abc.Interactable.sample", "geometry.Vertex.parametric_to_cartesian", "geometry.Vertex.cartesian_to_parametric",
      "geometry.Vertex.contains_parametric", "geometry.Vertex.intersects_cartesian", "geometry.Vertex.evaluate_cartesian", "geometry.Vertex.parameters_count")


def check(r, tier):
    cs = []
    W = dict(w=real(2, 2))
    nd = lambda a: [nonzero(tvec(a.w))]
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    for cl in (G.Wall, G.RIS):
        N = cl.__name__
        w = lambda q, cl=cl: cl(xys=q.w)
        C(f"{N} end points and direction", W, lambda q, w=w: (w(q).origin(), w(q).dest(), w(q).t()),
          lambda a, o: {"origin": eqv(o[0], org(a.w)), "dest": eqv(o[1], dst(a.w)), "direction": eqv(o[2], tvec(a.w))})
        C(f"{N} parametric_to_cartesian", dict(W, s=real(1)), lambda q, w=w: w(q).parametric_to_cartesian(q.s),
          lambda a, o: {"origin + s * (dest - origin)": eqv(o, add2(org(a.w), sc2(a.s[0], tvec(a.w))))})
        C(f"{N} parameter of a point", dict(W, p=real(2)), lambda q, w=w: w(q).cartesian_to_parametric(q.p),
          lambda a, o: {"projection parameter": eq(o[0], wall_param(a.w, a.p)), "length": TRUE if o.shape == (1,) else FALSE}, requires=nd)
        C(f"{N} projection", dict(W, p=real(2), z=real()), lambda q, w=w: w(q).parametric_to_cartesian(w(q).cartesian_to_parametric(q.p)),
          lambda a, o: {"residual orthogonal to the wall": eq(dot(sub2(a.p, o), tvec(a.w)), 0), "on the wall's line": eq(cross(sub2(o, org(a.w)), tvec(a.w)), 0)}, requires=nd)
        C(f"{N} projection of a point of the line", dict(W, z=real()), lambda q, w=w: w(q).parametric_to_cartesian(w(q).cartesian_to_parametric(q.w[0] + q.z * (q.w[1] - q.w[0]))),
          lambda a, o: {"round trip": eqv(o, add2(org(a.w), sc2(a.z, tvec(a.w))))}, requires=nd)
        C(f"{N} parameter round trip", dict(W, s=real(1)), lambda q, w=w: w(q).cartesian_to_parametric(w(q).parametric_to_cartesian(q.s)),
          lambda a, o: {"s": eq(o[0], a.s[0])}, requires=nd)
        C(f"{N} parameters of its end points and middle", W, lambda q, w=w: tuple(w(q).cartesian_to_parametric(p) for p in (q.w[0], q.w[1], 0.5 * (q.w[0] + q.w[1]))),
          lambda a, o: {"0": eq(o[0][0], 0), "1": eq(o[1][0], 1), "1/2": eq(o[2][0], HALF)}, requires=nd)
        C(f"{N} zero-length", dict(w0=real(2), p=real(2)), lambda q, cl=cl: (lambda u: (u.cartesian_to_parametric(q.p), u.parametric_to_cartesian(u.cartesian_to_parametric(q.p))))(cl(xys=jnp.stack([q.w0, q.w0]))),
          lambda a, o: {"maps to its point": eqv(o[1], a.w0)})
        C(f"{N} containment", dict(W, s=real(1)), lambda q, w=w: w(q).contains_parametric(q.s, approx=False),
          lambda a, o: {"iff in [0,1]": iff(o, conj(a.s[0] >= 0, a.s[0] <= 1))})
        for m in (False, True):
            C(f"{N} random samples (global={m})", dict(W, k=key()), lambda q, w=w: (lambda p: (p, w(q).cartesian_to_parametric(p), w(q).contains_parametric(w(q).cartesian_to_parametric(p), approx=False)))(w(q).sample(q.k)),
              lambda a, o: {"on the segment": conj(eq(cross(sub2(o[0], org(a.w)), tvec(a.w)), 0), o[1][0] >= -Fr(1, 10 ** 5), o[1][0] <= 1 + Fr(1, 10 ** 5)),
                            **({} if V.NATIVE[0] else {"contained": o[2], "parameter is one uniform draw": disj(*[disj(eq(o[1][0], u), eq(o[1][0], 1 - u)) for u in topo([o[1][0]]) if u.op == "app" and u.args[0].startswith("u01")])})},
              requires=nd, mode=m)
        C(f"{N} vertices", W, lambda q, w=w: tuple(v.xy for v in w(q).get_vertices()),
          lambda a, o: {"count": TRUE if len(o) == 2 else FALSE, "first": eqv(o[0], org(a.w)), "second": eqv(o[1], dst(a.w))})
        C(f"{N} parameters_count", {}, lambda q, cl=cl: (jnp.asarray(cl.parameters_count()), jnp.asarray(cl(xys=jnp.zeros((2, 2))).parameters_count())), lambda a, o: {"1": conj(eq(o[0], 1), eq(o[1], 1))})
    V_ = dict(v=real(2))
    v = lambda q: G.Vertex(xy=q.v)
    C("Vertex parameters_count", {}, lambda q: jnp.asarray(G.Vertex.parameters_count()), lambda a, o: {"0": eq(o, 0)})
    C("Vertex position", dict(V_, k=key(), p=real(2)), lambda q: (v(q).parametric_to_cartesian(jnp.zeros(0)), v(q).sample(q.k), v(q).parametric_to_cartesian(v(q).cartesian_to_parametric(q.p))),
      lambda a, o: {"own position": conj(*[eqv(x, a.v) for x in o])})
    C("Vertex parameters of a point", dict(V_, p=real(2)), lambda q: v(q).cartesian_to_parametric(q.p), lambda a, o: {"none": TRUE if np.shape(o) == (0,) else FALSE})
    C("Vertex residual", dict(V_, r=real(3, 2)), lambda q: v(q).evaluate_cartesian(q.r), lambda a, o: {"zero": eq(o, 0)})
    for m in (False, True):
        for ap in (None, False, True):
            soft = m if ap is None else ap
            C(f"Vertex containment and obstruction, approx={ap}, global={m}", dict(V_, r=real(2, 2), patch=real(), p=real(2)),
              lambda q, ap=ap: (v(q).contains_parametric(v(q).cartesian_to_parametric(q.p), approx=ap), v(q).intersects_cartesian(q.r, patch=q.patch, approx=ap), v(q).intersects_cartesian(q.r, approx=ap)),
              lambda a, o, soft=soft: {"contains everything": eq(o[0], ONE) if soft else o[0], "obstructs nothing": conj(*[eq(x, ZERO) if soft else neg(x) for x in o[1:]])}, mode=m)
    r.run(cs)
    return r.finish()
