"""Obstruction and containment over every object and segment, for arbitrary objects and symbolic candidates."""
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from differt2d import geometry as G

FN = ("geometry.Path.on_objects", "geometry.Path.intersects_with_objects", "geometry.Wall.intersects_cartesian", "geometry.segments_intersect", "geometry.Vertex.intersects_cartesian")


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    sizes = [(n, k) for n in range(0, 5) for k in range(0, 4) if n or not k]
    if tier != "quick": sizes += [(n, k) for n in (5, 6) for k in (0, 1, 2)] + [(3, 4), (4, 4), (2, 5)]
    big = [(5, 1), (6, 4), (9, 0), (12, 1), (20, 2), (33, 1)]
    for n, k in sizes + big:
        B = f"{n} objects, {k} interactions (arbitrary objects, coordinates and candidate)"
        I = dict(xys=real(k + 2, 2), ids=real(max(n, 1)), c=integer(k, lo=0, hi=max(n - 1, 0)), patch=real(pool=[0, .25, .5]))
        objs = lambda q, n=n: [AObj(q.ids[i]) for i in range(n)]
        for mode in (False, True):
            for given in (True, False):
                kw = lambda q, given=given: dict(patch=q.patch) if given else {}
                def ens(a, o, n=n, k=k, mode=mode, given=given):
                    alg = Soft(None) if mode else Exact
                    ig = [const(-1), *[a.c[i] for i in range(k)], const(-1)]
                    want = alg.false
                    for i in range(k + 1):
                        for j in range(n):
                            h = tpred("hits", mode, "", a.ids[j], a.xys[i], a.xys[i + 1], a.patch if given else ZERO)
                            skip = disj(eq(ig[i], const(j)), eq(ig[i + 1], const(j)))
                            want = disj(want, conj(neg(skip), h)) if not mode else ite(skip, want, maxt(want, h))
                    return {"some segment is hit by an object not at its ends": implies(pair_axioms(o, want), eq(o, want))}
                C(f"intersects_with_objects {n} objects, order {k}, approx={mode}, patch {'given' if given else 'default'}", I,
                  lambda q, objs=objs, mode=mode, kw=kw: G.Path(xys=q.xys).intersects_with_objects(objs(q), q.c, approx=mode, **kw(q)), ens, bounded=B, optional="sampled" if (n, k) in big and (n, k) not in sizes else False)
    for k in [*range(0, 5 if tier == "quick" else 8), 9, 17]:
        for mode in (False, True):
            def ens(a, o, k=k, mode=mode):
                alg = Soft(None) if mode else Exact
                want = alg.and_(alg.true, *[tpred("contains", mode, "", a.ids[i], tu("c2p1", a.ids[i], a.xys[i + 1], shape=(1,))) for i in range(k)])
                return {"every point is contained in its own object": implies(pair_axioms(o, want), eq(o, want))}
            C(f"on_objects {k} interactions, approx={mode}", dict(xys=real(k + 2, 2), ids=real(max(k, 1))),
              lambda q, k=k, mode=mode: G.Path(xys=q.xys).on_objects([AObj(q.ids[i]) for i in range(k)], approx=mode), ens, bounded=f"{k} interactions (arbitrary objects and coordinates)", optional="sampled" if k > 8 else False)
    # the patch, on real walls
    for cl in (G.Wall, G.RIS):
        C(f"{cl.__name__} widened by the patch", dict(w=real(2, 2), r=real(2, 2), patch=real(pool=[0, .25, .5])), lambda q, cl=cl: cl(xys=q.w).intersects_cartesian(q.r, patch=q.patch, approx=False),
          lambda a, o: {"crossing within the widened wall": iff(o, wall_hits(Exact, a.w, a.r[0], a.r[1], a.patch))})
        C(f"{cl.__name__} without patch", dict(w=real(2, 2), r=real(2, 2)), lambda q, cl=cl: cl(xys=q.w).intersects_cartesian(q.r, approx=False),
          lambda a, o: {"crossing the wall": iff(o, wall_hits(Exact, a.w, a.r[0], a.r[1], ZERO))})
    C("Vertex never obstructs", dict(v=real(2), r=real(2, 2), patch=real()), lambda q: (G.Vertex(xy=q.v).intersects_cartesian(q.r, patch=q.patch, approx=False), G.Vertex(xy=q.v).intersects_cartesian(q.r, patch=q.patch, approx=True)),
      lambda a, o: {"false": neg(o[0]), "zero": eq(o[1], 0)})
    r.run(cs)
    symc.run(r, SZ.c15)
    BIG.run(r, "sizes next to a number in the source", BIG.c15())
    return r.finish()
