from engine.verify import *
from engine import symc
from props import sizes as SZ
from typing import Any
from props.spec import *
from props.abstract import *
from differt2d import geometry as G

FN = ("geometry.segments_intersect", "geometry.Wall.contains_parametric", "geometry.Wall.intersects_cartesian", "geometry.Vertex.contains_parametric",
      "geometry.Vertex.intersects_cartesian", "geometry.Path.on_objects", "geometry.Path.intersects_with_objects", "geometry.Path.is_valid")


CALLED = []


class CPath(G.Path):
    """the two callees of is_valid, by their contracts: truth values that agree between the modes (proved below for any sizes)"""
    on: Any = None
    hit: Any = None
    def on_objects(self, objects, approx=None, **kw):
        CALLED.append("on")
        return self.on[0] if approx else self.on[1] >= 1
    def intersects_with_objects(self, objects, path_candidate, patch=0.0, approx=None, **kw):
        CALLED.append("hit")
        return self.hit[0] if approx else self.hit[1] >= 1


def agree(strict=None, half=True):
    def ens(a, o):
        s, e = o
        ax = act_axioms(s)
        d = {"in [0,1]": implies(ax, conj(s >= 0, s <= 1)), "above half implies exact": implies(ax, implies(s > HALF, e)),
             "strictly inside implies above half": implies(conj(ax, strict(a)), s > HALF)}
        if half: d["exact implies at least half"] = implies(conj(ax, e), s >= HALF)
        return d
    return ens


def inside(P1, P2, P3, P4, tol):
    den, s, t = seg_parts(P1, P2, P3, P4)
    return conj(ne(den, 0), s > -tol, s < 1 + tol, t > -tol, t < 1 + tol)


def check(r, tier):
    cs = []
    S = dict(al=posreal())
    PTS = dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2))
    def both(f): return lambda q: (f(q, approx=True, alpha=q.al, function=my_act), f(q, approx=False))
    def C(name, inp, f, strict, **k): cs.append(Contract(name, {**inp, **S}, both(f), agree(strict), functions=FN, **k))
    C("segments_intersect, default tolerance", PTS, lambda q, **k: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, **k),
      lambda a: inside(a.P1, a.P2, a.P3, a.P4, const(Fr(5, 1000))))
    C("segments_intersect, any tolerance", dict(PTS, tol=real(pool=[0, .005, .25, .5])), lambda q, **k: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, tol=q.tol, **k),
      lambda a: inside(a.P1, a.P2, a.P3, a.P4, a.tol))
    C("Wall.contains_parametric", dict(w=real(2, 2), p=real(1)), lambda q, **k: G.Wall(xys=q.w).contains_parametric(q.p, **k),
      lambda a: conj(a.p[0] > 0, a.p[0] < 1))
    C("Vertex.contains_parametric", dict(v=real(2)), lambda q, **k: G.Vertex(xy=q.v).contains_parametric(jnp.zeros(0), **k), lambda a: TRUE)
    C("Vertex.intersects_cartesian", dict(v=real(2), r=real(2, 2)), lambda q, **k: G.Vertex(xy=q.v).intersects_cartesian(q.r, **k), lambda a: FALSE)
    for cl in (G.Wall, G.RIS):
        C(f"{cl.__name__}.intersects_cartesian", dict(w=real(2, 2), r=real(2, 2), patch=real(pool=[0, .25])),
          lambda q, cl=cl, **k: cl(xys=q.w).intersects_cartesian(q.r, patch=q.patch, **k),
          lambda a: inside(sub2(org(a.w), sc2(a.patch, tvec(a.w))), add2(dst(a.w), sc2(a.patch, tvec(a.w))), a.r[0], a.r[1], const(Fr(5, 1000))))
    # lattice: degenerate and parallel configurations are covered by the contracts above (no precondition)
    for n, cand in ((1, ()), (2, (1,)), (3, (2, 0)), (2, (0, 1, 0)), (4, (3,))):
        k = len(cand)
        I = dict(xys=real(k + 2, 2), ids=real(n), patch=real(pool=[0, .5]), tol=real(pool=[.01, .5]), loss=real(pool=[0, .01, .5]))
        objs = lambda q, n=n: [AObj(q.ids[i]) for i in range(n)]
        B = f"objects/candidates {[(1, ()), (2, (1,)), (3, (2, 0)), (2, (0, 1, 0)), (4, (3,))]} (arbitrary objects and coordinates)"
        jc = lambda cand=cand: jnp.array(cand, dtype=jnp.int32)
        def P(name, f, strict=None, n=n, k=k, cand=cand, I=I, B=B):
            def ens(a, o):
                s, e = o
                ax = pair_axioms(s)
                d = {"in [0,1]": implies(ax, conj(s >= 0, s <= 1)), "above half implies exact": implies(conj(ax, s > HALF), e)}
                if strict: d["strictly inside implies above half"] = implies(conj(ax, strict(a, n, k, cand)), s > HALF)
                return d
            cs.append(Contract(f"{name} {n} objects, candidate {cand}", I, lambda q, f=f: (f(q, approx=True), f(q, approx=False)), ens, functions=FN, bounded=B))
        def strict_on(a, n, k, cand):
            return conj(*[tpred("contains", True, "", a.ids[c], tu("c2p1", a.ids[c], a.xys[i + 1], shape=(1,))) > HALF for i, c in enumerate(cand)])
        def hits(a, n, k, cand, soft):
            ig = [-1, *cand, -1]
            return [tpred("hits", soft, "", a.ids[j], a.xys[i], a.xys[i + 1], a.patch) for i in range(k + 1) for j in range(n) if j not in (ig[i], ig[i + 1])]
        P("Path.on_objects", lambda q, objs=objs, cand=cand, **kw: G.Path(xys=q.xys).on_objects([objs(q)[c] for c in cand], **kw), strict_on)
        P("Path.intersects_with_objects", lambda q, objs=objs, jc=jc, **kw: G.Path(xys=q.xys).intersects_with_objects(objs(q), jc(), patch=q.patch, **kw),
          lambda a, n, k, cand: disj(*[h > HALF for h in hits(a, n, k, cand, True)]))
        P("Path.is_valid", lambda q, objs=objs, jc=jc, cand=cand, **kw: G.Path(xys=q.xys, loss=q.loss).is_valid(objs(q), jc(), [objs(q)[c] for c in cand], tol=q.tol, patch=q.patch, **kw),
          lambda a, n, k, cand: conj(strict_on(a, n, k, cand), *[neg(h) for h in hits(a, n, k, cand, False)], a.loss < a.tol))
    # is_valid over every pair of agreeing callee results: with the contracts of the callees, for any numbers of objects and interactions
    def valid(q, **kw):
        p = CPath(xys=jnp.zeros((2, 2)), loss=q.loss, on=(q.os, q.oe), hit=(q.hs, q.he))
        CALLED.clear(); jax.clear_caches()
        v = p.is_valid([], jnp.zeros(0, dtype=jnp.int32), [], tol=q.tol, **kw)
        if sorted(CALLED) != ["hit", "on"]: raise OutOfReach(f"is_valid goes through {sorted(CALLED)}")
        return v
    def rq(a):
        one = lambda e, s: conj(s >= 0, s <= 1, iff(e >= 1, s >= HALF))
        return [one(a.oe, a.os), one(a.he, a.hs)]
    def vens(a, o):
        s, e = o; ax = act_axioms(s)
        return {"in [0,1]": implies(ax, conj(s >= 0, s <= 1)), "above half implies exact": implies(ax, implies(s > HALF, e)),
                "strictly inside implies above half": implies(conj(ax, a.os > HALF, a.hs < HALF, a.loss < a.tol), s > HALF)}
    cs.append(Contract("Path.is_valid over its callees' contracts", dict(os=real(pool=[0, .4, .5, .6, 1]), oe=real(pool=[0, 1]), hs=real(pool=[0, .4, .5, .6, 1]), he=real(pool=[0, 1]), loss=real(pool=[0, .01, .5]), tol=real(pool=[.01, .5]), al=posreal()),
                       lambda q: (valid(q, approx=True, alpha=q.al, function=my_act), valid(q, approx=False)), vens, requires=rq, functions=FN[-1:], optional=True))
    r.run(cs)
    symc.run(r, SZ.c07)
    return r.finish()
