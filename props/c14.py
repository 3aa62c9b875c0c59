"""Validity of a path, for arbitrary objects and candidates, with losses and truth values that may be infinite or not a number."""
from typing import Any
import equinox as eqx
from engine.verify import *
from props import big as BIG
from props.spec import *
from props.abstract import *
from differt2d import geometry as G

FN = ("geometry.Path.is_valid", "geometry.Path.on_objects", "geometry.Path.intersects_with_objects")


class NObj(AObj):
    """its truth values are given, possibly NaN"""
    c: Any = None
    h: Any = None
    def contains_parametric(self, param_coords, approx=None, **kw): return self.c
    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kw): return self.h


CALLED = []


def called():
    """both callees were consulted; otherwise the modular contract does not apply, and the ones with the real callees decide"""
    if sorted(CALLED) != ["hit", "on"]: raise OutOfReach(f"is_valid goes through {sorted(CALLED)}")


class SPath(G.Path):
    """contracts of the two callees (C15): some truth value, possibly not a number, depending on what they are given"""
    on: Any = None
    hit: Any = None
    def on_objects(self, objects, approx=None, **kw):
        if [type(o) for o in objects] != [AObj2]: raise OutOfReach("containment is not evaluated on the interacting objects")
        if (approx, sorted(kw)) not in ((False, []), (True, ["alpha", "function"])): raise OutOfReach(f"on_objects called with {approx} {kw}")
        CALLED.append("on")
        return self.on
    def intersects_with_objects(self, objects, path_candidate, patch=0.0, approx=None, **kw):
        if [type(o) for o in objects] != [AObj, AObj0]: raise OutOfReach("obstruction is not evaluated on the scene's objects")
        if (approx, sorted(kw)) not in ((False, []), (True, ["alpha", "function"])): raise OutOfReach(f"intersects_with_objects called with {approx} {kw}")
        CALLED.append("hit")
        return pred("obs", False, {}, self.hit, path_candidate, jnp.asarray(patch, dtype=float)) if not approx else \
            jnp.where(jnp.isnan(self.hit), jnp.nan, pred("obs", True, {}, self.hit, path_candidate, jnp.asarray(patch, dtype=float)))


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, raw=True, **k))
    PC = [G.Path, G.ImagePath, G.FermatPath, G.MinPath]
    sizes = [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2)] + ([] if tier == "quick" else [(3, 3), (4, 2), (4, 3)])
    big = [(7, 1), (9, 0)]
    for (n, k) in sizes + big:
        for tolgiven in (True, False):
            for mode in (False, True):
                cl = PC[(n + k) % 4]
                B = f"{n} objects, {k} interactions (arbitrary objects, coordinates, candidate and loss)"
                I = dict(xys=real(k + 2, 2), ids=real(max(n, 1)), c=integer(k, lo=0, hi=max(n - 1, 0)), loss=ext(), tol=real(pool=[.01, .5, 1]), al=posreal())
                def fn(q, n=n, k=k, tolgiven=tolgiven, mode=mode, cl=cl):
                    objs = [AObj(q.ids[i]) for i in range(n)]
                    inter = [AObj(q.ids[q.c[i]]) for i in range(k)]
                    p = cl(xys=q.xys, loss=q.loss)
                    kw = dict(approx=mode, alpha=q.al, function=my_act) if mode else dict(approx=mode)
                    v = p.is_valid(objs, q.c, inter, **kw, **(dict(tol=q.tol) if tolgiven else {}))
                    return v, p.on_objects(inter, **kw), p.intersects_with_objects(objs, q.c, **kw), L.less(q.loss, q.tol if tolgiven else jnp.array(0.01), **kw)
                def ens(a, o, tolgiven=tolgiven, mode=mode):
                    l = a.loss; tol = (a.tol.v if isinstance(a.tol, F) else a.tol) if tolgiven else const(Fr(1, 100))
                    V = o[0]
                    if not mode:
                        conv = conj(neg(l.nan), neg(l.pinf), disj(l.ninf, l.v < tol))
                        return {"iff contained, unobstructed and converged": iff(V, conj(o[1], neg(o[2]), conv))}
                    d = {"a number": neg(V.special), "not a number is not valid": implies(disj(l.nan, o[1].nan, o[2].nan), eq(V.v, 0)),
                         "minimum of the three truth values": implies(neg(disj(l.nan, o[1].special, o[2].special, o[3].special)), eq(V.v, mint(mint(o[1].v, ONE - o[2].v), o[3].v))),
                         "convergence is a number unless the loss is not": implies(o[3].special, l.nan)}
                    return d
                C(f"{cl.__name__}, {n} objects, order {k}, approx={mode}, tol {'given' if tolgiven else 'default'}", I, fn, ens, bounded=B, optional="sampled" if (n, k) in big else False)
    # the callees replaced by their contracts: nothing depends on the numbers of objects and interactions
    for mode in (False, True):
        def fn(q, mode=mode):
            kw = dict(approx=True, alpha=q.al, function=my_act) if mode else dict(approx=False)
            p = SPath(xys=q.xys, loss=q.loss, on=q.on if mode else q.on > 0, hit=q.hit)
            CALLED.clear(); jax.clear_caches()
            v = p.is_valid([AObj(q.i), AObj0(q.i)], q.c, [AObj2(q.i)], tol=q.tol, patch=q.patch, **kw)
            called()
            return v, p.on, p.intersects_with_objects([AObj(q.i), AObj0(q.i)], q.c, patch=q.patch, **kw), L.less(q.loss, q.tol, **kw)
        def ens(a, o, mode=mode):
            if not mode: return {"iff contained, unobstructed and converged": iff(o[0], conj(o[1], neg(o[2]), o[3]))}
            bad = disj(*[x.nan for x in o[1:]])
            return {"a number": neg(o[0].special), "not a number is not valid": implies(bad, eq(o[0].v, 0)),
                    "minimum of the three truth values": implies(neg(bad), eq(o[0].v, mint(mint(o[1].v, ONE - o[2].v), o[3].v)))}
        C(f"is_valid, approx={mode}", dict(xys=real(3, 2), loss=ext(), on=ext(), hit=ext(), tol=real(pool=[.01, .5]), patch=real(), al=posreal(), i=real(), c=integer(1, lo=0, hi=1)), fn, ens,
          requires=lambda a: [conj(neg(x.pinf), neg(x.ninf)) for x in (a.on, a.hit)])
    for (n, k) in sizes[1:5 if tier == "quick" else None]:
        I = dict(xys=real(k + 2, 2), ct=ext(n), ht=ext(n), c=integer(k, lo=0, hi=n - 1), loss=ext())
        def fn(q, n=n, k=k):
            objs = [NObj(ident=jnp.array(0.0), c=q.ct[i], h=q.ht[i]) for i in range(n)]
            inter = [NObj(ident=jnp.array(0.0), c=q.ct[q.c[i]], h=jnp.array(0.0)) for i in range(k)]
            return G.Path(xys=q.xys, loss=q.loss).is_valid(objs, q.c, inter, approx=True, function=my_act, alpha=1.0)
        def ens(a, o, n=n, k=k):
            ci = [a.c[i].v if isinstance(a.c[i], F) else a.c[i] for i in range(k)]
            ig = [const(-1), *ci, const(-1)]
            bad = [a.loss.nan]; parts = []
            for i in range(k):
                for j in range(n): bad.append(conj(eq(ci[i], j), a.ct[j].nan)); parts.append((eq(ci[i], j), a.ct[j].v))
            for i in range(k + 1):
                for j in range(n):
                    use = neg(disj(eq(ig[i], j), eq(ig[i + 1], j)))
                    bad.append(conj(use, a.ht[j].nan)); parts.append((use, ONE - a.ht[j].v))
            B = disj(*bad)
            return {"a number": neg(o.special), "not a number is not valid": implies(B, eq(o.v, 0)), "at most every truth value": implies(neg(B), conj(*[implies(c, o.v <= v) for c, v in parts]))}
        C(f"truth values that are not a number, {n} objects, order {k}", I, fn, ens, bounded=f"{n} objects, {k} interactions",
          requires=lambda a: [conj(neg(x.pinf), neg(x.ninf), x.v >= 0, x.v <= 1) for v in (a.ct, a.ht) for x in v.reshape(-1)], gen=lambda rng, s, n=n: {
              "ct": np.where(rng.integers(0, 4, size=n) == 0, np.nan, rng.integers(0, 5, size=n) / 4.0), "ht": np.where(rng.integers(0, 4, size=n) == 0, np.nan, rng.integers(0, 5, size=n) / 4.0)})
    r.run(cs)
    BIG.run(r, "sizes next to a number in the source", BIG.c14())
    return r.finish()
