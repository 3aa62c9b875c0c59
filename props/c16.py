from typing import Any
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from differt2d import geometry as G
from differt2d import utils as U

FN = ("utils.received_power", "geometry.Path.length")


class LPath(G.Path):
    """a path of arbitrary length (contract of Path.length, C13: a non-negative number)"""
    len: Any = None
    def length(self): return self.len


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    N = [*range(0, 7 if tier == "quick" else 12), 13, 24]
    def power(n, spec):
        def f(q, n=n):
            p = LPath(xys=jnp.zeros((n + 2, 2)), len=q.L)
            return spec(q, lambda L=None, m=n, **kw: U.received_power(G.Point(xy=q.tx), G.Point(xy=q.rx), LPath(xys=jnp.zeros((m + 2, 2)), len=q.L if L is None else L), [AObj(q.i)] * m, **kw))
        return f
    BASE = dict(tx=real(2), rx=real(2), L=real(pos="nonneg"), M=real(pos="nonneg"), i=real(), rc=posreal(), h=posreal())
    law = lambda rc, n, L, h: powi(lift(rc), n) / (L * L + h * h)
    for n in N:
        base = dict(BASE, rc=real(pool=[.25, .5, 1, 1.5])) if n > 12 else BASE
        B = f"{n} interactions (every length, coefficient and height)"
        C(f"{n} interactions, given", base, power(n, lambda q, P: P(r_coef=q.rc, height=q.h)), lambda a, o, n=n: {"attenuation law": eq(o, law(a.rc, n, a.L, a.h)), "positive": o > 0}, bounded=B, optional="sampled" if n > 12 else False)
        C(f"{n} interactions, any coefficient", dict(base, rc=real(pool=[-1.5, -.5, 0, .5, 2] if n > 12 else None)), power(n, lambda q, P: P(r_coef=q.rc, height=q.h)), lambda a, o, n=n: {"attenuation law": eq(o, law(a.rc, n, a.L, a.h))}, bounded=B, optional="sampled" if n > 12 else False)
        C(f"{n} interactions, defaults", base, power(n, lambda q, P: (P(), P(r_coef=q.rc), P(height=q.h))), lambda a, o, n=n: {
            "attenuation law": eq(o[0], law(HALF, n, a.L, const(Fr(1, 10)))), "default height": eq(o[1], law(a.rc, n, a.L, const(Fr(1, 10)))), "default coefficient": eq(o[2], law(HALF, n, a.L, a.h))}, bounded=B, optional="sampled" if n > 12 else False)
        C(f"{n} interactions, monotone", base, power(n, lambda q, P, n=n: (P(r_coef=q.rc, height=q.h), P(q.M, r_coef=q.rc, height=q.h), P(jnp.array(0.0), r_coef=q.rc, height=q.h), P(m=n + 1, r_coef=q.rc, height=q.h))), lambda a, o: {
            "strictly decreasing in the length": implies(a.L < a.M, o[0] > o[1]), "bounded by the value at zero length": o[0] <= o[2], "one more interaction multiplies by r_coef": eq(o[3], a.rc * o[0])}, bounded=B, optional="sampled" if n > 12 else False)
        # whatever the objects are 
        C(f"{n} interactions, other objects", base, lambda q, n=n: tuple(U.received_power(G.Point(xy=q.tx), G.Point(xy=q.rx), LPath(xys=jnp.zeros((n + 2, 2)), len=q.L), obj, r_coef=q.rc, height=q.h) for obj in ([AObj(q.i)] * n, [G.Vertex(xy=q.tx)] * n, [G.RIS(xys=jnp.stack([q.tx, q.rx]), phi=q.i)] * n)),
          lambda a, o, n=n: {f"attenuation law ({k})": eq(x, law(a.rc, n, a.L, a.h)) for k, x in zip(("objects", "vertices", "surfaces"), o)}, bounded=B, optional="sampled" if n > 12 else False)
        for cl in (G.Path, G.ImagePath, G.FermatPath, G.MinPath):
            C(f"{cl.__name__} with {n} interactions", dict(xys=real(n + 2, 2), rc=real(pool=[-1.5, -.5, 0, .5, 2] if n > 12 else None), h=posreal(), tx=real(2), rx=real(2), w=real(2, 2), l=real()), lambda q, n=n, cl=cl: (
                (lambda p: (U.received_power(G.Point(xy=q.tx), G.Vertex(xy=q.rx), p, [G.Wall(xys=q.w)] * (n // 2) + [G.Vertex(xy=q.tx)] * (n - n // 2), r_coef=q.rc, height=q.h), p.length()))(cl(xys=q.xys, loss=q.l))),
              lambda a, o, n=n: {"attenuation law": eq(o[0], law(a.rc, n, o[1], a.h))}, bounded=B, optional="sampled" if n > 12 else False)
    r.run(cs)
    symc.run(r, SZ.c16)
    BIG.run(r, "sizes next to a number in the source", BIG.c16())
    return r.finish()
