"""Length.  The polyline's length is the sum of its segments' lengths (exact identity); one segment is then compared with the
Euclidean distance within TOL (the code perturbs every coordinate difference by the machine epsilon)."""
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from differt2d import geometry as G

FN = ("geometry.path_length", "geometry.Path.length")
TOL = const(Fr(1, 2000000))                # 5e-7, a few single-precision epsilons


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    L = G.path_length
    seg = dict(p=real(2, 2))
    C("one segment", seg, lambda q: L(q.p), lambda a, o: (lambda d: {"non-negative": o >= 0, "at most the distance": o <= d + TOL, "at least the distance": o >= d - TOL})(norm(sub2(a.p[1], a.p[0]))), timeout=20.0, tol=1e-9)
    C("coincident points", dict(p=real(2)), lambda q: L(jnp.stack([q.p, q.p])), lambda a, o: {"zero up to the perturbation": conj(o >= 0, o <= TOL)})
    C("one segment, reversed", seg, lambda q: L(q.p[::-1]), lambda a, o: (lambda d: {"at most the distance": o <= d + TOL, "at least the distance": o >= d - TOL})(norm(sub2(a.p[1], a.p[0]))), timeout=20.0, tol=1e-9)
    C("a detour is never shorter", dict(p=real(3, 2)), lambda q: (L(q.p[:1].repeat(2, 0)), q.p), lambda a, o: {"triangle inequality": norm(sub2(a.p[2], a.p[0])) <= norm(sub2(a.p[1], a.p[0])) + norm(sub2(a.p[2], a.p[1]))}, timeout=20.0)
    for n in [*range(2, 7 if tier == "quick" else 12), 17, 40]:
        B = f"{n} points (all coordinates)" if n > 2 else None
        for cl in (G.Path, G.ImagePath, G.FermatPath, G.MinPath):
            C(f"{cl.__name__}, {n} points", dict(p=real(n, 2), l=real()), lambda q, n=n, cl=cl: (cl(xys=q.p, loss=q.l).length(), L(q.p), [L(q.p[i:i + 2]) for i in range(n - 1)]),
              lambda a, o: {"sum of the segments": eq(o[0], sum(o[2], ZERO)), "path_length": eq(o[1], sum(o[2], ZERO)), "non-negative": o[0] >= 0}, bounded=B, optional="sampled" if n > 12 else False)
        C(f"translation, {n} points", dict(p=real(n, 2), v=real(2)), lambda q: (L(q.p), L(q.p + q.v)), lambda a, o: {"unchanged": eq(o[0], o[1])}, bounded=B, optional="sampled" if n > 12 else False)
    r.run(cs)
    symc.run(r, SZ.c13)
    BIG.run(r, "sizes next to a number in the source", BIG.c13())
    return r.finish()
