"""Closest transmitter / receiver."""
import itertools
import unittest.mock as um
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from differt2d import geometry as G
from differt2d import scene as S

NAMES = ["b", "a", "tx_10", "tx_2", "Z", "0", "tx", "rx"]


def dists(a, n): return [norm(sub2(a.p[k], a.t)) for k in range(n)]


def check(r, tier):
    cs = []
    def C(n, i, f, e, fn=(), **k): cs.append(Contract(n, i, f, e, functions=fn, **k))
    # ---------------------------------------------------------------- callee
    for n in [*range(1, 8 if tier == "quick" else 13), 20, 50]:
        def fn(q, n=n):
            i, d = G.closest_point(q.p, q.t)
            return jnp.asarray(i), d
        def ens(a, o, n=n):
            i, d = o
            D = dists(a, n)
            return {"an index of a point": disj(*[eq(i, k) for k in range(n)]), "distance of that point": conj(d >= 0, *[implies(eq(i, k), eq(d, D[k])) for k in range(n)]),
                    **{f"at most the distance of point {k}": d <= D[k] for k in range(n)}}
        C(f"closest_point, {n} points", dict(p=real(n, 2), t=real(2)), fn, ens, ("geometry.closest_point",), bounded=f"{n} points (any positions)", timeout=20, optional="sampled" if n > 12 else False, cut=lambda a, o, l, n=n: dists(a, n))
    # ---------------------------------------------------------------- callers, against the contract of the callee
    for kind in ("transmitter", "receiver"):
        for n in range(1, 6):
            for k in range(n):
                def fn(q, n=n, k=k, kind=kind):
                    calls = []
                    def stub(points, target):
                        calls.append((points, target)); return np.asarray(k), q.d
                    ents = {NAMES[j]: G.Point(xy=q.p[j]) for j in range(n)}; others = {"other": G.Point(xy=q.o), NAMES[k]: G.Point(xy=q.o)}
                    s = S.Scene(**({"transmitters": ents, "receivers": others} if kind == "transmitter" else {"transmitters": others, "receivers": ents}))
                    if not hasattr(S, "closest_point"): raise OutOfReach("the scene module does not use closest_point")
                    with um.patch.object(S, "closest_point", stub):
                        try: nm, d = getattr(s, f"get_closest_{kind}")(q.t)
                        except Exception as e: raise OutOfReach(f"{type(e).__name__}: the query does not go through closest_point")
                    if len(calls) != 1: raise OutOfReach("the query does not go through one call of closest_point")
                    if nm not in ents: raise StructViolation(f"returns {nm!r}, not one of {list(ents)}")
                    return calls[0][0], calls[0][1], d, jnp.array(list(ents).index(nm)), ents[nm].xy
                def ens(a, o, n=n, k=k):
                    P, t, d, i, xy = o
                    return {"queries every entity's point": conj(*[disj(*[eqv(P[j], a.p[m]) for j in range(len(P))]) for m in range(n)]),
                            "queries nothing else": conj(*[disj(*[eqv(P[j], a.p[m]) for m in range(n)]) for j in range(len(P))]),
                            "returns the name of the selected point": eqv(P[k], xy), "with the given coordinates": eqv(t, a.t), "returns the callee's distance": eq(d, a.d)}
                C(f"get_closest_{kind}, entity {k} of {n}", dict(p=real(n, 2), o=real(2), t=real(2), d=real()), fn, ens,
                  (f"scene.Scene.get_closest_{kind}",), bounded=f"{n} entities", optional=True)
    r.run(cs)
    # ---------------------------------------------------------------- end to end, bounded
    lat = [0.0, 1.0, 2.5]
    pos = [np.array(p) for p in itertools.product(lat, lat)]
    rng = np.random.default_rng(SEED)
    N = 12 if tier == "quick" else 80
    for kind in ("transmitter", "receiver"):
        for n in (1, 2, 3, 4, 5, 6, 11, 23, 40, 140):
            if not r.mine(n + 3 * (kind == "receiver")): continue
            for k in range(N):
                pts = [pos[rng.integers(9)] if k % 2 else rng.normal(size=2) for _ in range(n)]
                t = pos[rng.integers(9)] if k % 3 else rng.normal(size=2)
                if k % 4 == 3: pts, t = [1e5 * (1 + kk) + np.round(p * 4) for kk in (k % 3,) for p in pts], 1e5 * (1 + k % 3) + np.round(t * 4)
                names = [str(x) for x in rng.permutation(NAMES + [f"n{j}" for j in range(n - len(NAMES))])[:n]]
                ents = {nm: G.Point(xy=jnp.asarray(p)) for nm, p in zip(names, pts)}; others = {"o": G.Point(xy=jnp.asarray(t))}
                s = S.Scene(**({"transmitters": ents, "receivers": others} if kind == "transmitter" else {"transmitters": others, "receivers": ents}))
                try:
                    nm, d = getattr(s, f"get_closest_{kind}")(jnp.asarray(t))
                    D = {x: float(np.linalg.norm(p - t)) for x, p in zip(names, pts)}
                    ok = nm in D and abs(float(d) - D[nm]) <= 1e-5 * (1 + D[nm]) and D[nm] <= min(D.values()) + 1e-5
                    det = f"returns {nm!r}, {float(d)}; distances {D}"
                except Exception as e: ok, det = False, f"raises {type(e).__name__}: {e}"
                r.manual_obligation(f"get_closest_{kind} end to end", f"{n} entities, case {k}", ok, "concrete execution", det, bounded="sampled positions, up to 140 entities", inputs={"names": names, "points": [list(map(float, p)) for p in pts], "coords": list(map(float, t))})
                if not ok: break
    symc.run(r, SZ.c19)
    BIG.run(r, "sizes next to a number in the source", BIG.c19())
    return r.finish()
