from engine.verify import *
from differt2d import geometry as G

PTS = dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2))


def cross(a, b): return a[0] * b[1] - a[1] * b[0]


def spec(a, tol):
    """Supporting lines cross in one point, with both parameters in [-tol, 1+tol]."""
    u = [a.P2[i] - a.P1[i] for i in (0, 1)]
    v = [a.P4[i] - a.P3[i] for i in (0, 1)]
    w = [a.P3[i] - a.P1[i] for i in (0, 1)]
    den = cross(u, v)
    s = cross(w, v) / den
    t = cross(w, u) / den
    return conj(ne(den, 0), s >= -tol, s <= 1 + tol, t >= -tol, t <= 1 + tol)


def check(r, tier):
    cs = []
    f = ("geometry.segments_intersect",)
    for mode in (False, True):
        g = "global approx" if mode else "global exact"
        cs.append(Contract(f"segments_intersect exact, default tol ({g})", PTS,
            lambda x: G.segments_intersect(x.P1, x.P2, x.P3, x.P4, approx=False),
            lambda a, o: {"iff": eq(o, spec(a, Fr(5, 1000)))}, functions=f, mode=mode))
    cs.append(Contract("segments_intersect exact, any tol", dict(PTS, tol=real(pool=[0, .005, .125, .5, -.125, -.25, -.5, -1])),
        lambda x: G.segments_intersect(x.P1, x.P2, x.P3, x.P4, tol=x.tol, approx=False),
        lambda a, o: {"iff": eq(o, spec(a, a.tol))}, functions=f))
    cs.append(Contract("segments_intersect witness", dict(PTS, s=real(), t=real(), tol=real(pool=[0, .005, .5, -.125])),
        lambda x: G.segments_intersect(x.P1, x.P2, x.P3, x.P4, tol=x.tol, approx=False),
        lambda a, o: {"meeting point implies intersection": o},
        requires=lambda a: [eq(a.P1[i] + a.s * (a.P2[i] - a.P1[i]), a.P3[i] + a.t * (a.P4[i] - a.P3[i])) for i in (0, 1)]
            + [ne(cross([a.P2[i] - a.P1[i] for i in (0, 1)], [a.P4[i] - a.P3[i] for i in (0, 1)]), 0),
               a.s >= -a.tol, a.s <= 1 + a.tol, a.t >= -a.tol, a.t <= 1 + a.tol],
        gen=meet, functions=f))
    perms = {"swap ends of first": "P2 P1 P3 P4", "swap ends of second": "P1 P2 P4 P3", "exchange segments": "P3 P4 P1 P2"}
    for n, p in perms.items():
        q = p.split()
        cs.append(Contract("segments_intersect symmetric: " + n, PTS,
            lambda x, q=q: (G.segments_intersect(x.P1, x.P2, x.P3, x.P4, approx=False), G.segments_intersect(*[getattr(x, k) for k in q], approx=False)),
            lambda a, o: {"same": eq(o[0], o[1])}, functions=f))
    r.run(cs)
    return r.finish()


def meet(rng, i):
    P1, P2, P4 = (rng.integers(-8, 9, size=2) / 4 for _ in range(3))
    s = rng.choice([0, .25, .5, 1]); t = rng.choice([0, 0.5])
    X = P1 + s * (P2 - P1)
    P3 = (X - t * P4) / (1 - t)
    return dict(P1=P1, P2=P2, P3=P3, P4=P4, s=s, t=t)
