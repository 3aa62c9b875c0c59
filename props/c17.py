"""Rotation.

Known finding: Ray.rotate computes R @ xys, which mixes the two end points.  The check first decides (by one run) whether the
code is the recorded wrong one; if so every obligation is proved of exactly the recorded formula and the finding is reported,
otherwise every obligation is proved of the property.  Any other behaviour violates whichever was selected."""
from engine.verify import *
from props.spec import *
from differt2d import geometry as G

FN = ("geometry.Ray.rotate",)


def rot(th, p, c):
    d = sub2(p, c); s, k = sin(th), cos(th)
    return add2([k * d[0] - s * d[1], s * d[0] + k * d[1]], c)


def wrong(th, xys, c):
    """row k of R @ (xys - c) + c"""
    d = [sub2(xys[k], c) for k in range(2)]; s, k = sin(th), cos(th)
    return [add2([k * d[0][j] - s * d[1][j] for j in range(2)], c), add2([s * d[0][j] + k * d[1][j] for j in range(2)], c)]


def recorded_defect():
    try:
        x = np.array([[1.0, 2.0], [4.0, 8.5]]); c = np.array([.5, -.25]); t = .7
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        o = np.asarray(G.Ray(xys=jnp.asarray(x)).rotate(t, around=jnp.asarray(c)).xys)
        return bool(np.allclose(o, R @ (x - c) + c, atol=1e-4))
    except Exception:
        return False


def check(r, tier):
    cs = []
    known = recorded_defect()
    if known: r.known.append("KNOWN-FINDING: property=C17 Ray.rotate computes R @ xys instead of xys @ R.T: the two end points are mixed with each other, so it is not a rotation of the plane about the centre")
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    Z = [ZERO, ZERO]
    def image(th, xys, c): return wrong(th, xys, c) if known else [rot(th, xys[k], c) for k in range(2)]
    def same(o, want): return conj(*[eqv(o[k], want[k]) for k in range(2)])
    KIND = {"Ray": lambda q: G.Ray(xys=q.xys), "Wall": lambda q: G.Wall(xys=q.xys), "RIS": lambda q: G.RIS(xys=q.xys, phi=q.phi)}
    AROUND = {"origin by default": lambda q: {}, "None": lambda q: dict(around=None), "coordinates": lambda q: dict(around=q.c), "a point": lambda q: dict(around=G.Point(xy=q.c)), "a vertex": lambda q: dict(around=G.Vertex(xy=q.c))}
    I = dict(xys=real(2, 2), phi=real(), th=real(), c=real(2))
    for kn, mk_ in KIND.items():
        for an, ar in AROUND.items():
            d = an in ("origin by default", "None")
            def fn(q, mk_=mk_, ar=ar, kn=kn):
                x = mk_(q); before = x.xys
                y = x.rotate(q.th, **ar(q))
                if type(y) is not type(x): raise StructViolation(f"rotating a {kn} gives a {type(y).__name__}")
                if x.xys is not before: raise StructViolation("the original is modified")
                if jax.tree_util.tree_structure(y) != jax.tree_util.tree_structure(x): raise StructViolation("fields are lost")
                rest = [l for l in (y.phi,)] if kn == "RIS" else []
                return y.xys, rest, x.rotate(jnp.array(0.0), **ar(q)).xys, y.rotate(-q.th, **ar(q)).xys, y.origin(), y.dest()
            def ens(a, o, d=d, kn=kn):
                c = Z if d else a.c
                w = image(a.th, a.xys, c)
                g = {"rotated end points" if not known else "recorded formula": same(o[0], w), "rotating by zero": same(o[2], a.xys), "rotating back": same(o[3], a.xys),
                     "origin and destination": conj(eqv(o[4], w[0]), eqv(o[5], w[1]))}
                if kn == "RIS": g["other fields unchanged"] = eq(o[1][0], a.phi)
                if not known:
                    g["distances to the centre preserved"] = conj(*[eq(norm2(sub2(o[0][k], c)), norm2(sub2(a.xys[k], c))) for k in range(2)])
                    g["length preserved"] = eq(norm2(sub2(o[0][0], o[0][1])), norm2(sub2(a.xys[0], a.xys[1])))
                return g
            C(f"{kn}.rotate about {an}", I, fn, ens)
    # concrete angles (plain numbers)
    for t in (0.0, 0.5, -1.25, 3.0, 7.0):
        tt = const(Fr(str(t)))
        C(f"plain angle {t}", dict(xys=real(2, 2), c=real(2)), lambda q, t=t: G.Wall(xys=q.xys).rotate(t, around=q.c).xys, lambda a, o, tt=tt: {"rotated end points": same(o, image(tt, a.xys, a.c))}, bounded=f"angle {t}")
    r.run(cs)
    return r.finish()
