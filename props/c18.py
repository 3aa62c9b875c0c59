"""Extents: bounding boxes, locations, grids."""
from typing import Any
import equinox as eqx
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from differt2d import geometry as G
from differt2d.abc import Plottable
from differt2d.scene import Scene

LOCS = {"N": (.5, 1), "E": (1, .5), "S": (.5, 0), "W": (0, .5), "C": (.5, .5), "NE": (1, 1), "NW": (0, 1), "SE": (1, 0), "SW": (0, 0)}


class Box(eqx.Module, Plottable):
    """anything with an extent"""
    box: Any = None
    def plot(self, ax, *a, **k): return []
    def bounding_box(self): return self.box


class BObj(AObj):
    box: Any = None
    def bounding_box(self): return self.box


def tight(o, pts):
    """o is the coordinate-wise minimum and maximum of pts: encloses all of them, and each side is attained"""
    g = {}
    for k, nm in ((0, "x"), (1, "y")):
        g[f"{nm} encloses"] = conj(*[conj(o[0, k] <= p[k], p[k] <= o[1, k]) for p in pts])
        g[f"{nm} tight"] = conj(disj(*[eq(o[0, k], p[k]) for p in pts]), disj(*[eq(o[1, k], p[k]) for p in pts]))
    return g


def between(v, lo, hi, f): return eq(v, lo + Fr(str(f)) * (hi - lo))


def check(r, tier):
    cs = []
    def C(n, i, f, e, fn=(), **k): cs.append(Contract(n, i, f, e, functions=fn, **k))
    # ---------------------------------------------------------------- bounding boxes
    for cl in (G.Point, G.Vertex):
        C(f"{cl.__name__}.bounding_box", dict(xy=real(2)), lambda q, cl=cl: cl(xy=q.xy).bounding_box(), lambda a, o: tight(o, [a.xy]), ("geometry.Point.bounding_box",))
    for cl in (G.Ray, G.Wall, G.RIS):
        C(f"{cl.__name__}.bounding_box", dict(xys=real(2, 2)), lambda q, cl=cl: cl(xys=q.xys).bounding_box(), lambda a, o: tight(o, list(a.xys)), ("geometry.Ray.bounding_box",))
    for n in [*range(2, 9 if tier == "quick" else 17), 20, 40]:
        for cl in (G.Path, G.ImagePath, G.FermatPath, G.MinPath)[:4 if n < 4 else 1]:
            C(f"{cl.__name__}.bounding_box, {n} points", dict(xys=real(n, 2)), lambda q, cl=cl: cl(xys=q.xys).bounding_box(), lambda a, o: tight(o, list(a.xys)), ("geometry.Path.bounding_box",), bounded=f"{n} points", optional="sampled" if n >= 20 else False)
    S = [(t, w, x) for t in range(4) for w in range(4) for x in range(4) if 1 <= t + w + x <= 5] if tier != "quick" else \
        [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (0, 3, 0), (3, 0, 0), (0, 0, 3), (1, 3, 2)]
    big = [(7, 9, 8), (12, 1, 17), (1, 20, 1), (33, 0, 1)]
    for t, w, x in S + big:
        C(f"Scene.bounding_box, {t} transmitters, {w} objects, {x} receivers", dict(tx=real(max(t, 1), 2), rx=real(max(x, 1), 2), bb=real(max(w, 1), 2, 2)),
          lambda q, t=t, w=w, x=x: Scene(transmitters={f"t{i}": G.Point(xy=q.tx[i]) for i in range(t)}, receivers={f"r{i}": G.Point(xy=q.rx[i]) for i in range(x)},
                                         objects=[BObj(ident=0.0, box=q.bb[i]) for i in range(w)]).bounding_box(),
          lambda a, o, t=t, w=w, x=x: tight(o, [a.tx[i] for i in range(t)] + [a.rx[i] for i in range(x)] + [a.bb[i, k] for i in range(w) for k in range(2)]),
          ("scene.Scene.bounding_box",), bounded=f"{t} transmitters, {w} arbitrary objects, {x} receivers",
          optional="sampled" if (t, w, x) in big else False,
          requires=lambda a, w=w: [conj(a.bb[i, 0, k] <= a.bb[i, 1, k]) for i in range(w) for k in range(2)])
    # ---------------------------------------------------------------- a box of any origin
    B = dict(b=real(2, 2))
    C("center", B, lambda q: Box(box=q.b).center(), lambda a, o: {"middle": conj(*[between(o[k], a.b[0, k], a.b[1, k], .5) for k in range(2)])}, ("abc.Plottable.center",))
    for l, (fx, fy) in LOCS.items():
        C(f"location {l}", B, lambda q, l=l: Box(box=q.b).get_location(l), lambda a, o, fx=fx, fy=fy: {"x": between(o[0], a.b[0, 0], a.b[1, 0], fx), "y": between(o[1], a.b[0, 1], a.b[1, 1], fy)}, ("abc.Plottable.get_location",))
    sizes = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 5), (5, 2), (4, 4), (7, 3), (3, None), (6, None), (2, None), (1, None), (3, 0), (0, 2), (0, None)] + ([(6, 7), (8, 9), (10, 11), (12, 13), (14, 15), (16, 17), (5, 6), (7, 8), (9, 10), (11, 12), (13, 14), (15, 16), (None, None), (50, 3), (3, 50)] if tier == "quick" else
            [(m, n) for m in range(1, 9) for n in range(1, 9)][2:] + [(None, None), (50, 7), (100, None), (64, 33)])
    for m, n in dict.fromkeys(sizes):
        M = 50 if m is None else m; N = M if n is None else n
        kw = {k: v for k, v in (("m", m), ("n", n)) if v is not None}
        def fn(q, kw=kw, M=M, N=N):
            X, Y = Box(box=q.b).grid(**kw)
            if X.shape != (N, M) or Y.shape != (N, M): raise StructViolation(f"grid({kw}) has shapes {X.shape}, {Y.shape}, expected {N} rows and {M} columns")
            return X, Y
        def ens(a, o, M=M, N=N):
            X, Y = o; (x0, y0), (x1, y1) = a.b
            step = lambda lo, hi, j, n: lo if n == 1 else lo + Fr(j, n - 1) * (hi - lo)
            return {"size": TRUE} if not M * N else {"X is evenly spaced along columns, from edge to edge": conj(*[eq(X[i, j], step(x0, x1, j, M)) for i in range(N) for j in range(M)]),
                    "Y is evenly spaced along rows, from edge to edge": conj(*[eq(Y[i, j], step(y0, y1, i, N)) for i in range(N) for j in range(M)])}
        C(f"grid {kw}", B, fn, ens, ("abc.Plottable.grid",), bounded=f"grid of {M} columns and {N} rows (any box)")
    # ---------------------------------------------------------------- the real classes use the generic operations with their own box
    cases = {"Point": (dict(v=real(2)), lambda q: G.Point(xy=q.v)), "Vertex": (dict(v=real(2)), lambda q: G.Vertex(xy=q.v)), "Wall": (dict(v=real(2, 2)), lambda q: G.Wall(xys=q.v)), "RIS": (dict(v=real(2, 2)), lambda q: G.RIS(xys=q.v)),
             "Path": (dict(v=real(3, 2)), lambda q: G.Path(xys=q.v)), "ImagePath": (dict(v=real(4, 2)), lambda q: G.ImagePath(xys=q.v)),
             "Scene": (dict(v=real(4, 2)), lambda q: Scene(transmitters={"a": G.Point(xy=q.v[0])}, receivers={"b": G.Point(xy=q.v[1])}, objects=[G.Wall(xys=q.v[2:])]))}
    for nm, (I, mk_) in cases.items():
        def fn(q, mk_=mk_):
            x = mk_(q); b = x.bounding_box(); y = Box(box=b)
            return [(x.center(), y.center()), x.grid(3, 2), y.grid(3, 2), [(x.get_location(l), y.get_location(l)) for l in LOCS]]
        C(f"{nm}: generic operations on its own box", I, fn, lambda a, o: {"center": eqv(o[0][0], o[0][1]), "grid": conj(*[eq(u, v) for s in range(2) for u, v in zip(o[1][s].reshape(-1), o[2][s].reshape(-1))]), "locations": conj(*[eqv(*p) for p in o[3]])},
          ("abc.Plottable.center", "abc.Plottable.grid", "abc.Plottable.get_location"), bounded="path of 3 or 4 points, scene of one wall" if nm in ("Path", "ImagePath", "Scene") else None)
    r.run(cs)
    symc.run(r, SZ.c18)
    BIG.run(r, "sizes next to a number in the source", BIG.c18())
    return r.finish()
