"""GeoJSON import.  The decoder is replaced by one that returns symbolic coordinates (proof for all coordinate values); real JSON texts are executed too."""
import functools
import io
import json as _json
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP
import differt2d.scene as SC

FN = ("scene.Scene.from_geojson", "scene.Scene.with_transmitters", "scene.Scene.with_receivers")
LOCS = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]


def loc_spec(lo, hi, loc):
    """lo, hi: pairs (numbers); -> position"""
    x = {"E": hi[0], "W": lo[0]}; y = {"N": hi[1], "S": lo[1]}
    px, py = (lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2
    for c in loc:
        px = x.get(c, px); py = y.get(c, py)
    return px, py


# features: (kind, ...); a ring is a number of vertices
SHAPES = {
    "triangle": [("poly", [3])], "square closed": [("poly", ["closed4"])], "pentagon": [("poly", [5])], "two polygons": [("poly", [3]), ("poly", [4])],
    "polygon with holes": [("poly", [4, 3, 3])], "segment": [("poly", [2])], "single vertex": [("poly", [1])],
    "mixed": [("point",), ("poly", [3]), ("none",), ("multi", [3]), ("null",), ("poly", [4]), ("line", 3)],
    "non-polygons first": [("line", 4), ("multi", [4]), ("multi", [3]), ("null",), ("poly", [3])],
    "many": [("poly", [3]), ("poly", [3, 3]), ("poly", [4])], "many vertices": [("poly", [41])], "twenty polygons": [("poly", [3 + i % 3]) for i in range(20)], "geometry collection": [("collection", [3]), ("poly", [3]), ("collection", [4])], "other types": [("odd", "polygon"), ("poly", [3]), ("odd", "POLYGON"), ("odd", "Polygons"), ("odd", "Poly"), ("poly", [3])], "polygon last": [("empty",), ("poly", [3]), ("emptygeom",)],
}
NOWALL = {"no feature": [], "points only": [("point",), ("line", 2)], "null geometry": [("null",), ("none",)], "empty polygon": [("empty",)], "multi polygon only": [("multi", [4])], "no features key": None}


def build(spec, nxt):
    """-> (dictionary, walls); nxt() yields a fresh vertex"""
    if spec is None: return {"type": "FeatureCollection"}, [], []
    fs, walls, sizes = [], [], []
    for f in spec:
        k = f[0]
        def ring(n):
            if n == "closed4":
                v = [nxt() for _ in range(4)]; return v + [v[0]]
            return [nxt() for _ in range(n)]
        if k == "poly":
            rings = [ring(n) for n in f[1]]; o = rings[0]
            walls += [(o[i - 1], o[i]) for i in range(len(o))]; sizes.append(len(o))
            g = {"type": "Polygon", "coordinates": rings}
        elif k == "multi": g = {"type": "MultiPolygon", "coordinates": [[ring(n)] for n in f[1]]}
        elif k == "collection": g = {"type": "GeometryCollection", "geometries": [{"type": "Polygon", "coordinates": [ring(n)]} for n in f[1]]}
        elif k == "odd": g = {"type": f[1], "coordinates": [ring(3)]}
        elif k == "line": g = {"type": "LineString", "coordinates": ring(f[1])}
        elif k == "point": g = {"type": "Point", "coordinates": nxt()}
        elif k == "empty": g = {"type": "Polygon", "coordinates": []}
        elif k == "emptygeom": g = {}
        elif k == "null": g = None
        if k == "none": fs.append({"type": "Feature", "properties": {"a": 1}})
        else: fs.append({"type": "Feature", **({}, {"properties": {}}, {"properties": None}, {"properties": {"type": "x"}, "id": 0, "bbox": [0, 0, 1, 1]})[len(fs) % 4], "geometry": g})
    return {"type": "FeatureCollection", "features": fs}, walls, sizes


def check(r, tier):
    cs = []
    shim = types.SimpleNamespace(**{k: getattr(_json, k) for k in dir(_json) if not k.startswith("__")})
    for name, spec in {**SHAPES, **NOWALL}.items():
        for tl, rl in ((None, None), ("C", "N"), ("SW", "E")):
            if name in ("many vertices", "twenty polygons"): continue
            if tl and name not in ("triangle", "mixed", "no feature", "two polygons") and tier == "quick": continue
            cnt = [0]
            def c(): cnt[0] += 1; return [0, 0]
            rings = build(spec, c)[2]; nv = cnt[0]
            I = dict(v=real(max(nv, 1), 2))
            def fn(q, spec=spec, tl=tl, rl=rl):
                it = iter(range(1000))
                def nxt():
                    i = next(it); return [q.v[i, 0], q.v[i, 1]]
                d, walls, _ = build(spec, nxt)
                sh = types.SimpleNamespace(**vars(shim)); used = []
                sh.loads = sh.load = lambda s, *a, **k: used.append(1) or d
                old = getattr(SC, "json", None); SC.json = sh
                kw = {} if tl is None else dict(tx_loc=tl, rx_loc=rl)
                try: s = SC.Scene.from_geojson(_json.dumps({"features": []}), **kw)
                finally: SC.json = old
                if not used: raise OutOfReach("the text is not decoded by json.loads")
                if list(s.transmitters) != ["tx"] or list(s.receivers) != ["rx"]: raise StructViolation(f"{list(s.transmitters)} {list(s.receivers)}")
                if any(type(o) is not G.Wall for o in s.objects): raise StructViolation(f"{[type(o).__name__ for o in s.objects]}")
                if len(s.objects) != len(walls): raise StructViolation(f"{len(s.objects)} walls, expected {len(walls)}")
                if any(o.xys.shape != (2, 2) for o in s.objects): raise StructViolation("wall shape")
                w = [jnp.stack([jnp.stack(a), jnp.stack(b)]) for a, b in walls]
                return [o.xys for o in s.objects], w, s.transmitters["tx"].xy, s.receivers["rx"].xy
            def ens(a, o, tl=tl, rl=rl, rings=rings):
                ws, want, tx, rx = o
                # within one polygon the walls may start at any vertex and run either way
                same = lambda u, v: disj(conj(*[eq(lift(u[i, c]), lift(v[i, c])) for i in range(2) for c in range(2)]), conj(*[eq(lift(u[i, c]), lift(v[1 - i, c])) for i in range(2) for c in range(2)]))
                d, k = {}, 0
                for p, n in enumerate(rings):
                    us, vs = ws[k:k + n], want[k:k + n]; k += n
                    d[f"walls of polygon {p}"] = disj(*[conj(*[same(us[i], vs[(j + g * i) % n]) for i in range(n)]) for j in range(n) for g in (1, -1)])
                if len(ws):
                    pts = [[lift(w[i, c]) for w in want for i in range(2)] for c in range(2)]
                    lo = [functools.reduce(mint, p) for p in pts]; hi = [functools.reduce(maxt, p) for p in pts]
                    ptx, prx = loc_spec(lo, hi, tl or "NW"), loc_spec(lo, hi, rl or "SE")
                else: ptx, prx = (const(0), const(0)), (const(1), const(1))
                d["transmitter location"] = conj(*[eq(lift(x), lift(y)) for x, y in zip(flat(tx), ptx)])
                d["receiver location"] = conj(*[eq(lift(x), lift(y)) for x, y in zip(flat(rx), prx)])
                return d
            cs.append(Contract(f"features: {name}, locations {tl} {rl}", I, fn, ens, functions=FN, bounded=f"features of the collection: {name}", optional=True))
    r.run(cs)
    # ---------------------------------------------------------------- real texts, every input kind
    def ob(label, f):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("texts", label, d is None, "execution on GeoJSON text", d, bounded="the collection in the label")
    class Reader:
        def __init__(self, s): self.s = s
        def read(self): return self.s
    kinds = {"str": lambda t: t, "bytes": lambda t: t.encode(), "bytearray": lambda t: bytearray(t.encode()), "text file": lambda t: io.StringIO(t), "binary file": lambda t: io.BytesIO(t.encode()), "object with read": lambda t: Reader(t),
             "utf-16 bytes": lambda t: t.encode("utf-16"), "utf-8 with signature, binary file": lambda t: io.BytesIO(t.encode("utf-8-sig")), "utf-32 bytearray": lambda t: bytearray(t.encode("utf-32-le"))}
    def run(spec, kind, tl, rl, how, seed):
        rng = np.random.default_rng(seed)
        def nxt(): return [float(x) for x in np.round(rng.normal(size=2) * (1, 100, 1e-3)[seed % 3], 4)] if seed % 2 else [int(x) for x in rng.integers(-9, 10, size=2)]
        d, walls, rings = build(spec, nxt)
        if seed % 3 == 1:
            d["name"] = "Louvain-la-Neuve, bâtiment n\u00b0 1 \U0001f3e0 建物"; d["crs"] = {"type": "name", "properties": {"name": "EPSG:31370"}}
            for i, f in enumerate(d.get("features", [])): f["properties"] = {"rue": "Élysée", "type": "Polygon", "coordinates": [[[0, 0]]]}; f["id"] = i
        a = kinds[kind](_json.dumps(d, indent=2 if seed % 2 else None, ensure_ascii=seed % 2 == 0))
        s = SC.Scene.from_geojson(a) if tl is None else SC.Scene.from_geojson(a, tl, rl) if how == "pos" else SC.Scene.from_geojson(a, tx_loc=tl, rx_loc=rl) if how == "kw" else SC.Scene.from_geojson(a, rx_loc=rl)
        if tl is None or how == "rx only": tl0 = "NW"
        else: tl0 = tl
        rl0 = "SE" if tl is None else rl
        got = np.array([np.asarray(o.xys) for o in s.objects]).reshape(-1, 2, 2); want = np.array(walls, float).reshape(-1, 2, 2)
        if got.shape != want.shape: return f"walls {got.tolist()}, expected {want.tolist()}"
        k = 0
        for n in rings:
            us, vs = got[k:k + n], want[k:k + n]; k += n
            if sorted(sorted(np.round(np.float32(w), 4).tolist()) for w in us) != sorted(sorted(np.round(np.float32(w), 4).tolist()) for w in vs): return f"walls {us.tolist()}, expected {vs.tolist()}"
        if walls: p = want.reshape(-1, 2); pt, pr = loc_spec(p.min(0), p.max(0), tl0), loc_spec(p.min(0), p.max(0), rl0)
        else: pt, pr = (0., 0.), (1., 1.)
        if list(s.transmitters) != ["tx"] or list(s.receivers) != ["rx"]: return f"{list(s.transmitters)} {list(s.receivers)}"
        if not (close(s.transmitters["tx"].xy, np.array(pt), 1e-4) and close(s.receivers["rx"].xy, np.array(pr), 1e-4)): return f"transmitter {s.transmitters['tx'].xy}, receiver {s.receivers['rx'].xy}; expected {pt}, {pr}"
    k = 0
    rng = np.random.default_rng(SEED + 5)
    jobs = []
    for name, spec in {**SHAPES, **NOWALL}.items():
        for kind in kinds:
            for how in ("default", "kw", "pos", "rx only"):
                k += 1; tl, rl = (None, None) if how == "default" else (LOCS[k % 9], LOCS[(k // 3 + 4) % 9])
                jobs.append((f"{name} as {kind}, {how} {tl} {rl}", (spec, kind, tl, rl, how, k)))
    for n in range(40 if tier == "quick" else 400):
        g = np.random.default_rng(SEED * 100 + n); opts = [("poly", [int(g.integers(1, 7))]), ("poly", [int(g.integers(3, 6)), 3]), ("point",), ("none",), ("null",), ("multi", [3]), ("line", 3), ("empty",), ("emptygeom",), ("collection", [3])]
        spec = [opts[i] for i in g.integers(0, len(opts), size=g.integers(0, 8))]
        jobs.append((f"random collection {n}", (spec, list(kinds)[n % len(kinds)], LOCS[n % 9], LOCS[(n * 5 + 1) % 9], "kw", n)))
    for k, (l, a) in enumerate(jobs):
        if r.mine(k): ob(l, lambda a=a: run(*a))
    def native(name, size):
        m, n, h = size("features", 3), size("ring", 4), size("holes", 1)
        return run([("poly", [n] + [3] * h)] + [("poly", [3])] * max(0, m - 2) + [("poly", [4])] * (m > 1), list(kinds)[0], "NW", "SE", "default", 1) if m else run([], list(kinds)[0], None, None, "default", 1)
    seqs.run(r, SP.c26, native)
    return r.finish()
