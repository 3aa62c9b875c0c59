"""Contracts of the scene code for scenes of every size; see engine/seqs.py."""
import functools
import types

from engine.seqs import *
from engine import seqs as Q
from engine.interp import Unsupported


DOC = Tm("json")


@functools.lru_cache(None)
def S(stub_candidates=True):
    """the shadow of differt2d.scene; native graphs by contract"""
    from differt2d import geometry as G
    over = {}
    if stub_candidates: over["all_path_candidates"] = candidates
    else: over.update(CompleteGraph=Graph, DiGraph=Digraph)
    SIGNATURES.update(is_valid=G.Path.is_valid, get=_get)
    NOT_NONE.update({"options", "key0", "keep", "predicate", "method", "fun", "x", "y", "u", "approx", "tol", "order", "min_order", "max_order", "opt:a", "opt:b"})
    m = shadow("differt2d.scene", over, lambda s, *a, **k: DOC)
    m.Scene.get_location = location
    return m


def _get(key, default=None): ...


def location(self, loc):
    """contract of get_location (C18): determined by the entities; an end point that is itself a location of the same objects lies in their box and does not move it"""
    O = seqof(self.objects)
    def keep(m):
        out = []
        for p in entries(m).parts:
            v = p.v[1] if isinstance(p, E) and not p.guard else None
            xy = v.args[0] if isinstance(v, Tm) and v.op == "new:Point" else None
            if isinstance(xy, Tm) and xy.op == "location" and xy.args[0].key == enc(O).key and not O.parts == (): continue
            out.append(p)
        return Seq(out)
    t, r = keep(self.transmitters), keep(self.receivers)
    return app("location", O, loc) if not t.parts and not r.parts else app("location", O, loc, t, r)


def candidates(num_nodes, min_order=0, max_order=1, *, order=None, filter_nodes=None):
    """contract of all_path_candidates (C21): a list determined by the number of objects, the orders and the excluded nodes"""
    if order is not None: min_order = max_order = order
    return base_seq(None, term=app("candidates", num_nodes, min_order, max_order, filter_nodes))


class Graph:
    """contract of the native complete graph: all_paths enumerates the walks between two nodes of a given depth"""
    def __init__(self, n): self.n = n
    def term(self): return app("complete", self.n)
    def all_paths(self, from_, to, depth=None, include_from_and_to=True):
        return base_seq(None, term=app("walks", self.term(), from_, to, depth, include_from_and_to))


class Digraph(Graph):
    def __init__(self, t): self.t = t
    @classmethod
    def from_complete_graph(cls, g): return cls(g.term())
    def term(self): return self.t
    def insert_from_and_to_nodes(self, direct_path=True):
        self.t = app("with ends", self.t, direct_path)
        n = Tm("len", self.t, kind="int")
        return add(n, -2), add(n, -1)
    def disconnect_nodes(self, *nodes, **k):
        self.t = app("without", self.t, r_argsin(nodes), k)


def scene(m, T=None, R=None, O=None):
    return m.Scene(transmitters=T if T is not None else map_base("T"), receivers=R if R is not None else map_base("R"), objects=O if O is not None else base_seq("O"))


def entries(x): return Q.entries_of(x)
def items(x): return entries(x) if not isinstance(x, (Seq, Tm)) else x


# ------------------------------------------------------------------ C25
def c25():
    cs = []
    def mk(name, op, spec, fn):
        def run():
            m = S(); sc = scene(m)
            old = {n: items(getattr(sc, n)) for n in ("transmitters", "receivers")}; old["objects"] = seqof(sc.objects)
            new = op(m, sc)
            want = dict(old); want.update(spec(old))
            out = []
            for n in ("transmitters", "receivers", "objects"):
                got = seqof(new.objects) if n == "objects" else items(getattr(new, n))
                out.append((f"the {n} of the new scene", got, want[n]))
                out.append((f"the {n} of the original scene", seqof(sc.objects) if n == "objects" else items(getattr(sc, n)), old[n]))
            return out
        cs.append(SeqContract(f"{name}, scenes of any size", run, functions=fn))
    for w in ("transmitters", "receivers"):
        N_ = map_base("new")
        mk(f"with_{w}", lambda m, s, w=w: getattr(s, f"with_{w}")(__sym=map_base("new")), lambda o, w=w: {w: map_base("new").entries}, (f"scene.Scene.with_{w}",))
        def upd(o, w=w):
            N_ = map_base("new"); M = Map(o[w])
            a = loop_map(lambda e: [(e[0], N_.get(e[0], e[1]))], o[w])
            b = loop_map(lambda e: [] if truth(M.has(e[0])) else [e], N_.entries)
            return {w: Seq(list(a.parts) + list(b.parts))}
        mk(f"update_{w}", lambda m, s, w=w: getattr(s, f"update_{w}")(__sym=map_base("new")), upd, (f"scene.Scene.update_{w}",))
        def ren(o, w=w):
            N_ = map_base("names")
            return {w: loop_map(lambda e: [(N_.get(e[0], e[0]), e[1])], o[w])}
        mk(f"rename_{w} (new names distinct)", lambda m, s, w=w: getattr(s, f"rename_{w}")(__sym=map_base("names")), ren, (f"scene.Scene.rename_{w}", f"scene.Scene.with_{w}"))
    mk("with_objects", lambda m, s: s.with_objects(Star(base_seq("P"))), lambda o: {"objects": base_seq("P")}, ("scene.Scene.with_objects",))
    mk("add_objects", lambda m, s: s.add_objects(Star(base_seq("P"))), lambda o: {"objects": add(o["objects"], base_seq("P"))}, ("scene.Scene.add_objects", "scene.Scene.with_objects"))
    f = Tm("predicate")
    mk("filter_objects", lambda m, s: s.filter_objects(f), lambda o: {"objects": loop_map(lambda e: [e] if truth(f(e)) else [], o["objects"])}, ("scene.Scene.filter_objects",))
    return cs


# ------------------------------------------------------------------ C22, C23, C24
def without_keys(x):
    """(x with the keys given to path methods replaced by None, problem): a key given by the user reaches every path method, in some derived form, and nothing else depends on it"""
    given = {}
    bad = []
    def go(t, inner=None):
        if isinstance(t, Tm):
            if t.op == "kw:key":
                k = Q.unc(t.args[0])
                if not isinstance(k, Tm) or not Q.occurs(k, Tm("key0")): bad.append(f"a path is built with key {k!r}")
                elif inner is not None and not Q.occurs(k, inner): bad.append(f"the key {k!r} is the same for all candidates")
                else: given[k.key] = None
            for a in t.args: go(a, inner)
        elif isinstance(t, Seq):
            for p in t.parts: part(p, inner)
    def part(p, inner):
        for a, _ in p.guard: go(a, inner)
        if isinstance(p, E): go(enc(p.v), inner)
        else: go(p.base.term, inner); go(enc(p.body), p.k)
    x = seqof(x) if isinstance(x, (list, types.GeneratorType)) else x
    go(enc(x))
    return Q.subst(x, given), bad[0] if bad else None


def modulo_keys(want):
    def f(got):
        g, bad = without_keys(got)
        return bad or Q.diff(g, want)
    return f


METHOD = Tm("method")
OPTS = lambda: {"a": Tm("opt:a"), "b": Tm("opt:b")}
KW = lambda: {"approx": Tm("approx"), "tol": Tm("tol")}
ORD = dict(min_order=Tm("min_order", kind="int"), max_order=Tm("max_order", kind="int"))
ORDER = dict(order=Tm("order", kind="int"))


def cands(O, filt=None, **o):
    bad = None
    if filt is not None: bad = loop_map(lambda t: [] if truth(filt(t[1])) else [t[0]], b_enumerate(O))
    return candidates(b_len(O), filter_nodes=bad, **o)


def path_of(tx, c, rx, O, key=None, opts=None):
    objs = comp(lambda i: O[i], seqof(c))
    return METHOD.from_tx_objects_rx(tx, objs, rx, key=key, **(opts or {})), objs


def valid_of(path, c, objs, O, kw): return path.is_valid(O, c, objs, **kw)


PATH_FN = ("scene.Scene.all_paths", "scene.Scene.all_transmitter_receiver_pairs", "scene.Scene.all_path_candidates", "scene.Scene.get_interacting_objects", "scene.Scene.get_object")


def spec_paths(o, opts, kw, filt):
    T, R, O = map_base("T"), map_base("R"), base_seq("O")
    P = cands(O, filt, **o)
    def one(tk, t, rk, r, c):
        path, objs = path_of(t, c, r, O, None, opts)
        return [(tk, rk, valid_of(path, c, objs, O, kw), path, c)]
    return loop_map(lambda e: list(loop_map(lambda f: list(loop_map(lambda c: one(e[0], e[1], f[0], f[1], c), P).parts), R.entries).parts), T.entries)


def variants():
    f = Tm("keep")
    yield "defaults", {}, {}, {}, None
    yield "order range and options", dict(ORD), OPTS(), KW(), None
    yield "explicit order and filter", dict(ORDER), {}, KW(), f
    yield "a key", dict(ORD), OPTS(), {**KW(), "key": Tm("key0")}, None


def wanted(kw, f):
    """the postcondition, up to the derivation of the keys when a key is given"""
    w = f({k: v for k, v in kw.items() if k != "key"})
    return modulo_keys(w) if "key" in kw else w


def call_kw(o, opts, kw, filt):
    d = {**o, **kw}
    if opts: d["path_cls_kwargs"] = opts
    if filt is not None: d["filter_objects"] = filt
    return d


def c22():
    cs = []
    for nm, o, opts, kw, filt in variants():
        def run(o=o, opts=opts, kw=kw, filt=filt):
            sc = scene(S())
            got = sc.all_paths(METHOD, **call_kw(o, opts, kw, filt))
            return [("one entry per transmitter, receiver and candidate, in order", got, wanted(kw, lambda kw: spec_paths(o, opts, kw, filt)))]
        cs.append(SeqContract(f"all_paths, scenes of any size, {nm}", run, functions=PATH_FN))
        def runv(o=o, opts=opts, kw=kw, filt=filt):
            sc = scene(S())
            kw = {k: v for k, v in kw.items() if k != "approx"}
            ap = Tm("approx") if nm != "defaults" else None
            d = call_kw(o, opts, kw, filt)
            if ap is not None: d["approx"] = ap
            got = sc.all_valid_paths(path_cls=METHOD, **d)
            want = wanted(kw, lambda kw: loop_map(lambda e: [(e[0], e[1], e[3], e[4])] if truth(S().is_true(e[2], approx=ap)) else [], spec_paths(o, opts, {**kw, "approx": ap}, filt)))
            return [("exactly the entries whose validity is true", got, want)]
        if nm != "defaults": cs.append(SeqContract(f"all_valid_paths, scenes of any size, {nm}", runv, functions=PATH_FN + ("scene.Scene.all_valid_paths",)))
    return cs


FUN = Tm("fun")


def fun_args(given): return (tuple(Tm(f"x{i}") for i in range(9)), {f"u{i}": Tm(f"u{i}") for i in range(7)}) if given else ((), {})


def term_of(t, r, c, O, P, opts, kw, fa, tx=None, rx=None, key=None):
    """one summand: t, r as given to the method; tx, rx as given to the function"""
    path, objs = path_of(t, c, r, O, key, opts)
    return valid_of(path, c, objs, O, kw) * FUN(tx if tx is not None else t, rx if rx is not None else r, path, objs, *fa[0], **fa[1])


def c23():
    cs = []
    for nm, o, opts, kw, filt in variants():
        for red in (False, True):
            def run(o=o, opts=opts, kw=kw, filt=filt, red=red, nm=nm):
                sc = scene(S())
                fa = fun_args(nm != "defaults")
                d = call_kw(o, opts, kw, filt)
                if fa[0]: d.update(fun_args=fa[0], fun_kwargs=fa[1])
                got = sc.accumulate_over_paths(FUN, path_cls=METHOD, reduce_all=red, **d)
                T, R, O = map_base("T"), map_base("R"), base_seq("O")
                P = cands(O, filt, **o)
                def spec(kw):
                    want = loop_map(lambda e: list(loop_map(lambda f: [(e[0], f[0], Sum(comp(lambda c: term_of(e[1], f[1], c, O, P, opts, kw, fa), P)))], R.entries).parts), T.entries)
                    return Sum(comp(lambda e: e[2], want)) if red else want
                want = wanted(kw, spec)
                return [("sum over the pair's paths" if not red else "sum of all pairs", got, want)]
            cs.append(SeqContract(f"accumulate_over_paths, scenes of any size, {nm}{', reduced' if red else ''}", run, functions=PATH_FN + ("scene.Scene.accumulate_over_paths",)))
    return cs


def c24():
    cs = []
    X, Y = Tm("X"), Tm("Y")
    import jax.numpy as jnp
    for end in ("transmitters", "receivers"):
        for nm, o, opts, kw, filt in variants():
            for g, vg in ((False, False), (True, False), (False, True)):
                for red in (False, True):
                    def run(o=o, opts=opts, kw=kw, filt=filt, red=red, nm=nm, g=g, vg=vg, end=end):
                        m = S(); sc = scene(m)
                        given = nm != "defaults"
                        fa = fun_args(given)
                        d = call_kw(o, opts, kw, filt)
                        if fa[0]: d.update(fun_args=fa[0], fun_kwargs=fa[1])
                        cls = m.Point
                        got = getattr(sc, f"accumulate_on_{end}_grid_over_paths")(X, Y, FUN, path_cls=METHOD, reduce_all=red, grad=g, value_and_grad=vg, **d)
                        O = base_seq("O"); P = cands(O, filt, **o)
                        fixed = map_base("R" if end == "transmitters" else "T").entries
                        def spec(kw):
                            def value(xy, f):
                                if end == "transmitters": return Sum(comp(lambda c: term_of(xy, f, c, O, P, opts, kw, fa, tx=cls(xy=xy)), P))
                                return Sum(comp(lambda c: term_of(f, xy, c, O, P, opts, kw, fa, rx=cls(xy=xy)), P))
                            grid = m.jnp.dstack((X, Y))
                            def cells(f):
                                if end == "transmitters": fn, no, ax = (lambda xy: value(xy, f)), 0, None
                                else: fn, no, ax = (lambda xy: value(xy, f)), 0, None
                                h = Q.value_and_grad(fn) if vg else Q.grad(fn) if g else fn
                                return Q.vmap(Q.vmap(h))(grid)
                            want = comp(lambda e: (e[0], cells(e[1])), fixed)
                            if red:
                                want = tuple(Sum(comp(lambda e, j=j: e[1][j], want)) for j in (0, 1)) if vg else Sum(comp(lambda e: e[1], want))
                            return want
                        want = wanted(kw, spec)
                        return [("cells, keyed by the fixed end" if not red else "sum over the fixed ends", got, want)]
                    cs.append(SeqContract(f"{end} grid, scenes and grids of any size, {nm}{', gradient' if g else ', value and gradient' if vg else ''}{', reduced' if red else ''}", run,
                              functions=(f"scene.Scene.accumulate_on_{end}_grid_over_paths", f"scene.Scene.with_{end}") + PATH_FN[1:]))
    return cs


# ------------------------------------------------------------------ C21
def nat(name): return Tm("len", Tm(name), kind="int")


def c21():
    cs = []
    n = nat("objects"); lo = Tm("min_order", kind="int"); hi = Tm("max_order", kind="int"); od = Tm("order", kind="int")
    FN = ("scene.all_path_candidates",)
    def walks(m, g, a, b, k): return comp(lambda w: m.jnp.asarray(w, dtype=m.jnp.int32), base_seq(None, term=app("walks", g, a, b, add(k, 2), False)))
    def spec(m, g, a, b, ks): return loop_map(lambda k: list(walks(m, g, a, b, k).parts), ks)
    for nm, kw, ks in (("default orders", {}, Seq([E(0), E(1)])), ("an order range", dict(min_order=lo, max_order=hi), range_seq(add(hi, 1), lo)), ("one order", dict(order=od), Seq([E(od)])),
                       ("one order given with a range", dict(order=od, min_order=lo, max_order=hi), Seq([E(od)]))):
        for filt in (False, True):
            def run(kw=kw, ks=ks, filt=filt):
                m = S(False)
                F = base_seq("banned")
                got = m.all_path_candidates(n, **kw, **(dict(filter_nodes=F) if filt else {}))
                g = app("complete", n); a, b = n, add(n, 1)
                if filt:
                    g = app("with ends", g, True); N_ = Tm("len", g, kind="int"); a, b = add(N_, -2), add(N_, -1)
                    g = app("without", g, F, {})
                return [("the walks of each order, orders increasing, in the graph of the allowed objects", got, spec(m, g, a, b, ks))]
            cs.append(SeqContract(f"all_path_candidates, any number of objects, {nm}{', excluded objects' if filt else ''}", run, functions=FN))
    for nm, o, opts, kw, filt in variants():
        def run(o=o, filt=filt):
            sc = scene(S()); O = base_seq("O")
            return [("candidates of the scene's objects without those the filter rejects", sc.all_path_candidates(**o, **({} if filt is None else dict(filter_objects=filt))), cands(O, filt, **o))]
        cs.append(SeqContract(f"Scene.all_path_candidates, scenes of any size, {nm}", run, functions=("scene.Scene.all_path_candidates",)))
    return cs


# ------------------------------------------------------------------ C26
def c26():
    cs = []
    TX_, RX_ = Tm("tx_loc"), Tm("rx_loc")
    NOT_NONE.update({"tx_loc", "rx_loc"})
    class Reader:
        def __init__(self, t): self.t = t
        def read(self): return self.t
    for src, arg in (("text", "{}"), ("bytes", b"{}"), ("bytearray", bytearray(b"{}")), ("readable", Reader("{}"))):
        for nm, kw in (("default locations", {}), ("given locations", dict(tx_loc=TX_, rx_loc=RX_))):
            def run(arg=arg, kw=kw):
                m = S()
                sc = m.Scene.from_geojson(arg, **kw)
                def poly(f):
                    g = f.get("geometry")
                    if not truth(g) or not truth(eq(g["type"], "Polygon")) or not truth(g["coordinates"]): return []
                    c = g["coordinates"][0]
                    return list(comp(lambda i: m.Wall(xys=m.jnp.array([c[add(i, -1)], c[i]], dtype=float)), range_seq(b_len(c))).parts)
                walls = loop_map(poly, seqof(DOC.get("features", [])))
                out = [("a wall per side of the outer ring of every polygon", seqof(sc.objects), walls)]
                empty = truth(eq(seqlen(walls), 0))
                for n, e, loc, d in (("transmitters", "tx", kw.get("tx_loc", "NW"), [0., 0.]), ("receivers", "rx", kw.get("rx_loc", "SE"), [1., 1.])):
                    got = items(getattr(sc, n))
                    xy = m.jnp.array(d) if empty else app("location", walls, loc)
                    out.append((f"the {n}", got, Seq([E((e, m.Point(xy=xy)))])))
                return out
            cs.append(SeqContract(f"from_geojson, any collection as {src}, {nm}", run, functions=("scene.Scene.from_geojson", "scene.Scene.with_transmitters", "scene.Scene.with_receivers")))
    return cs


# ------------------------------------------------------------------ C27
def c27():
    nt, nw, nr = nat("transmitters"), nat("walls"), nat("receivers")
    KEY = Tm("key")
    def run():
        m = S()
        sc = m.Scene.random_uniform_scene(nt, nw, nr, key=KEY)
        return [("one row of uniform draws of its own per point of every entity", (items(sc.transmitters), seqof(sc.objects), items(sc.receivers)), lambda got: rows(m, got, nt, nw, nr, KEY))]
    def run_kw():
        m = S()
        sc = m.Scene.random_uniform_scene(n_receivers=nr, n_walls=nw, n_transmitters=nt, key=KEY)
        return [("one row of uniform draws of its own per point of every entity, sizes by name", (items(sc.transmitters), seqof(sc.objects), items(sc.receivers)), lambda got: rows(m, got, nt, nw, nr, KEY))]
    return [SeqContract("random_uniform_scene, any sizes", run, functions=("scene.Scene.random_uniform_scene",)), SeqContract("random_uniform_scene, any sizes by name", run_kw, functions=("scene.Scene.random_uniform_scene",))]


def rows(m, got, nt, nw, nr, KEY):
    """every coordinate pair is a row of one array of uniform draws from the key; rows in range and pairwise different (integer arithmetic by z3); names different"""
    import z3
    N_ = add(add(nt, scale(2, nw)), nr)
    want = m.jax.random.uniform(KEY, (N_, 2))
    z = {t: z3.Int(n) for t, n in ((nt.key, "nt"), (nw.key, "nw"), (nr.key, "nr"))}
    def ze(t):
        ts, c, _ = lin_of(t)
        r = z3.IntVal(int(c))
        for a, q in ts:
            if a.key not in z: raise Unsupported(f"row {t!r}")
            r = r + int(q) * z[a.key]
        return r
    def row(v, lo):
        """(lowest row, number of rows) of an indexed array"""
        if not (isinstance(v, Tm) and v.op == "getitem" and v.args[0].key == want.key): raise Unsupported(f"coordinates {v!r}")
        i = [unc(p.v) for p in v.args[1].parts]
        if len(i) != 1: raise Unsupported("index")
        return i[0]
    fam = []
    for kind, s, size in zip(("transmitters", "walls", "receivers"), got, (nt, nw, nr)):
        if len(s.parts) == 0: 
            fam.append((kind, None, None, None)); continue
        if not mapform(s): return f"{kind}: {s!r}"
        p = s.parts[0]
        if p.base.len.key != size.key: return f"{kind}: as many as {p.base!r}"
        k = fresh("i"); v = at(p, k); z[k.key] = z3.Int(f"{kind}_i")
        if kind != "walls":
            name, v = v
            if not (isinstance(name, Tm) and name.op == "fstr" and len(name.args) == 2 and isinstance(name.args[0], Const) and injective(name.args[1], k)): return f"{kind}: names {name!r} may coincide"
        f = {"walls": "new:Wall"}.get(kind, "new:Point")
        if not (isinstance(v, Tm) and v.op == f): return f"{kind}: {v!r}"
        i = row(unc(v.args[0]), None)
        if kind == "walls":
            if isinstance(i, slice):
                if i.step not in (None, 1) or i.start is None or i.stop is None: return f"walls: rows {i!r}"
                a, b = ze(i.start), ze(i.stop)
            else: return f"walls: rows {i!r}"
            fam.append((kind, k, [a, a + 1], b == a + 2))
        else: fam.append((kind, k, [ze(i)], True))
    sz = dict(transmitters=z[nt.key], walls=z[nw.key], receivers=z[nr.key]); N_ = ze(N_)
    def prove(hyp, goal, what):
        s = z3.Solver(); s.set(timeout=10000); s.add(*[x >= 0 for x in (z[nt.key], z[nw.key], z[nr.key])], *hyp, z3.Not(goal))
        r = s.check()
        return None if r == z3.unsat else f"{what}: {s.model() if r == z3.sat else r}"
    inst = []
    for kind, k, rs, ok in fam:
        if k is None: continue
        i = z[k.key]; j = z3.Int(str(i) + "'")
        dom = lambda x: z3.And(x >= 0, x < sz[kind])
        # indices below zero count from the end; slices are within the array
        pos = [r if kind == "walls" else z3.If(r < 0, r + N_, r) for r in rs]
        e = prove([dom(i)], z3.And(ok if not isinstance(ok, bool) else z3.BoolVal(ok), *[z3.And(r >= 0, r < N_) for r in pos]), f"rows of the {kind}")
        if e: return e
        for a in pos:
            for b in pos:
                b2 = z3.substitute(b, (i, j))
                e = prove([dom(i), z3.substitute(dom(i), (i, j)), i != j], a != b2, f"rows of two {kind}")
                if e: return e
        for k2, i2, pos2, d2 in inst:
            for a in pos:
                for b in pos2:
                    e = prove([dom(i), d2], a != b, f"rows of {kind} and {k2}")
                    if e: return e
        inst.append((kind, i, pos, dom(i)))
    return None


def injective(t, k):
    """t is k plus a constant (times a non-zero factor)"""
    try: ts, c, _ = lin_of(unc(t))
    except Unsupported: return False
    return len(ts) == 1 and ts[0][0].key == k.key


# ------------------------------------------------------------------ C28
def c28():
    cs = []
    FN = ("scene.PyTreeDict.from_mapping", "scene.PyTreeDict.__getitem__", "scene.PyTreeDict.__iter__", "scene.PyTreeDict.__len__")
    def run():
        m = S(); M = map_base("M"); d = m.PyTreeDict.from_mapping(map_base("M"))
        j = fresh("j"); el = lambda i: (app("key:M", i), app("val:M", i))
        out = [("keys in order", seqof(d), M.keys()), ("as many as the source", b_len(d), seqlen(M.entries)), ("items", seqof(d.items()), M.entries), ("values", seqof(d.values()), M.values()),
               ("keys view", seqof(d.keys()), M.keys()), ("value under any key", Q.r_getitem(d, el(j)[0]), el(j)[1]), ("any key is a member", Q.r_in(el(j)[0], d), True)]
        x = Tm("other")
        try: v = Q.r_getitem(d, x)
        except KeyError: v = "KeyError"
        out += [("lookup of an arbitrary object: its value, or KeyError when absent", v, M.find(x, "KeyError", False)), ("membership of an arbitrary object", Q.r_in(x, d), truth(M.has(x)))]
        return out
    cs.append(SeqContract("mapping of any size", run, functions=FN))
    def warr():
        m = S(); W = Tm("walls"); sc = m.Scene.from_walls_array(W)
        return [("one wall per row, in order", seqof(sc.objects), comp(lambda k: m.Wall(xys=W[k]), range_seq(b_len(W)))), ("no transmitter", items(sc.transmitters), Seq([])), ("no receiver", items(sc.receivers), Seq([]))]
    cs.append(SeqContract("from_walls_array, any number of walls", warr, functions=("scene.Scene.from_walls_array",)))
    def stacked():
        m = S(); W = Tm("stacked"); sc = m.Scene.from_stacked_objects(W)
        return [("the unstacked objects, in order", seqof(sc.objects), seqof(m.unstack_leaves(W))), ("no transmitter", items(sc.transmitters), Seq([])), ("no receiver", items(sc.receivers), Seq([]))]
    cs.append(SeqContract("from_stacked_objects, any number of objects", stacked, functions=("scene.Scene.from_stacked_objects",)))
    def obj():
        m = S(); sc = scene(m); i = fresh("i"); O = base_seq("O")
        return [("that object", sc.get_object(i), O[i]), ("stacking in order", sc.stacked_objects(), m.stack_leaves(O))]
    cs.append(SeqContract("object at any index of any number of objects", obj, functions=("scene.Scene.get_object", "scene.Scene.stacked_objects")))
    return cs
