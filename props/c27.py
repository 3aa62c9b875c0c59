"""Built-in and random scenes, for all coordinates, ratios and keys."""
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP
import inspect

SQ = [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]
H = Fr(1, 2)
BASIC = SQ + [((Fr(2, 5), 0), (Fr(2, 5), Fr(2, 5))), ((Fr(2, 5), Fr(2, 5)), (Fr(3, 10), Fr(2, 5))), ((Fr(1, 10), Fr(2, 5)), (0, Fr(2, 5)))]
def midwall(t): return SQ + [((H, H * (1 - t)), (H, H * (1 + t)))]
def obstacle(t):
    a, b = H - H * t, H + H * t
    return SQ + [((a, a), (b, a)), ((b, a), (b, b)), ((b, b), (a, b)), ((a, b), (a, a))]


def same_walls(got, want, tol=Fr(1, 10 ** 7)):
    """the same walls, in any order and either way round (constants are compared up to the rounding of literals)"""
    near = lambda x, y: conj(le(sub(lift(x), lift(y)), const(tol)), le(sub(lift(y), lift(x)), const(tol)))
    one = lambda g, w: disj(*[conj(*[near(g[i, c], w[i ^ f][c]) for i in range(2) for c in range(2)]) for f in (0, 1)])
    if len(got) != len(want): return FALSE
    d = [one(g, w) for g, w in zip(got, want)]
    straight = conj(*d)
    if straight is TRUE: return TRUE
    return disj(straight, conj(*[disj(*[one(g, w) for g in got]) for w in want], *[disj(*[one(g, w) for w in want]) for g in got]))


def sub(a, b): return a - b


def walls_of(s):
    for o in s.objects:
        if type(o) is not G.Wall: raise StructViolation(f"an object is a {type(o).__name__}")
    if list(s.transmitters) != ["tx"] or list(s.receivers) != ["rx"]: raise StructViolation(f"{list(s.transmitters)}, {list(s.receivers)}")
    return [o.xys for o in s.objects], s.transmitters["tx"].xy, s.receivers["rx"].xy


def check(r, tier):
    cs = []
    by = {"called": lambda n, *a, **k: getattr(Scene, n)(*a, **k), "selected by name": lambda n, *a, **k: Scene.from_scene_name(n, *a, **k)}
    xy = lambda p, q: conj(*[eq(lift(x), lift(y)) for x, y in zip(flat(p), flat(q))])
    SHAPE = {"basic_scene": lambda t: BASIC, "square_scene": lambda t: SQ, "square_scene_with_wall": midwall, "square_scene_with_obstacle": obstacle}
    DEF = {"basic_scene": (None, (.1, .1), (.302, .2147)), "square_scene": (None, (.2, .2), (.5, .6)), "square_scene_with_wall": (Fr(3, 5), (.2, .5), (.8, .5)), "square_scene_with_obstacle": (Fr(1, 10), (.2, .2), (.5, .6))}
    for name, shape in SHAPE.items():
        ratio = DEF[name][0] is not None
        fns = (f"scene.Scene.{name}", "scene.Scene.from_scene_name", "scene.Scene.add_objects")
        for how, call in by.items():
            def fn(q, name=name, call=call, ratio=ratio): return walls_of(call(name, tx_coords=q.tx, rx_coords=q.rx, **(dict(ratio=q.t) if ratio else {})))
            def ens(a, o, shape=shape):
                return {"walls": same_walls(o[0], shape(a.t)), "transmitter": xy(o[1], a.tx), "receiver": xy(o[2], a.rx)}
            I = dict(t=real(pool=[.1, .6, 0, 1, 1.5, .25]), tx=real(2), rx=real(2))
            cs.append(Contract(f"{name} {how}, given coordinates", I, fn, ens, functions=fns))
            # each argument alone; the others take the documented defaults
            for given in ("nothing", "t", "tx", "rx", "positional"):
                if given == "t" and not ratio: continue
                def fn(q, name=name, call=call, given=given, ratio=ratio):
                    kw = {"t": dict(ratio=q.t), "tx": dict(tx_coords=q.tx), "rx": dict(rx_coords=q.rx)}.get(given, {})
                    args = () if given != "positional" else (q.t,) if name == "square_scene_with_obstacle" else (q.t, q.tx, q.rx) if ratio else (q.tx, q.rx)
                    return walls_of(call(name, *args, **kw))
                def ens(a, o, name=name, shape=shape, given=given):
                    t, tx, rx = DEF[name]; l = lambda p: [const(Fr(float(np.float32(x)))) for x in p]
                    if given in ("t", "positional"): t = a.t
                    tx, rx = (a.tx if given == "tx" or given == "positional" and name != "square_scene_with_obstacle" else l(tx)), (a.rx if given == "rx" or given == "positional" and name != "square_scene_with_obstacle" else l(rx))
                    near = lambda p, q: conj(*[conj(le(lift(x) - lift(y), const(Fr(1, 10 ** 6))), le(lift(y) - lift(x), const(Fr(1, 10 ** 6)))) for x, y in zip(flat(p), flat(q))])
                    d = {"walls": same_walls(o[0], shape(t))}
                    if given in ("tx", "positional", "rx"): d["given coordinates"] = conj(*([near(o[1], tx)] if given != "rx" else []), *([near(o[2], rx)] if given != "tx" else []))
                    return d
                cs.append(Contract(f"{name} {how}, {given} given", I, fn, ens, functions=fns))
    # random scenes
    for nt in range(4):
        for nw in range(5):
            for nr in range(4):
                if tier == "quick" and (nt * 5 + nw * 3 + nr) % 3 and not (nt == nr == 1): continue
                def fn(q, nt=nt, nw=nw, nr=nr):
                    s = Scene.random_uniform_scene(n_transmitters=nt, n_walls=nw, n_receivers=nr, key=q.k) if (nt, nw, nr) != (1, 1, 1) else Scene.random_uniform_scene(key=q.k)
                    n = (len(s.transmitters), len(s.objects), len(s.receivers))
                    if n != (nt, nw, nr): raise StructViolation(f"{n} transmitters, walls, receivers; expected {(nt, nw, nr)}")
                    if len(set(s.transmitters)) != nt or len(set(s.receivers)) != nr: raise StructViolation("names are repeated")
                    if any(type(o) is not G.Wall for o in s.objects): raise StructViolation(f"{[type(o).__name__ for o in s.objects]}")
                    return [x.reshape(-1) for x in [p.xy for p in s.transmitters.values()] + [o.xys for o in s.objects] + [p.xy for p in s.receivers.values()]]
                def ens(a, o, nt=nt, nw=nw, nr=nr):
                    v = [lift(x) for x in flat(list(o))]
                    d = {"one coordinate pair per point": TRUE if len(v) == 2 * (nt + 2 * nw + nr) else FALSE}
                    d["in the unit square"] = conj(*[conj(le(const(0), x), le(x, const(1))) for x in v])
                    if not NATIVE[0]:
                        d["each coordinate is one uniform draw of its own"] = TRUE if all(x.op == "app" and x.args[0].startswith("u01") for x in v) and len(set(v)) == len(v) else FALSE
                    else: d["no coordinate is shared"] = conj(*[neg(eq(x, y)) for i, x in enumerate(v) for y in v[:i]]) if len(v) <= 24 else TRUE
                    return d
                cs.append(Contract(f"random scene, {nt} transmitters, {nw} walls, {nr} receivers", dict(k=key()), fn, ens, functions=("scene.Scene.random_uniform_scene",), bounded=f"{nt} transmitters, {nw} walls, {nr} receivers", tol=1e-9))
    r.run(cs)
    def ob(label, f):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("random scenes", label, d is None, "execution for the sizes in the label", d, bounded="the sizes in the label")
    jobs = []
    def rnd(nt, nw, nr, seed, new):
        k = jax.random.key(seed) if new else jax.random.PRNGKey(seed)
        s = Scene.random_uniform_scene(nt, nw, nr, key=k)
        if (len(s.transmitters), len(s.objects), len(s.receivers)) != (nt, nw, nr): return "sizes"
        if len(set(s.transmitters)) != nt or len(set(s.receivers)) != nr: return "names"
        c = np.concatenate([np.zeros((0, 2))] + [np.asarray(p.xy)[None] for p in s.transmitters.values()] + [np.asarray(o.xys) for o in s.objects] + [np.asarray(p.xy)[None] for p in s.receivers.values()])
        if c.shape != (nt + 2 * nw + nr, 2): return f"{c.shape}"
        if len(c) and (c.min() < 0 or c.max() >= 1): return "outside the unit square"
        if len({tuple(x) for x in c.tolist()}) != len(c): return "two entities share a point"
        if len(set(c.reshape(-1).tolist())) < c.size - 2: return "coordinates are shared"
        if len(c) >= 100 and not (abs(c.mean() - .5) < .12 and abs(c.var() - 1 / 12) < .04): return f"mean {c.mean()}, variance {c.var()}: not uniform"
    def keys(nt, nw, nr):
        a, b = (Scene.random_uniform_scene(nt, nw, nr, key=jax.random.PRNGKey(s)) for s in (3, 4))
        if any(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))): return "two keys give the same point"
        c = Scene.random_uniform_scene(nt, nw, nr, key=jax.random.PRNGKey(3))
        if not all(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(c))): return "the same key gives different scenes"
    for nt, nw, nr in ((1, 1, 1), (3, 40, 2), (40, 2, 1), (1, 5, 70), (0, 120, 0)): jobs.append((f"different keys, {nt} transmitters, {nw} walls, {nr} receivers", lambda a=(nt, nw, nr): keys(*a)))
    for i, (nt, nw, nr) in enumerate([(1, 1, 1), (10, 7, 3), (3, 0, 12), (0, 20, 0), (40, 40, 40), (1, 100, 1), (25, 3, 1), (0, 0, 0), (11, 1, 11)]):
        for seed in range(3): jobs.append((f"{nt} transmitters, {nw} walls, {nr} receivers, key {seed}", lambda a=(nt, nw, nr, seed, (seed + i) % 2 == 0): rnd(*a)))
    def coords(name, tx, rx):
        s = getattr(Scene, name)(tx_coords=jnp.array(tx), rx_coords=jnp.array(rx))
        if not (close(s.transmitters["tx"].xy, np.array(tx, float)) and close(s.receivers["rx"].xy, np.array(rx, float))): return f"{s.transmitters['tx'].xy} {s.receivers['rx'].xy}"
    for name in SHAPE:
        for tx, rx in (([1, 0], [0, 1]), ([.5, .5], [.5, .5]), ([-3., 2.], [1e-3, 7])): jobs.append((f"{name}, coordinates {tx} {rx}", lambda a=(name, tx, rx): coords(*a)))
    for k, (l, f) in enumerate(jobs):
        if r.mine(k): ob(l, f)
    seqs.run(r, SP.c27, lambda name, size: rnd(size("transmitters", 2), size("walls", 3), size("receivers", 2), 0, False))
    return r.finish()
