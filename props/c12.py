"""Well-formed paths.  The objects are arbitrary (uninterpreted methods, any number of parameters); the minimiser called by the
optimisation-based methods is replaced by its contract (C20): some point theta and the objective's value at theta."""
import contextlib
from engine.verify import *
from props import big as BIG
from engine import symc
from props import sizes as SZ
from props.spec import *
from props.abstract import *
from differt2d import geometry as G
from differt2d import optimize as O

FN = ("geometry.Path.from_tx_objects_rx", "geometry.ImagePath.from_tx_objects_rx", "geometry.FermatPath.from_tx_objects_rx", "geometry.MinPath.from_tx_objects_rx",
      "geometry.parametric_to_cartesian", "geometry.parametric_to_cartesian_from_slice")
CLS = {0: AObj0, 1: AObj, 2: AObj2}


class AWall(G.Wall):
    """A wall with an arbitrary residual."""
    def evaluate_cartesian(self, ray_path): return uf("residual", self.xys, ray_path)


@contextlib.contextmanager
def minimiser():
    """contract of minimize_many_random_uniform: returns (theta, fun(theta)); what it was given is recorded"""
    def stub(fun, key, n, many=10, **kw):
        th = uf("theta", key, jnp.asarray(float(many)), shape=(n,))
        probe = uf("probe", key, shape=(n,))
        LOG.append((n, many, {k: v for k, v in kw.items()}, fun(probe)))
        return th, fun(th)
    old = G.minimize_many_random_uniform
    G.minimize_many_random_uniform = stub
    jax.clear_caches()
    try: yield
    finally:
        G.minimize_many_random_uniform = old
        jax.clear_caches()


LOG = []


def wf(p, cls, n):
    if type(p) is not cls: raise StructViolation(f"{cls.__name__}.from_tx_objects_rx returned a {type(p).__name__}")
    if p.xys.shape != (n + 2, 2): raise StructViolation(f"{cls.__name__}: {p.xys.shape} points for {n} objects")
    if p.loss.shape != (): raise StructViolation(f"loss of shape {p.loss.shape}")
    return p.xys, p.loss


def ends(tx, rx, how):
    return (G.Point(xy=tx) if how & 1 else tx), (G.Vertex(xy=rx) if how & 2 else rx)


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    base = lambda n: dict(tx=real(2), rx=real(2), ids=real(max(n, 1)))
    counts = [(), (1,), (0,), (2,), (1, 1), (1, 0), (0, 2), (2, 1), (1, 0, 2), (1, 1, 1), (0, 0)]
    if tier != "quick": counts += [(1, 1, 1, 1), (2, 0, 1, 2), (0, 1, 0, 1, 2)]
    big = [(1,) * 9, (1, 0, 2, 1, 1, 0, 1, 2, 2, 1, 0), (2,) * 7]
    for cnt in counts + big:
        n = len(cnt); smp = dict(optional="sampled" if cnt in big else False)
        B = f"objects with {cnt} parameters (arbitrary objects and coordinates)" if n > 0 else None
        obs = lambda q, cnt=cnt: [CLS[c](q.ids[i]) for i, c in enumerate(cnt)]
        # midpoint method
        def mid(q, cnt=cnt, n=n, obs=obs):
            return [wf(G.Path.from_tx_objects_rx(*(lambda e: (e[0], obs(q), e[1]))(ends(q.tx, q.rx, h))), G.Path, n) for h in range(4)]
        def midens(a, o, cnt=cnt, n=n):
            d = {}
            for h in range(4):
                x, l = o[h]
                d[f"{h}: starts at tx"] = eqv(x[0], a.tx); d[f"{h}: ends at rx"] = eqv(x[n + 1], a.rx); d[f"{h}: zero loss"] = eq(l, 0)
                for k, c in enumerate(cnt): d[f"{h}: point {k + 1} is the midpoint of object {k}"] = eqv(x[k + 1], tu(f"p2c{c}", a.ids[k], HALF, shape=(2,)))
            return d
        C(f"Path {cnt}", base(n), mid, midens, bounded=B, **smp)
        for cls in (G.FermatPath, G.MinPath):
            def opt(q, cls=cls, n=n, obs=obs, cnt=cnt):
                out = []
                with minimiser():
                    for h, kw in ((0, {}), (3, {}), (1, dict(many=3)), (2, dict(steps=7)), (0, dict(many=130, steps=2000))):
                        LOG.clear()
                        t, x = ends(q.tx, q.rx, h)
                        p = wf(cls.from_tx_objects_rx(t, obs(q), x, key=q.k, **kw), cls, n)
                        out.append((*p, uf("theta", q.k, jnp.asarray(float(LOG[-1][1] if LOG else 1)), shape=(sum(cnt),))))
                        if n and LOG:
                            g = LOG[-1]
                            if g[0] != sum(cnt): raise StructViolation(f"{g[0]} unknowns requested for parameter counts {cnt}")
                            if "many" in kw and g[1] != kw["many"]: raise StructViolation(f"many={g[1]}")
                            if {k: v for k, v in g[2].items()} != {k: v for k, v in kw.items() if k != "many"}: raise StructViolation(f"options {g[2]} reached the minimiser, given {kw}")
                return out
            def optens(a, o, cls=cls, n=n, cnt=cnt):
                d = {}
                for h, (x, l, th) in enumerate(o):
                    d[f"{h}: starts at tx"] = eqv(x[0], a.tx); d[f"{h}: ends at rx"] = eqv(x[n + 1], a.rx)
                    j = 0
                    for k, c in enumerate(cnt):
                        d[f"{h}: point {k + 1} is a point of object {k}"] = eqv(x[k + 1], tu(f"p2c{c}", a.ids[k], th[j:j + c], shape=(2,)))
                        j += c
                    d[f"{h}: loss is the sum of the residuals"] = eq(l, sum((tu("residual", a.ids[k], x[k], x[k + 1], x[k + 2]) for k in range(n)), ZERO))
                return d
            C(f"{cls.__name__} {cnt}", dict(base(n), k=key()), opt, optens, bounded=B, **smp)
            if n:
                def objective(q, cls=cls, n=n, obs=obs, cnt=cnt):
                    with minimiser():
                        LOG.clear()
                        got = []
                        # traced eagerly so that the recorded objective value belongs to this trace
                        with jax.disable_jit():
                            cls.from_tx_objects_rx(q.tx, obs(q), q.rx, key=q.k)
                        if not LOG: raise StructViolation("no minimisation")
                        ob = LOG[-1][3]
                        th = uf("probe", q.k, shape=(sum(cnt),))
                        pts = [q.tx]; j = 0
                        for i, c in enumerate(cnt):
                            pts.append(uf(f"p2c{c}", q.ids[i], th[j:j + c], shape=(2,))); j += c
                        pts = jnp.stack([*pts, q.rx])
                    return ob, pts, G.path_length(pts)
                def objens(a, o, cls=cls, n=n):
                    want = o[2] if cls is G.FermatPath else sum((tu("residual", a.ids[k], o[1][k], o[1][k + 1], o[1][k + 2]) for k in range(n)), ZERO)
                    return {"the minimised objective": eq(o[0], want)}
                C(f"{cls.__name__} objective {cnt}", dict(base(n), k=key()), objective, objens, bounded=B, **smp)
    # image method: arbitrary residuals
    for n in (0, 1, 2, 3):
        def img(q, n=n):
            ws = [AWall(xys=q.w[i]) for i in range(n)]
            out = []
            for h in range(4):
                t, x = ends(q.tx, q.rx, h)
                xys, loss = wf(G.ImagePath.from_tx_objects_rx(t, ws, x), G.ImagePath, n)
                out.append((xys, loss, [w.evaluate_cartesian(xys[i:i + 3]) for i, w in enumerate(ws)]))
            return out
        def imgens(a, o, n=n):
            d = {}
            for h in range(4):
                x, l, res = o[h]
                d[f"{h}: starts at tx"] = eqv(x[0], a.tx); d[f"{h}: ends at rx"] = eqv(x[n + 1], a.rx)
                d[f"{h}: loss is the sum of the residuals"] = eq(l, sum(res, ZERO))
                if h: d[f"{h}: same points"] = conj(*[eqv(x[k], o[0][0][k]) for k in range(n + 2)])
            return d
        C(f"ImagePath {n} walls", dict(tx=real(2), rx=real(2), w=real(max(n, 1), 2, 2)), img, imgens, bounded=f"{n} walls" if n else None, finite=False, native=n < 2)
    # real walls and vertices through the real minimiser: the inner points belong to their objects
    for cls in (G.FermatPath, G.MinPath):
        def realobj(q, cls=cls):
            obj = [G.Wall(xys=q.w[0]), G.Vertex(xy=q.v), G.Wall(xys=q.w[1])]
            return wf(cls.from_tx_objects_rx(q.tx, obj, q.rx, key=q.k, steps=0), cls, 3)
        def realens(a, o):
            return {"on wall 1": eq(cross(sub2(o[0][1], org(a.w[0])), tvec(a.w[0])), 0), "at the vertex": eqv(o[0][2], a.v), "on wall 2": eq(cross(sub2(o[0][3], org(a.w[1])), tvec(a.w[1])), 0),
                    "starts at tx": eqv(o[0][0], a.tx), "ends at rx": eqv(o[0][4], a.rx)}
        C(f"{cls.__name__} with walls and a vertex", dict(tx=real(2), rx=real(2), w=real(2, 2, 2), v=real(2), k=key()), realobj, realens, bounded="3 objects, no optimisation step", finite=False)
    r.run(cs)
    symc.run(r, SZ.c12)
    BIG.run(r, "sizes next to a number in the source", BIG.c12())
    return r.finish(trusted=("minimize_many_random_uniform is replaced by its contract (returns theta and fun(theta)), which C20 decides",))
