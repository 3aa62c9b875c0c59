"""Grid maps.  Path method, validity and accumulated function are uninterpreted; the gradient maps use their (uninterpreted) derivatives."""
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP

FN = ("scene.Scene.accumulate_on_transmitters_grid_over_paths", "scene.Scene.accumulate_on_receivers_grid_over_paths",
      "scene.Scene.accumulate_over_paths", "scene.Scene.all_paths", "scene.Scene.get_interacting_objects")
OTHER = {"tx": "receivers", "rx": "transmitters"}


class Moved(G.Point): """class requested for the moved end"""


def makefun(log):
    def fun(t, x, p, objs, *args, **kw):
        log.append((type(t).__name__, type(x).__name__, type(p).__name__, [type(o).__name__ for o in objs], len(args), tuple(sorted(kw))))
        return afun(t, x, p, objs, *args, **kw)
    return fun


def grid_call(s, end, X, Y, fun, cls, **k):
    if end == "tx": return s.accumulate_on_transmitters_grid_over_paths(X, Y, fun, **({} if cls is None else dict(transmitter_cls=cls)), **k)
    return s.accumulate_on_receivers_grid_over_paths(X, Y, fun, **({} if cls is None else dict(receiver_cls=cls)), **k)


def pointwise(s, end, name, xy, fun, cls, **k):
    """the accumulation with the end point moved to xy and the fixed end `name`"""
    cls = cls or G.Point
    if end == "tx": s2 = s.with_transmitters(moved=cls(xy=xy)).with_receivers(**{name: s.receivers[name]})
    else: s2 = s.with_receivers(moved=cls(xy=xy)).with_transmitters(**{name: s.transmitters[name]})
    return s2.accumulate_over_paths(fun, reduce_all=True, **k)


def derivative(f, xy):
    """component-wise derivatives (forward mode), x first"""
    return jax.jacfwd(f)(xy)


def both(s, end, X, Y, mode, red, cls, fa, fk, **k):
    """-> (names, values, derivatives) of the code and of the definition"""
    l1, l2 = [], []
    opt = {}
    if fa: opt["fun_args"] = fa
    if fk: opt["fun_kwargs"] = fk
    if red: opt["reduce_all"] = True
    if mode == "grad": opt["grad"] = True
    if mode == "both":
        opt["value_and_grad"] = True
        if (X.shape[0] + bool(red)) % 2: opt["grad"] = True       # the value and the derivatives are asked for: this takes precedence
    got = grid_call(s, end, X, Y, makefun(l1), cls, **opt, **k)
    got = [(None, got)] if red else list(got)
    names = list(getattr(s, OTHER[end]))
    want = {}
    for n in names:
        f = lambda xy, n=n: pointwise(s, end, n, xy, makefun(l2), cls, **opt0(fa, fk), **k)
        cells = jnp.stack([jnp.stack([X[i, j], Y[i, j]]) for i in range(X.shape[0]) for j in range(X.shape[1])])
        v = jax.vmap(lambda c: jnp.asarray(f(c), dtype=float))(cells).reshape(X.shape) if mode != "grad" else None
        d = jax.vmap(lambda c: derivative(f, c))(cells).reshape(X.shape + (2,)) if mode != "value" else None
        want[n] = {"value": (v,), "grad": (d,), "both": (v, d)}[mode]
    if set(map(str, l1)) != set(map(str, l2)): raise StructViolation(f"the function is called with {l1}, expected {l2}")
    if red:
        m = (X.shape, X.shape + (2,))
        zero = {"value": (jnp.zeros(m[0]),), "grad": (jnp.zeros(m[1]),), "both": (jnp.zeros(m[0]), jnp.zeros(m[1]))}[mode]
        want = {None: tuple(sum([w[c] for w in want.values()], z) for c, z in enumerate(zero))}
        if not names: return [], []
        names = [None]
    uniq = []
    for g in got:
        if g[0] not in uniq: uniq.append(g[0])
    if uniq != names: raise StructViolation(f"maps for {uniq}, expected {names}")
    if len(got) != len(names): raise StructViolation(f"maps for {[g[0] for g in got]}, expected {names}")
    out1, out2 = [], []
    for n, g in got:
        g = g if isinstance(g, tuple) else (g,)
        w = want[n]
        if [x.shape for x in g] != [x.shape for x in w]: raise StructViolation(f"maps of shapes {[x.shape for x in g]}, expected {[x.shape for x in w]}")
        out1 += list(g); out2 += list(w)
    return out1, out2


def opt0(fa, fk):
    d = {}
    if fa: d["fun_args"] = fa
    if fk: d["fun_kwargs"] = fk
    return d


def check(r, tier):
    cs = []
    ends = ("tx", "rx")
    cases = []
    for end in ends:
        for mode in ("value", "grad", "both"):
            for red in (False, True):
                for soft in (False, True):
                    cases += [(end, mode, red, soft, 1, 1, 2, (2, 2), {}, None, False), (end, mode, red, soft, 2, 1, 2, (1, 2), dict(order=1), Moved, True)]
                    cases += [(end, mode, red, soft, 1, 2, 1, (1, 1), dict(max_order=2), Moved, False)]
                    if soft or tier != "quick": cases += [(end, mode, red, soft, 3, 1, 3, (2, 1), dict(order=1), Moved, False)]
                    if tier != "quick": cases += [(end, mode, red, soft, 2, 2, 2, (3, 2), dict(max_order=2), Moved, True), (end, mode, red, soft, 2, 3, 2, (1, 2), dict(order=2), None, True)]
                cases += [(end, mode, red, True, 2, 0, 1, (1, 2), {}, Moved, True), (end, mode, red, True, 1, 1, 2, (2, 1), dict(order=2), None, False)]
    for end, mode, red, soft, nt, no, nr, (m, n), kw, cls, args in cases:
        I = dict(inputs(nt, no, nr), X=real(m, n), Y=real(m, n), tol=real(pool=[.01, .5]), opt=real(), a1=real(), a2=real(2))
        def fn(q, end=end, mode=mode, red=red, soft=soft, nt=nt, no=no, nr=nr, kw=kw, cls=cls, args=args):
            s = mkscene(q, nt, no, nr)
            return both(s, end, q.X, q.Y, mode, red, cls, (q.a1, q.a2) if args else (), {"u": q.a2, "s": "x"} if args else {},
                        path_cls=APath, path_cls_kwargs={"opt": q.opt}, approx=soft, tol=q.tol, **kw)
        def ens(a, o): return {f"map {k}": conj(*[eq(lift(x), lift(y)) for x, y in zip(flat(g), flat(w))]) for k, (g, w) in enumerate(zip(*o))}
        cs.append(Contract(f"{end} grid, {mode}, reduce={red}, approx={soft}, {nt} transmitters, {no} objects, {nr} receivers, grid {m} x {n}, {kw}, {getattr(cls, '__name__', None)}, args={args}", I, fn, ens,
                           functions=FN, bounded=f"{nt} transmitters, {no} objects, {nr} receivers, {m} x {n} cells"))
    r.run(cs)
    # ---------------------------------------------------------------- concrete executions: several classes of objects, filters, global mode, keys, larger grids
    def ob(label, f, B):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("grid maps", label, d is None, "concrete execution with uninterpreted methods", d, bounded=B)
    jobs = []
    def run(end, mode, red, nt, no, nr, m, n, kind, kw, soft, glob, filt):
        I = dict(inputs(nt, no, nr), X=real(m, n), Y=real(m, n), opt=real())
        q = concrete(I, 7 * nt + no); s = mkscene(q, nt, no, nr, kind)
        k = dict(path_cls=APath, path_cls_kwargs={"opt": q.opt}, patch=.25, **kw)
        if soft is not None: k["approx"] = soft
        if filt: k["filter_objects"] = filt
        with global_mode(glob):
            try: g, w = both(s, end, q.X, q.Y, mode, red, Moved, tuple(q.opt * (i + 1) for i in range(9)), {f"z{i}": q.opt - i for i in range(7)}, **k)
            except StructViolation as e: return str(e)
        for i, (x, y) in enumerate(zip(g, w)):
            if not close(x, y, 2e-3): return f"map {i}: {np.asarray(x).tolist()}, expected {np.asarray(y).tolist()}"
    modes = ("value", "grad", "both")
    c = 0
    for end in ends:
        for mode in modes:
            for red in (False, True):
                for kind in ("same", "mixed", "late"):
                    for no, kw in ((3, {}), (3, dict(order=2)), (4, dict(min_order=1, max_order=1))):
                        c += 1
                        soft, glob = ((False, False), (True, False), (None, True))[c % 3]
                        if tier == "quick" and no == 3 and kw and mode == "both": continue
                        jobs.append((glob, f"{end} grid, {mode}, reduce={red}, {kind}, {no} objects, {kw}, approx={soft}, global={glob}", lambda a=(end, mode, red, 2, no, 2, 2, 3, kind, kw, soft, glob, None): run(*a)))
                for nm, f in (("first class", lambda o: isinstance(o, AObj0)), ("none", lambda o: False)):
                    jobs.append((False, f"{end} grid, {mode}, reduce={red}, filter {nm}", lambda a=(end, mode, red, 2, 4, 2, 1, 2, "mixed", dict(order=1), True, False, f): run(*a)))
    for end in ends:
        for mode in modes:
            for red in (False, True):
                for nt, no, nr, m, n in ((6, 1, 7, 1, 2), (1, 9, 1, 2, 1), (1, 1, 1, 17, 2), (1, 1, 1, 2, 19)):
                    jobs.append((False, f"{end} grid, {mode}, reduce={red}, {nt} transmitters, {no} objects, {nr} receivers, {m} x {n} cells", lambda a=(end, mode, red, nt, no, nr, m, n, "same", {}, True, False, None): run(*a)))
    def keyed(end, no, kw):
        """with a random key: one key per candidate, all different, reaching the path method"""
        q = concrete(dict(inputs(2, no, 2), X=real(2, 2), Y=real(2, 2), k=key()), 5); s = mkscene(q, 2, no, 2)
        ks = []
        class KPath(RPath):
            @classmethod
            def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw2):
                if key is None: raise AssertionError("the key does not reach the path method")
                ks.append(tuple(np.asarray(key).tolist())); return super().from_tx_objects_rx(tx, objects, rx, key=key, **kw2)
        list(grid_call(s, end, q.X, q.Y, afun, None, path_cls=KPath, key=q.k, **kw))
        nc = sum(len(c) for c in candidates(no, kw.get("min_order", 0), kw.get("max_order", 1), kw.get("order")))
        if len(set(ks)) < nc: return f"{len(set(ks))} different keys for {nc} candidates"
    for end in ends:
        for no, kw in ((2, {}), (3, dict(max_order=2)), (1, dict(order=1))): jobs.append((False, f"{end} grid with a key, {no} objects, {kw}", lambda a=(end, no, kw): keyed(*a)))
    jobs.sort(key=lambda j: j[0])
    for k, (_, l, f) in enumerate(jobs):
        if r.mine(k):
            if any(c for _, c in r.violations) and time.time() - r.t0 > 90: break
            ob(l, f, "the numbers of transmitters, objects, receivers and cells in the label")
    def native(name, size):
        end = "tx" if name.startswith("tra") else "rx"; mode = "both" if "value and" in name else "grad" if "gradient" in name else "value"
        return run(end, mode, "reduced" in name, size("T", 2), size("O", 3), size("R", 2), 2, 3, "same", {}, True, False, None) or run(end, mode, "reduced" in name, size("T", 2), size("O", 3), size("R", 2), 2, 3, f"last{size('O', 3)}" if size("O", 3) > 9 else "mixed", dict(order=1), True, False, None)
    seqs.run(r, SP.c24, native)
    return r.finish()
