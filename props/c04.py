from engine.verify import *
from props.spec import *
from props.abstract import *
from differt2d import geometry as G, logic as L
from differt2d.scene import Scene

FN = ("geometry.segments_intersect", "geometry.Wall.contains_parametric", "geometry.Wall.intersects_cartesian", "geometry.Vertex.contains_parametric",
      "geometry.Vertex.intersects_cartesian", "geometry.Path.on_objects", "geometry.Path.intersects_with_objects", "geometry.Path.is_valid",
      "logic.logical_and", "logic.logical_or", "logic.logical_not", "logic.logical_all", "logic.greater_equal", "logic.less_equal", "logic.less")
FS = ("scene.Scene.all_paths", "scene.Scene.all_valid_paths", "scene.Scene.accumulate_over_paths",
      "scene.Scene.accumulate_on_transmitters_grid_over_paths", "scene.Scene.accumulate_on_receivers_grid_over_paths")


def same(x, y, soft): return eq(x, y) if soft else iff(x, y)


def kinds():
    """(name, approx argument, keyword dictionary builder, algebra builder, global modes)"""
    A = lambda al: Soft(lambda d: app("act", d, al))
    yield "exact", False, lambda q: {}, lambda a: Exact, (False, True)
    yield "exact, slope given", False, lambda q: dict(alpha=q.al), lambda a: Exact, (True,)
    yield "approx, any activation and slope", True, lambda q: dict(alpha=q.al, function=my_act), lambda a: A(a.al), (False, True)
    yield "approx, activation only", True, lambda q: dict(function=my_act), lambda a: A(const(100)), (False, True)
    yield "unspecified in exact mode", None, lambda q: {}, lambda a: Exact, (False,)
    yield "unspecified in approx mode, any activation and slope", None, lambda q: dict(alpha=q.al, function=my_act), lambda a: A(a.al), (True,)


# option sets that must be equivalent to a fully explicit one: (name, approx, options, explicit options, global modes)
EQUIV = [("slope only", True, lambda q: dict(alpha=q.al), lambda q: dict(alpha=q.al, function=L.hard_sigmoid), (False, True)),
         ("no option", True, lambda q: {}, lambda q: dict(alpha=100.0, function=L.hard_sigmoid), (False, True)),
         ("smooth activation, default slope", True, lambda q: dict(function=L.sigmoid), lambda q: dict(alpha=100.0, function=L.sigmoid), (False, True)),
         ("unspecified in approx mode", None, lambda q: {}, lambda q: dict(alpha=100.0, function=L.hard_sigmoid), (True,))]


def kind_check(x, soft):
    if (np.dtype(x.dtype).kind == "b") == soft: raise StructViolation(f"result has dtype {x.dtype}")
    return x


def check(r, tier):
    cs = []
    W = real(2, 2)
    for nm, ap, kw, alg, modes in kinds():
        for gm in modes:
            soft = gm if ap is None else ap
            s = f"{nm}, global={'approx' if gm else 'exact'}"
            al = dict(al=posreal())
            def C(name, inputs, fn, ens, **k):
                cs.append(Contract(f"{name}: {s}", {**inputs, **al}, lambda q, fn=fn, soft=soft: kind_check(fn(q), soft),
                                   lambda a, o, ens=ens, soft=soft: {"value": same(o, ens(a), soft)}, functions=FN, mode=gm, **k))
            C("segments_intersect", dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2)),
              lambda q, ap=ap, kw=kw: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, approx=ap, **kw(q)),
              lambda a, alg=alg: segs(alg(a), a.P1, a.P2, a.P3, a.P4, const(Fr(5, 1000))))
            C("segments_intersect with tolerance", dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2), tol=real(pool=[0, .25, .5])),
              lambda q, ap=ap, kw=kw: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, tol=q.tol, approx=ap, **kw(q)),
              lambda a, alg=alg: segs(alg(a), a.P1, a.P2, a.P3, a.P4, a.tol))
            C("Wall.contains_parametric", dict(w=W, p=real(1)),
              lambda q, ap=ap, kw=kw: G.Wall(xys=q.w).contains_parametric(q.p, approx=ap, **kw(q)),
              lambda a, alg=alg: contains(alg(a), a.p[0]))
            C("Wall.intersects_cartesian", dict(w=W, r=real(2, 2), patch=real(pool=[0, .5, .25])),
              lambda q, ap=ap, kw=kw: G.Wall(xys=q.w).intersects_cartesian(q.r, patch=q.patch, approx=ap, **kw(q)),
              lambda a, alg=alg: wall_hits(alg(a), a.w, a.r[0], a.r[1], a.patch))
            C("RIS.intersects_cartesian", dict(w=W, r=real(2, 2)),
              lambda q, ap=ap, kw=kw: G.RIS(xys=q.w).intersects_cartesian(q.r, approx=ap, **kw(q)),
              lambda a, alg=alg: wall_hits(alg(a), a.w, a.r[0], a.r[1], ZERO))
            C("Vertex", dict(v=real(2), r=real(2, 2)),
              lambda q, ap=ap, kw=kw: L.logical_and(G.Vertex(xy=q.v).contains_parametric(jnp.zeros(0), approx=ap, **kw(q)),
                                                    L.logical_not(G.Vertex(xy=q.v).intersects_cartesian(q.r, approx=ap, **kw(q)), approx=ap), approx=ap),
              lambda a, soft=soft: ONE if soft else TRUE)
            # path level: all objects at once through abstract objects, which record the options they receive
            tagd = {"exact": "", "exact, slope given": "alpha=#", "approx, activation only": "function=my_act",
                    "unspecified in exact mode": ""}.get(nm, "alpha=#,function=my_act")
            def ext_args(a, tagd=tagd): return [a.al] if "alpha" in tagd else []
            def on_spec(a, alg, soft=soft, tagd=tagd, ext_args=ext_args):
                A = alg(a); rs = []
                for i in range(2):
                    p = tu("c2p1", a.ids[i], a.xys[i + 1], shape=(1,))
                    rs.append(tpred("contains", soft, tagd, a.ids[i], p, *ext_args(a)))
                return A.and_(ONE, *rs) if soft else conj(*rs)
            def obs_spec(a, alg, n, cand, soft=soft, tagd=tagd, ext_args=ext_args):
                A = alg(a); rs = []
                for i in range(n - 1):
                    for j in range(3):
                        if j in ([-1, *cand, -1][i], [-1, *cand, -1][i + 1]): continue
                        rs.append(tpred("hits", soft, tagd, a.obs[j], a.xys[i], a.xys[i + 1], a.patch, *ext_args(a)))
                return A.or_(ZERO, *rs) if soft else disj(*rs)
            B = "paths of 2 interactions over 3 objects (every object, option and coordinate unbounded)"
            I = dict(xys=real(4, 2), ids=real(2), obs=real(3), patch=real(pool=[0, .5]), tol=real(pool=[.01, .5]), loss=real(pool=[0, .01, .5]))
            cand = (2, 0)
            C("Path.on_objects", I, lambda q, ap=ap, kw=kw: G.Path(xys=q.xys).on_objects([AObj(q.ids[0]), AObj(q.ids[1])], approx=ap, **kw(q)),
              lambda a, alg=alg, f=on_spec: f(a, alg), bounded=B)
            C("Path.intersects_with_objects", I, lambda q, ap=ap, kw=kw: G.Path(xys=q.xys).intersects_with_objects(
                [AObj(q.obs[j]) for j in range(3)], jnp.array(cand, dtype=jnp.int32), patch=q.patch, approx=ap, **kw(q)),
              lambda a, alg=alg, f=obs_spec: f(a, alg, 4, cand), bounded=B)
            for nobj, nint in ((0, 0), (2, 0), (0, 2)):
                Z = dict(I); cz = jnp.zeros(nint, dtype=jnp.int32) + 5
                mk_ = lambda ids, m: [AObj(ids[j]) for j in range(m)]
                C(f"Path.on_objects, {nint} interactions, {nobj} objects", Z, lambda q, ap=ap, kw=kw, nint=nint: G.Path(xys=q.xys[:nint + 2]).on_objects(mk_(q.ids, nint), approx=ap, **kw(q)),
                  (lambda a, alg=alg, soft=soft: ONE if soft else TRUE) if nint == 0 else (lambda a, alg=alg, f=on_spec: f(a, alg)), bounded=f"{nint} interactions") if nobj == 0 else None
                if nobj and not nint or not nobj:
                    C(f"Path.intersects_with_objects, {nint} interactions, {nobj} objects", Z, lambda q, ap=ap, kw=kw, nobj=nobj, nint=nint, cz=cz: G.Path(xys=q.xys[:nint + 2]).intersects_with_objects(mk_(q.obs, nobj), cz, patch=q.patch, approx=ap, **kw(q)),
                      lambda a, alg=alg, nobj=nobj, soft=soft, tagd=tagd, ext_args=ext_args: (lambda A, rs: A.or_(ZERO, *rs) if soft else disj(*rs))(alg(a), [tpred("hits", soft, tagd, a.obs[j], a.xys[0], a.xys[1], a.patch, *ext_args(a)) for j in range(nobj)]), bounded=f"{nobj} objects, {nint} interactions")
                    C(f"Path.is_valid, {nint} interactions, {nobj} objects", Z, lambda q, ap=ap, kw=kw, nobj=nobj, nint=nint, cz=cz: G.Path(xys=q.xys[:nint + 2], loss=q.loss).is_valid(mk_(q.obs, nobj), cz, mk_(q.ids, nint), tol=q.tol, patch=q.patch, approx=ap, **kw(q)),
                      lambda a, alg=alg, nobj=nobj, nint=nint, soft=soft, tagd=tagd, ext_args=ext_args, f=on_spec: (lambda A, rs: A.and_(*([f(a, alg)] if nint else []), A.not_(A.or_(ZERO, *rs) if soft else disj(*rs)), A.lt(a.loss, a.tol)))(alg(a), [tpred("hits", soft, tagd, a.obs[j], a.xys[0], a.xys[1], a.patch, *ext_args(a)) for j in range(nobj)]), bounded=f"{nobj} objects, {nint} interactions")
            def valid_spec(a, alg, f=on_spec, g=obs_spec, soft=soft):
                A = alg(a)
                return A.and_(f(a, alg), A.not_(g(a, alg, 4, cand)), A.lt(a.loss, a.tol))
            C("Path.is_valid", I, lambda q, ap=ap, kw=kw: G.Path(xys=q.xys, loss=q.loss).is_valid([AObj(q.obs[j]) for j in range(3)],
                jnp.array(cand, dtype=jnp.int32), [AObj(q.ids[0]), AObj(q.ids[1])], tol=q.tol, patch=q.patch, approx=ap, **kw(q)),
              lambda a, alg=alg, f=valid_spec: f(a, alg), bounded=B)
            # scene level
            def scene(q): return Scene(transmitters={"t": G.Point(xy=q.t)}, receivers={"r": G.Point(xy=q.r)}, objects=[AObj(q.obs[0]), AObj(q.obs[1])])
            J = dict(t=real(2), r=real(2), obs=real(2), patch=real(pool=[0, .5]), tol=real(pool=[.01, .5]))
            cands = [(0,), (1,)]
            def tval(a, c, soft=soft, tagd=tagd, t=None, rr=None):
                p = tu("path1||", a.t if t is None else t, a.obs[c[0]], a.r if rr is None else rr, shape=(3, 2))
                extra = {**({"alpha": a.al} if "alpha" in tagd else {}), "patch": a.patch, "tol": a.tol, **({"function": None} if "function" in tagd else {})}
                tag = ",".join(f"{k}=my_act" if k == "function" else f"{k}=#" for k in sorted(extra))
                return p, tpred("valid1", soft, tag, p, a.obs, c, [a.obs[i] for i in c], *[extra[k] for k in sorted(extra) if k != "function"])
            def tsum(a, soft=soft, f=tval, t=None, rr=None):
                z = ZERO
                for c in cands:
                    p, v = f(a, c, t=t, rr=rr)
                    g = tu("fun0|", a.t if t is None else t, a.r if rr is None else rr, p, [a.obs[i] for i in c])
                    z = z + (v * g if soft else ite(v, g, ZERO))
                return z
            B2 = "2 objects, one transmitter and receiver, order 1"
            cs.append(Contract(f"Scene.all_paths: {s}", {**J, **al}, lambda q, ap=ap, kw=kw, soft=soft: [
                kind_check(v, soft) for _, _, v, _, _ in scene(q).all_paths(path_cls=APath, order=1, approx=ap, patch=q.patch, tol=q.tol, **kw(q))],
                lambda a, o, f=tval, soft=soft: {f"candidate {c}": same(o[i], f(a, c)[1], soft) for i, c in enumerate(cands)} if len(o) == 2 else {"count": FALSE}, functions=FS, mode=gm, bounded=B2))
            cs.append(Contract(f"Scene.accumulate_over_paths: {s}", {**J, **al}, lambda q, ap=ap, kw=kw:
                scene(q).accumulate_over_paths(afun, reduce_all=True, path_cls=APath, order=1, approx=ap, patch=q.patch, tol=q.tol, **kw(q)),
                lambda a, o, f=tsum: {"value": eq(o, f(a))}, functions=FS, mode=gm, bounded=B2))
            for end in ("transmitters", "receivers"):
                cs.append(Contract(f"Scene.accumulate_on_{end}_grid_over_paths: {s}", {**J, **al}, lambda q, ap=ap, kw=kw, end=end:
                    getattr(scene(q), f"accumulate_on_{end}_grid_over_paths")(jnp.array([[q.t[0] if end[0] == "t" else q.r[0]]]), jnp.array([[q.t[1] if end[0] == "t" else q.r[1]]]), afun, reduce_all=True,
                    path_cls=APath, order=1, approx=ap, patch=q.patch, tol=q.tol, **kw(q))[0, 0],
                    lambda a, o, f=tsum: {"value": eq(o, f(a))}, functions=FS, mode=gm, bounded=B2))
    for nm, ap, kw, ex, modes in EQUIV:
        for gm in modes:
            def E(name, inputs, f, **k):
                cs.append(Contract(f"{name}: {nm} = explicit options, global={'approx' if gm else 'exact'}", {**inputs, "al": posreal()},
                    lambda q, f=f, ap=ap, kw=kw, ex=ex: (kind_check(f(q, approx=ap, **kw(q)), True), f(q, approx=True, **ex(q))),
                    lambda a, o: {"equal": eq(o[0], o[1])}, functions=FN, mode=gm, finite=False, **k))
            E("segments_intersect", dict(P1=real(2), P2=real(2), P3=real(2), P4=real(2)), lambda q, **k: G.segments_intersect(q.P1, q.P2, q.P3, q.P4, **k))
            E("Wall.contains_parametric", dict(w=W, p=real(1)), lambda q, **k: G.Wall(xys=q.w).contains_parametric(q.p, **k))
            E("Wall.intersects_cartesian", dict(w=W, r=real(2, 2), patch=real()), lambda q, **k: G.Wall(xys=q.w).intersects_cartesian(q.r, patch=q.patch, **k))
            E("Path.is_valid", dict(w=real(3, 2, 2), xys=real(4, 2), loss=real()), lambda q, **k: G.Path(xys=q.xys, loss=q.loss).is_valid(
                ws := [G.Wall(xys=q.w[i]) for i in range(3)], jnp.array([2, 0], dtype=jnp.int32), [ws[2], ws[0]], **k), bounded="2 interactions, 3 walls")
    r.run(cs)
    # the enumeration of valid paths branches on the truth values, so it is executed
    def valids(scene, order, soft, al, f, gm):
        kw = {} if not (soft or soft is None and gm) else dict(**({} if al is None else dict(alpha=al)), **({} if f is None else dict(function=f)))
        ap = gm if soft is None else soft
        with global_mode(False):
            ents = [(t, x, v, c) for t, x, v, p, c in scene.all_paths(order=order, approx=ap, **kw)]
        want = [(t, x, tuple(map(int, c))) for t, x, v, c in ents if (float(v) > 0.5 if ap else bool(v))]
        with global_mode(gm): got = [(t, x, tuple(map(int, c))) for t, x, p, c in scene.all_valid_paths(order=order, **({} if soft is None else dict(approx=soft)), **kw)]
        if got != want: return f"valid paths {got}, expected {want}"
    jobs = []
    scs = {"square scene with wall": Scene.square_scene_with_wall(), "basic scene": Scene.basic_scene(), "two transmitters": Scene.square_scene().with_transmitters(a=G.Point(xy=jnp.array([.1, .2])), b=G.Point(xy=jnp.array([.7, .4]))), "no object": Scene.square_scene().with_objects()}
    for sn, s in scs.items():
        for order in (0, 1, 2) if sn != "no object" else (0,):
            for soft in (False, True, None):
                for al, f in ((None, None), (1.0, None), (3.0, L.sigmoid)):
                    for gm in (False, True):
                        if al and not (soft or soft is None and gm) or order == 2 and (sn == "basic scene" or al is None): continue
                        jobs.append((gm, f"all_valid_paths, {sn}, order {order}, approx={soft}, slope {al}, {f and f.__name__}, global={'approx' if gm else 'exact'}", (s, order, soft, al, f, gm)))
    jobs.sort(key=lambda j: j[0])
    for k, (_, l, a) in enumerate(jobs):
        if r.mine(k):
            try: d = valids(*a)
            except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
            r.manual_obligation("Scene.all_valid_paths", l, d is None, "concrete execution", d, bounded="the scene in the label")
    return r.finish()
