"""Path enumeration.  Scenes of arbitrary objects; the path method and its validity are uninterpreted functions of everything they are given."""
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP
import differt2d.logic as L

FN = ("scene.Scene.all_paths", "scene.Scene.all_valid_paths", "scene.Scene.all_transmitter_receiver_pairs", "scene.Scene.get_interacting_objects")


def wellformed(entries, nt, nr, cands):
    """names, order of the pairs, every candidate once"""
    got = []
    for e in entries:
        if not (isinstance(e, tuple) and len(e) == 5): raise StructViolation(f"an entry is {type(e).__name__} of length {len(e)}")
        got.append((e[0], e[1]))
    per = sum(len(c) for c in cands)
    want = [(TX[i], RX[j]) for i in range(nt) for j in range(nr) for _ in range(per)]
    if got != want: raise StructViolation(f"pairs {got}, expected {want}")
    for e in entries:
        if e[4].ndim != 1: raise StructViolation(f"candidate of shape {e[4].shape}")
    orders = [e[4].shape[0] for e in entries]
    per_pair = [len(c[0]) if c else 0 for c in cands for _ in c]
    if orders != per_pair * (nt * nr): raise StructViolation(f"candidate orders {orders}")


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    shapes = [(1, 0, 1), (1, 1, 1), (1, 2, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 3), (3, 1, 2), (1, 3, 1), (0, 2, 1), (1, 2, 0)]
    orders = [{}, dict(order=1), dict(order=2), dict(min_order=1, max_order=2), dict(order=0)]
    # ---------------------------------------------------------------- symbolic: scenes of one class of objects
    for nt, no, nr in shapes:
        for kw in orders if (nt, no, nr) in ((1, 2, 1), (2, 2, 1), (1, 2, 2)) or tier != "quick" else orders[:2]:
            for soft in (False, True):
                cands = candidates(no, kw.get("min_order", 0), kw.get("max_order", 1), kw.get("order"))
                I = dict(inputs(nt, no, nr), tol=real(pool=[.01, .5]), opt=real())
                def fn(q, nt=nt, no=no, nr=nr, kw=kw, soft=soft, cands=cands):
                    s = mkscene(q, nt, no, nr)
                    es = list(s.all_paths(path_cls=APath, path_cls_kwargs={"opt": q.opt, "flag": True}, approx=soft, tol=q.tol, **kw))
                    wellformed(es, nt, nr, cands)
                    out = []
                    for e in es:
                        t, x = s.transmitters[e[0]], s.receivers[e[1]]
                        obj = [AObj(ident=q.ids[i]) for i in e[4]]
                        p = APath.from_tx_objects_rx(t, obj, x, opt=q.opt, flag=True)
                        if type(e[3]) is not APath: raise StructViolation(f"a {type(e[3]).__name__} is returned")
                        out.append((e[2], e[3].xys, p.xys, e[3].is_valid(s.objects, e[4], obj, approx=soft, tol=q.tol), [i for i in e[4]]))
                    return out
                def ens(a, o, nt=nt, nr=nr, soft=soft, cands=cands):
                    d = {}
                    for k, (v, xys, p, w, ii) in enumerate(o):
                        d[f"entry {k}: path between that pair over the candidate's objects"] = conj(*[eq(x, y) for x, y in zip(flat(xys), flat(p))])
                        d[f"entry {k}: validity of that path"] = eq(v, w) if soft else iff(v, w)
                    got = []
                    for *_, ii in o: got.append(tuple(int(x.args[0]) if isinstance(x, T) and x.op == "c" else None for x in ii))
                    if not NATIVE[0] or all(None not in s for s in got):
                        per = sum(len(c) for c in cands)
                        for k in range(nt * nr):
                            bad = in_orders(got[k * per:(k + 1) * per], cands)
                            d[f"pair {k}: every candidate exactly once"] = TRUE if bad is None else FALSE
                            d[f"pair {k}: same order of candidates"] = TRUE if got[k * per:(k + 1) * per] == got[:per] else FALSE
                    return d
                C(f"all_paths, {nt} transmitters, {no} objects, {nr} receivers, {kw}, approx={soft}", I, fn, ens, bounded=f"{nt} transmitters, {no} objects, {nr} receivers")
    r.run(cs)
    # ---------------------------------------------------------------- concrete executions: scenes of several classes, keys, filters, global mode
    def ob(label, f, B, inputs=None):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("enumeration", label, d is None, "concrete execution with uninterpreted methods", d, bounded=B, inputs=inputs)
    jobs = []
    def enumerated(nt, no, nr, kind, kw, keyed):
        q = concrete(dict(inputs(nt, no, nr), k=key(), opt=real()), 7 * nt + no)
        s = mkscene(q, nt, no, nr, kind)
        es = list(s.all_paths(path_cls=RPath, path_cls_kwargs={"opt": q.opt}, approx=False, patch=.25, **kw, **(dict(key=q.k) if keyed else {})))
        cands = candidates(no, kw.get("min_order", 0), kw.get("max_order", 1), kw.get("order"))
        try: wellformed(es, nt, nr, cands)
        except StructViolation as e: return str(e)
        per = sum(len(c) for c in cands); keys = set()
        for k in range(nt * nr):
            bad = in_orders([tuple(int(i) for i in e[4]) for e in es[k * per:(k + 1) * per]], cands)
            if bad: return bad
        for n, e in enumerate(es):
            obj = [s.objects[int(i)] for i in e[4]]
            if (e[3].key is None) == keyed: return "the key does not reach the path method" if keyed else "a key is made up"
            if keyed: keys.add(tuple(np.asarray(e[3].key).tolist()))
            p = APath.from_tx_objects_rx(s.transmitters[e[0]], obj, s.receivers[e[1]], key=None if not keyed else jnp.asarray(e[3].key), opt=q.opt)
            if not close(p.xys, e[3].xys): return f"entry {n} {e[:2]} {e[4]}: not the path between that pair over the candidate's objects in order"
            if not close(e[2], e[3].is_valid(s.objects, e[4], obj, approx=False, patch=.25)): return f"entry {n} {e[:2]} {e[4]}: not the validity of that path against all objects"
        if keyed and len(keys) != len(es): return f"{len(keys)} different keys for {len(es)} paths"
    S2 = [(1, 1, 1), (1, 3, 1), (2, 3, 2), (1, 4, 1), (3, 2, 1), (2, 0, 2), (1, 5, 1), (6, 1, 7), (1, 12, 2), (11, 0, 1), (1, 1, 13)]
    for nt, no, nr in S2:
        for kind in ("same", "mixed", "late"):
            for kw in ({}, dict(order=2), dict(min_order=1, max_order=2), dict(max_order=3) if no <= 3 else dict(order=1)):
                if no > 5 and kw.get("max_order", kw.get("order", 1)) > 1: continue
                if nt * nr > 12 and (kind == "late" or kw): continue
                for keyed in (False, True):
                    if tier == "quick" and kind == "late" and keyed: continue
                    jobs.append((f"{nt} transmitters, {no} objects ({kind}), {nr} receivers, {kw}, {'with' if keyed else 'no'} key", lambda a=(nt, no, nr, kind, kw, keyed): enumerated(*a)))
    for no, ks in ((2, (3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 21, 33)), (3, (4, 5)), (5, (3,))):      # long candidates, objects revisited
        for k in ks:
            for kind in ("same", "mixed"): jobs.append((f"1 transmitter, {no} objects ({kind}), 1 receiver, order {k}", lambda a=(1, no, 1, kind, dict(order=k), False): enumerated(*a)))
    def filtered(no, sub, kind):
        q = concrete(inputs(2, no, 1), 3); s = mkscene(q, 2, no, 1, kind)
        keep = {"AObj0": AObj0, "AObj2": AObj2}[sub]
        es = list(s.all_paths(path_cls=APath, order=1, filter_objects=lambda o: isinstance(o, keep), approx=False))
        idx = [i for i in range(no) if KINDS[kind](i) is keep]
        if [(e[0], e[1], int(e[4][0])) for e in es] != [(TX[k], RX[0], i) for k in range(2) for i in idx]: return f"{[(e[0], e[1], e[4]) for e in es]}"
        for e in es:
            if not close(e[2], e[3].is_valid(s.objects, e[4], [s.objects[int(e[4][0])]], approx=False)): return "validity is not evaluated against all scene objects"
    for no in (3, 5): jobs.append((f"filter, {no} objects", lambda no=no: filtered(no, "AObj0", "mixed"))); jobs.append((f"filter 2, {no} objects", lambda no=no: filtered(no, "AObj2", "mixed")))
    # valid paths: every pattern of validities
    class VPath(APath):
        t: Any = None
        x: Any = None
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
            return cls(xys=APath.from_tx_objects_rx(tx, objects, rx, key=key, **kw).xys, loss=jnp.array(0.0), t=tx.xy, x=rx.xy)
        def is_valid(self, objects, path_candidate, interacting_objects, approx=None, table=None, **kw):
            if approx not in TABLE_APPROX: raise AssertionError(f"validity was asked with approx={approx}")
            return TABLE[(float(self.t[0]), float(self.x[0]), tuple(int(i) for i in path_candidate))]
    TABLE = {}; TABLE_APPROX = []
    def valids(nt, no, nr, soft, glob, pats, kw):
        q = concrete(inputs(nt, no, nr), 11); s = mkscene(q, nt, no, nr)
        cands = [c for w in candidates(no, kw.get("min_order", 0), kw.get("max_order", 1), kw.get("order")) for c in w]
        ks = [(i, j, c) for i in range(nt) for j in range(nr) for c in cands]
        use = glob if soft is None else soft
        levels = [0.0, .25, .5, .51, 1.0] if use else [False, True]
        for pat in pats(len(ks), len(levels)):
            TABLE.clear(); TABLE_APPROX[:] = [soft] if soft is not None else [None, glob]
            for (i, j, c), p in zip(ks, pat): TABLE[(float(q.tx[i, 0]), float(q.rx[j, 0]), c)] = jnp.array(levels[p])
            with global_mode(glob):
                es = list(s.all_valid_paths(path_cls=VPath, **kw, **({} if soft is None else dict(approx=soft))))
                al = list(s.all_paths(path_cls=VPath, approx=soft, **kw))
            want = [e for e in al if bool(L.is_true(e[2], approx=use))]
            if len(es) != len(want): return f"pattern {pat}: {len(es)} valid paths, expected {len(want)}"
            for e, w in zip(es, want):
                if not (len(e) == 4 and e[:2] == w[:2] and close(e[2].xys, w[3].xys) and close(e[3], w[4])): return f"pattern {pat}: entry {e[:2]} {e[3]} expected {w[:2]} {w[4]}"
            if len(al) != len(ks): return f"{len(al)} entries"
            for e in al:
                if not close(e[2], TABLE[(float(e[3].t[0]), float(e[3].x[0]), tuple(int(i) for i in e[4]))]): return "validities differ"
    def every(n, m): return itertools.product(range(m), repeat=n) if m ** n <= 70 else [tuple(np.random.default_rng(SEED + k).integers(0, m, size=n)) for k in range(40)]
    for nt, no, nr, kw in ((1, 2, 1, {}), (2, 1, 1, {}), (1, 2, 2, dict(order=1)), (1, 1, 2, {}), (2, 2, 2, {})):
        for soft, glob in ((False, False), (True, False), (False, True), (None, True), (None, False)):
            jobs.append((f"valid paths, {nt} transmitters, {no} objects, {nr} receivers, {kw}, approx={soft}, global={glob}", lambda a=(nt, no, nr, soft, glob), kw=kw: valids(*a, every, kw)))
    import time
    t0 = time.time()
    for k, (l, f) in enumerate(jobs):
        if r.mine(k):
            ob(l, f, "the numbers of transmitters, objects and receivers in the label")
            if r.violations and time.time() - t0 > 30: break
    def native(name, size):
        f = enumerated(size("T", 2), size("O", 3), size("R", 2), "same", {}, False)
        return f or enumerated(size("T", 2), size("O", 3), size("R", 2), f"last{size('O', 3)}" if size("O", 3) > 9 else "mixed", dict(order=1), False)
    seqs.run(r, SP.c22, native)
    return r.finish()
