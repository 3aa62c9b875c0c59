"""Path candidates: compared with an independent enumeration (the graph library is a compiled dependency, so sizes are bounded)."""
import itertools
import time
import equinox as eqx
from engine.verify import *
from props import big as BIG
from props.abstract import *
from engine import seqs
from props import seqprops as SP
from differt2d import scene as S

FN = ("scene.all_path_candidates", "scene.Scene.all_path_candidates")


class TObj(AObj):
    tag: int = eqx.field(static=True, default=0)


class TObj0(AObj0):
    tag: int = eqx.field(static=True, default=0)


def spec(n, lo=0, hi=1, order=None, banned=()):
    """list of sets, one per order"""
    ok = [i for i in range(n) if i not in banned]
    def walks(k):
        out = {()}
        for _ in range(k): out = {w + (i,) for w in out for i in ok if not w or w[-1] != i}
        return out
    rng = range(lo, hi + 1) if order is None else [order]
    return [(k, walks(k)) for k in rng]


def compare(got, want):
    got = [np.asarray(g) for g in got]
    if any(g.ndim != 1 or g.dtype.kind != "i" for g in got): return f"not index vectors: {[(g.shape, str(g.dtype)) for g in got][:5]}"
    seq = [tuple(int(x) for x in g) for g in got]
    orders = [len(s) for s in seq]
    if orders != sorted(orders): return f"orders are not increasing: {orders[:20]}"
    if len(set(seq)) != len(seq): return f"repeated candidates: {[s for s in seq if seq.count(s) > 1][:3]}"
    w = set().union(*[s for _, s in want]) if want else set()
    if set(seq) != w: return f"missing {sorted(w - set(seq))[:3]}, extra {sorted(set(seq) - w)[:3]}"
    return None


def check(r, tier):
    r.extra["functions"] = list(FN)
    work = []
    thorough = tier != "quick"
    N = 6 if thorough else 5
    for n in range(0, N + 1):
        work.append((n, {}))
        for k in range(0, 5 if thorough or n <= 3 else 4): work.append((n, dict(order=k)))
        for lo in range(0, 4):
            for hi in range(lo - 1 if lo else 0, 4):
                if n <= 3 or thorough or (lo, hi) in ((0, 2), (1, 2), (2, 3), (0, 3)): work.append((n, dict(min_order=lo, max_order=hi)))
        work.append((n, dict(min_order=3, max_order=1, order=2))); work.append((n, dict(max_order=2))); work.append((n, dict(min_order=1)))
    for n in (9, 14, 20, 30, 41): work += [(n, {}), (n, dict(order=2))]
    work.append((33, dict(order=1))); work.append((70, dict(max_order=1))); work.append((12, dict(order=3))); work.append((150, dict(order=1)))
    flt = [(n, sub) for n in range(1, 5 if thorough else 4) for k in range(0, n + 1) for sub in itertools.combinations(range(n), k)] + [(6, (0, 5)), (6, (2, 3)), (8, (1, 4, 7))]
    def one(label, B, call, want, inputs):
        try: d = compare(call(), want)
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:200]}"
        r.manual_obligation("path candidates", label, d is None, "comparison with an independent enumeration", d, bounded=B, inputs=inputs)
    B1, B2 = "sizes listed in DESIGN.md (up to 70 objects, order up to 4)", "every subset of up to 3 objects (4 thorough) and samples"
    def sp(n, kw, banned=()): return spec(n, kw.get("min_order", 0), kw.get("max_order", 1), kw.get("order"), banned)
    jobs = []
    for n, kw in work:
        jobs.append(lambda n=n, kw=kw: one(f"all_path_candidates({n}, {kw})", B1, lambda: S.all_path_candidates(n, **kw), sp(n, kw), {"num_nodes": n, **kw}))
    for n, sub in flt:
        for kw in ({}, dict(order=2), dict(min_order=1, max_order=3 if n <= 4 else 2)):
            jobs.append(lambda n=n, sub=sub, kw=kw: one(f"all_path_candidates({n}, filter_nodes={sub}, {kw})", B2, lambda: S.all_path_candidates(n, filter_nodes=sub, **kw), sp(n, kw, sub), {"num_nodes": n, "filter_nodes": sub, **kw}))
            def scene(n=n, sub=sub, kw=kw):
                s = S.Scene(transmitters={}, receivers={}, objects=[(TObj if i % 2 else TObj0)(ident=0.0, tag=i) for i in range(n)])
                keep = lambda o: o.tag not in sub
                one(f"scene of {n} objects, filter removing {sub}, {kw}", B2, lambda: s.all_path_candidates(filter_objects=keep, **kw), sp(n, kw, sub), {"objects": n, "removed": sub, **kw})
                if not sub: one(f"scene of {n} objects, {kw}", B2, lambda: s.all_path_candidates(**kw), sp(n, kw), {"objects": n, **kw})
            jobs.append(scene)
    def bytype(n=5, kind="walls"):
        s_ = S.Scene(transmitters={}, receivers={}, objects=[(G.Wall, G.Vertex, G.RIS)[i % 3](**({"xy": jnp.zeros(2)} if i % 3 == 1 else {"xys": jnp.zeros((2, 2))})) for i in range(n)])
        keep = {"walls": lambda o: isinstance(o, G.Wall), "vertices": lambda o: isinstance(o, G.Vertex), "surfaces": lambda o: type(o) is G.RIS, "none": lambda o: False, "all": lambda o: True}[kind]
        banned = [i for i in range(n) if not {"walls": i % 3 != 1, "vertices": i % 3 == 1, "surfaces": i % 3 == 2, "none": False, "all": True}[kind]]
        for kw in ({}, dict(order=2), dict(max_order=3)): one(f"scene of {n} objects, only {kind}, {kw}", B2, lambda: s_.all_path_candidates(filter_objects=keep, **kw), sp(n, kw, banned), {"objects": n, "kept": kind, **kw})
    for kind in ("walls", "vertices", "surfaces", "none", "all"):
        for n in (1, 3, 5): jobs.append(lambda n=n, kind=kind: bytype(n, kind))
    TRUTHS = {"numbers": (0, 1), "numpy booleans": (np.bool_(False), np.bool_(True)), "nothing or text": (None, "yes"), "containers": ((), (0,))}
    def truths(kind, n=4):
        """a filter is used for the truth value of what it returns"""
        s_ = S.Scene(transmitters={}, receivers={}, objects=[(TObj if i % 2 else TObj0)(ident=0.0, tag=i) for i in range(n)])
        for sub in ((), (1,), (0, 3), (0, 1, 2, 3)):
            keep = lambda o: TRUTHS[kind][o.tag not in sub]
            for kw in ({}, dict(order=2)): one(f"scene of {n} objects, filter returning {kind}, removing {sub}, {kw}", B2, lambda: s_.all_path_candidates(filter_objects=keep, **kw), sp(n, kw, sub), {"objects": n, "removed": sub, **kw})
    for kind in TRUTHS: jobs.append(lambda kind=kind: truths(kind))
    def many_removed(m):
        n = m + 3; sub = tuple(range(1, m + 1)); s_ = S.Scene(transmitters={}, receivers={}, objects=[(TObj if i % 2 else TObj0)(ident=0.0, tag=i) for i in range(n)])
        keep = lambda o: o.tag not in sub
        for kw in (dict(order=1), dict(order=2)) if n < 90 else (dict(order=1),):
            one(f"all_path_candidates({n}), {m} removed, {kw}", B3, lambda: S.all_path_candidates(n, filter_nodes=sub, **kw), sp(n, kw, sub), {"num_nodes": n, "filter_nodes": sub, **kw})
            one(f"scene of {n} objects, {m} removed, {kw}", B3, lambda: s_.all_path_candidates(filter_objects=keep, **kw), sp(n, kw, sub), {"objects": n, "removed": sub, **kw})
    B3 = "numbers of removed objects next to a number written in the source"
    for m in BIG.sizes(): jobs.append(lambda m=m: many_removed(m))
    t0 = time.time()
    for k, j in enumerate(jobs):
        if r.mine(k):
            j()
            if r.violations and time.time() - t0 > 30: break
    def native(name, size):
        if name.startswith("Scene."):
            n = size("O", 3); b = (0, n - 1) if "filter" in name and n else ()
            s = S.Scene(transmitters={}, receivers={}, objects=[(TObj if i % 2 else TObj0)(ident=0.0, tag=i) for i in range(n)])
            for kw in ({}, dict(order=1), dict(order=2) if n < 40 else {}):
                d = compare(s.all_path_candidates(**kw, **(dict(filter_objects=lambda o: o.tag not in b) if "filter" in name else {})), sp(n, kw, b))
                if d: return f"{kw}: {d}"
            return None
        n = size("objects", 3); b = tuple(dict.fromkeys((*range(min(n, size("banned", 2) - 1)), *range(n - 1, n)))) if "excluded" in name else ()
        for kw in ({}, dict(order=1), dict(order=2) if n < 40 else {}):
            d = compare(S.all_path_candidates(n, **kw, **(dict(filter_nodes=b) if "excluded" in name else {})), sp(n, kw, b))
            if d: return f"{kw}: {d}"
    seqs.run(r, SP.c21, native)
    return r.finish()
