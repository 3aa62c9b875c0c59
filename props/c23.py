"""Accumulation.  Path method, validity and accumulated function are uninterpreted functions of everything they are given."""
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP

FN = ("scene.Scene.accumulate_over_paths", "scene.Scene.all_paths", "scene.Scene.get_interacting_objects")


def MANY(x): return tuple(x * (i + 1) for i in range(9))
def NAMED(x): return {f"z{i}": x - i for i in range(7)}


def names(nt, nr): return [(TX[i], RX[j]) for i in range(nt) for j in range(nr)]


def makefun(log, nargs=0):
    def fun(t, x, p, objs, *args, **kw):
        log.append((type(t).__name__, type(x).__name__, type(p).__name__, [type(o).__name__ for o in objs], len(args), tuple(sorted(kw))))
        return afun(t, x, p, objs, *args, **kw)
    return fun


def expected(s, soft, fun, args, kw, **k):
    """the sum over the enumerated paths of each pair (C22 decides the enumeration)"""
    tot = {}
    for t, x, v, p, c in s.all_paths(**k):
        objs = [s.objects[int(i)] if not all(type(o) is type(s.objects[0]) for o in s.objects) else s.get_object(i) for i in c]
        tot[(t, x)] = tot.get((t, x), 0.0) + v * fun(s.transmitters[t], s.receivers[x], p, objs, *args, **kw)
    return tot


def check(r, tier):
    cs = []
    shapes = [(1, 0, 1), (1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 1, 3), (3, 1, 2), (0, 1, 2), (2, 1, 0)]
    orders = [{}, dict(order=1), dict(order=2), dict(min_order=1, max_order=2), dict(order=0), dict(min_order=2, max_order=1), dict(order=3)]
    for nt, no, nr in shapes:
        for kw in orders if (nt, no, nr) in ((1, 2, 1), (2, 1, 2), (1, 1, 1)) or tier != "quick" else orders[:2]:
            for soft in (False, True):
                for red in (False, True):
                    for args in ((), ("a", "k")) if (nt, no, nr) in ((1, 1, 1), (2, 1, 2)) and not kw else ((),):
                        I = dict(inputs(nt, no, nr), tol=real(pool=[.01, .5]), opt=real(), a1=real(), a2=real(2))
                        def fn(q, nt=nt, no=no, nr=nr, kw=kw, soft=soft, red=red, args=args):
                            s = mkscene(q, nt, no, nr); l1, l2 = [], []
                            fa = (q.a1, q.a2) if args else (); fk = {"u": q.a2, "s": "x"} if args else {}
                            k = dict(path_cls=APath, path_cls_kwargs={"opt": q.opt}, approx=soft, tol=q.tol, **kw)
                            opt = dict(fun_args=fa, fun_kwargs=fk) if args else {}
                            got = s.accumulate_over_paths(makefun(l1), reduce_all=red, **opt, **k)
                            got = got if red else list(got)
                            want = expected(s, soft, makefun(l2), fa, fk, **k)
                            if set(map(str, l1)) != set(map(str, l2)): raise StructViolation(f"the function is called with {l1}, expected {l2}")
                            ns = names(nt, nr)
                            if red: return got, [want.get(n, 0.0) for n in ns]
                            if [tuple(g[:2]) for g in got] != ns or any(len(g) != 3 for g in got): raise StructViolation(f"values for {[g[:2] for g in got]}, expected {ns}")
                            return [g[2] for g in got], [want.get(n, 0.0) for n in ns]
                        def ens(a, o, red=red):
                            if red:
                                return {"sum of the per-pair values": eq(lift(o[0]), sum([lift(x) for x in o[1]], const(0)))}
                            return {f"pair {k}: sum of validity times value": eq(lift(x), lift(y)) for k, (x, y) in enumerate(zip(*o))} or {"no pair": TRUE}
                        cs.append(Contract(f"accumulation, {nt} transmitters, {no} objects, {nr} receivers, {kw}, approx={soft}, reduce={red}, args={bool(args)}", I, fn, ens, functions=FN,
                                           bounded=f"{nt} transmitters, {no} objects, {nr} receivers"))
    r.run(cs)
    # ---------------------------------------------------------------- concrete executions: several classes of objects, keys, filters, global mode
    def ob(label, f, B):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("accumulation", label, d is None, "concrete execution with uninterpreted methods", d, bounded=B)
    jobs = []
    def run(nt, no, nr, kind, kw, red, keyed, soft, glob=None, filt=None):
        q = concrete(dict(inputs(nt, no, nr), k=key(), opt=real()), 7 * nt + no)
        s = mkscene(q, nt, no, nr, kind); l1, l2 = [], []
        k = dict(path_cls=RPath, path_cls_kwargs={"opt": q.opt}, patch=.25, **kw)
        if soft is not None: k["approx"] = soft
        if keyed: k["key"] = q.k
        if filt: k["filter_objects"] = filt
        with global_mode(glob or False):
            got = s.accumulate_over_paths(makefun(l1), reduce_all=red, fun_args=MANY(q.opt), fun_kwargs=NAMED(q.opt), **k)
            got = got if red else list(got)
            want = expected(s, soft, makefun(l2), MANY(q.opt), NAMED(q.opt), **k)
        ns = names(nt, nr)
        if set(map(str, l1)) != set(map(str, l2)): return f"the function is called with {l1}, expected {l2}"
        if red: return None if close(got, sum(want.get(n, 0.0) for n in ns), 1e-4) else f"{got}, expected {sum(want.values())}"
        if [tuple(g[:2]) for g in got] != ns: return f"values for {[g[:2] for g in got]}, expected {ns}"
        for g in got:
            if not close(g[2], want.get(tuple(g[:2]), 0.0), 1e-4): return f"{g}, expected {want.get(tuple(g[:2]), 0.0)}"
    for nt, no, nr in ((1, 3, 1), (2, 3, 2), (3, 4, 1), (1, 4, 3), (2, 0, 2), (6, 1, 7), (1, 12, 2), (13, 0, 1)):
        for kind in ("same", "mixed", "late"):
            for kw in ({}, dict(order=2), dict(max_order=3) if no * nr <= 3 else dict(min_order=1, max_order=2)):
                if nt * nr * no > 20 and (kw or kind == "late"): continue
                for red in (False, True):
                    for keyed, soft, glob in ((False, False, False), (True, True, False), (False, None, True)):
                        if tier == "quick" and keyed and kw: continue
                        jobs.append((glob, f"{nt} transmitters, {no} objects ({kind}), {nr} receivers, {kw}, reduce={red}, key={keyed}, approx={soft}, global={glob}", lambda a=(nt, no, nr, kind, kw, red, keyed, soft, glob): run(*a)))
    for nm, f in (("first class", lambda o: isinstance(o, AObj0)), ("none", lambda o: False), ("all", lambda o: True)):
        for red in (False, True):
            for kw in ({}, dict(order=1), dict(order=2)):
                jobs.append((False, f"filter {nm}, {kw}, reduce={red}", lambda red=red, kw=kw, f=f: run(2, 4, 2, "mixed", kw, red, False, False, False, f)))
    jobs.sort(key=lambda j: j[0])
    for k, (_, l, f) in enumerate(jobs):
        if r.mine(k):
            if any(c for _, c in r.violations) and time.time() - r.t0 > 90: break
            ob(l, f, "the numbers of transmitters, objects and receivers in the label")
    seqs.run(r, SP.c23, lambda name, size: run(size("T", 2), size("O", 3), size("R", 2), "same", {}, "reduced" in name, False, False, False) or run(size("T", 2), size("O", 3), size("R", 2), f"last{size('O', 3)}" if size("O", 3) > 9 else "mixed", dict(order=1), "reduced" in name, False, False, False))
    return r.finish()
