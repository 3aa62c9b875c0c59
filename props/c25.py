"""Scene editing.  Points and objects are opaque tokens: no operation may look at their coordinates, so each run stands for every value."""
from engine.verify import *
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP
from collections import OrderedDict

FN = tuple("scene.Scene." + n for n in ("with_transmitters", "with_receivers", "with_objects", "filter_objects", "update_transmitters", "update_receivers", "add_objects", "rename_transmitters", "rename_receivers"))
NM = ["tx_b", "a", "", "A", "self_", "tx_10", "tx_2", "objects"]
NM += [f"more_{k}" for k in range(400, 0, -1)]
GET = {"transmitters": lambda s: s.transmitters, "receivers": lambda s: s.receivers}


def snapshot(s):
    return ([(k, type(v), tuple(map(float, np.asarray(v.xy)))) for k, v in s.transmitters.items()], [(k, type(v), tuple(map(float, np.asarray(v.xy)))) for k, v in s.receivers.items()],
            [(type(o), float(np.asarray(o.ident))) for o in s.objects])


def base(nt, no, nr, kind, off=0.0):
    q = types.SimpleNamespace(tx=jnp.arange(2.0 * max(nt, 1)).reshape(-1, 2) + off, rx=jnp.arange(2.0 * max(nr, 1)).reshape(-1, 2) + 100 + off, ids=jnp.arange(1.0 * max(no, 1)) + 200 + off)
    return Scene(transmitters={NM[i]: Tx(xy=q.tx[i]) for i in range(nt)}, receivers={NM[i]: Rx(xy=q.rx[i]) for i in range(nr)}, objects=[KINDS[kind](i)(ident=q.ids[i]) for i in range(no)])


def check(r, tier):
    sizes = [(0, 0, 0), (1, 1, 1), (2, 3, 1), (1, 2, 3), (3, 4, 4), (4, 1, 2), (2, 5, 2)]
    B = "the numbers of entities in the label"
    jobs = []
    def ob(label, f):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("scene editing", label, d is None, "execution on opaque tokens against an ordered-dictionary specification", d, bounded=B)
    def entry(k, v): return (k, type(v), tuple(map(float, np.asarray(v.xy))))
    def run(nt, no, nr, kind, op, which, arg, jit):
        s = base(nt, no, nr, kind); before = snapshot(s); ids = [id(x) for x in jax.tree_util.tree_leaves(s)]
        od = OrderedDict((k, v) for k, v in getattr(s, which).items()) if which != "objects" else None
        cls = {"transmitters": Tx, "receivers": Rx, "objects": None}[which]
        exp = list(before); pos = {"transmitters": 0, "receivers": 1, "objects": 2}[which]
        if which == "objects":
            new = [KINDS[kind](i + 1)(ident=jnp.asarray(500.0 + i)) for i in range(arg if isinstance(arg, int) else 0)]
            if op == "with": call = lambda s, new: s.with_objects(*new); exp[2] = [(type(o), float(o.ident)) for o in new]
            elif op == "add": call = lambda s, new: s.add_objects(*new); exp[2] = before[2] + [(type(o), float(o.ident)) for o in new]
            else:
                call = lambda s, new: s.filter_objects(arg); exp[2] = [(type(o), float(o.ident)) for o in s.objects if arg(o)]
        elif op in ("with", "update"):
            new = {n: (Rx if k % 2 else Tx)(xy=jnp.array([700.0 + k, 800.0 + k])) for k, n in enumerate(arg)}
            call = lambda s, new: getattr(s, f"{op}_{which}")(**new)
            e = OrderedDict() if op == "with" else OrderedDict(od)
            for k, v in new.items(): e[k] = v
            exp[pos] = [entry(k, v) for k, v in e.items()]
        else:
            new = dict(arg); call = lambda s, new: getattr(s, f"rename_{which}")(**arg)
            exp[pos] = [entry(arg.get(k, k), v) for k, v in od.items()]
        if jit and isinstance(new, dict):
            ks = list(new); out = eqx.filter_jit(lambda s, vs: call(s, dict(zip(ks, vs))))(s, list(new.values()))
        elif jit: out = eqx.filter_jit(lambda s, new: call(s, new))(s, new)
        else: out = call(s, new)
        if snapshot(s) != before or (not jit and [id(x) for x in jax.tree_util.tree_leaves(s)] != ids): return "the original scene is changed"
        if type(out) is not type(s): return f"a {type(out).__name__} is returned"
        got = snapshot(out)
        if list(got) != exp: return f"{got}, expected {tuple(exp)}"
        for c in ("transmitters", "receivers"):
            m = getattr(out, c)
            if list(m) != [x[0] for x in got[("transmitters", "receivers").index(c)]] or len(m) != len(list(m)) or any(m[k] is not v and not jit for k, v in m.items()): return f"the {c} are not a consistent mapping"
    import itertools as it
    preds = [("all", lambda o: True), ("none", lambda o: False), ("by class", lambda o: isinstance(o, AObj0)), ("not by class", lambda o: type(o) is not AObj0), ("by value", lambda o: float(o.ident) % 2 == 1), ("truthy", lambda o: "x" if float(o.ident) > 201 else "")]
    for nt, no, nr in sizes:
        for which, n in (("transmitters", nt), ("receivers", nr)):
            cur = NM[:n]
            for arg in ((), ("new",), tuple(cur[:1]), tuple(cur[::-1]), tuple(cur[1:2]) + ("new", "z"), ("z",) + tuple(cur[:1]) + ("a0",), ("", "new", "NEW"), ("new", "b1", "a1", "c", "d")):
                arg = tuple(dict.fromkeys(arg))
                for op in ("with", "update"):
                    for jit in (False, True):
                        if jit and (nt, no, nr) not in ((2, 3, 1), (1, 2, 3)): continue
                        jobs.append((f"{op}_{which}({', '.join(arg)}), {nt} transmitters, {no} objects, {nr} receivers, jit={jit}", (nt, no, nr, "mixed", op, which, arg, jit)))
            ren = [{}, {"nobody": "x"}]
            if n >= 1: ren += [{cur[0]: "new"}, *([{cur[0]: ""}] if "" not in cur else []), {cur[-1]: cur[0].upper() if cur[0].upper() not in cur else "Q"}, {c: (" " if i == 0 else f" {i}") for i, c in enumerate(cur)}, {cur[-1]: "new", "nobody": "y"}, {cur[0]: cur[0]}]
            if n >= 2: ren += [{cur[0]: cur[1], cur[1]: cur[0]}, {cur[1]: "zz"}, {c: f"n{i}" for i, c in enumerate(cur)}, {c: cur[(i + 1) % n] for i, c in enumerate(cur)}, {cur[0]: cur[1], cur[1]: "w"}, {cur[1]: "v", cur[0]: cur[1], "v": "u"}]
            for k, arg in enumerate(ren):
                jobs.append((f"rename_{which}({arg}) [{k}], {nt} transmitters, {no} objects, {nr} receivers", (nt, no, nr, "same", "rename", which, arg, False)))
                if n == 2: jobs.append((f"rename_{which}({arg}) [{k}], {nt} transmitters, {no} objects, {nr} receivers, jit", (nt, no, nr, "same", "rename", which, arg, True)))
        for kind in ("same", "mixed", "late"):
            for op in ("with", "add"):
                for m in (0, 1, 3):
                    jobs.append((f"{op}_objects, {m} {kind}, {nt} transmitters, {no} objects, {nr} receivers", (nt, no, nr, kind, op, "objects", m, False)))
                    if (nt, no, nr) == (2, 3, 1): jobs.append((f"{op}_objects, {m} {kind}, {nt} transmitters, {no} objects, {nr} receivers, jit", (nt, no, nr, kind, op, "objects", m, True)))
            for nm, p in preds:
                jobs.append((f"filter_objects {nm}, {kind}, {nt} transmitters, {no} objects, {nr} receivers", (nt, no, nr, kind, "filter", "objects", p, False)))
    for k, (l, a) in enumerate(jobs):
        if r.mine(k): ob(l, lambda a=a: run(*a))
    # the same object or point more than once
    def again(op, k):
        s = base(2, 3, 1, "mixed"); before = snapshot(s); o = s.objects
        new = [(o[0], o[0]), (o[2], o[1], o[2], o[0]), (*o, *o)][k]
        out = snapshot(getattr(s, f"{op}_objects")(*new)); t = lambda x: (type(x), float(x.ident))
        want = (*before[:2], (before[2] if op == "add" else []) + [t(x) for x in new])
        if out != want: return f"{out}, expected {want}"
    def shared(op, which):
        s = base(2, 1, 2, "mixed"); p = s.transmitters[NM[1]]
        out = snapshot(getattr(s, f"{op}_{which}")(zz=p, **{NM[0]: p}, aa=p)); pos = which == "receivers"
        want = list(snapshot(s)); e = OrderedDict() if op == "with" else OrderedDict((x[0], x) for x in want[pos])
        for n in ("zz", NM[0], "aa"): e[n] = entry(n, p)
        want[pos] = list(e.values())
        if out != tuple(want): return f"{out}, expected {tuple(want)}"
    for op in ("with", "add"):
        for k in range(3): 
            if r.mine(k): ob(f"{op}_objects, objects of the scene, repeated {k}", lambda: again(op, k))
    for op in ("with", "update"):
        for k, which in enumerate(("transmitters", "receivers")):
            if r.mine(k + 3): ob(f"{op}_{which}, one point under several names", lambda: shared(op, which))
    # sequences of edits: every intermediate scene keeps its contents
    rng = np.random.default_rng(SEED)
    for k in range(40 if tier == "quick" else 400):
        seed = int(rng.integers(1 << 30))
        if not r.mine(k): continue
        def seq(seed=seed):
            g = np.random.default_rng(seed); nt, no, nr = sizes[g.integers(len(sizes))]
            s = base(nt, no, nr, "mixed"); model = [OrderedDict((x[0], x) for x in snapshot(s)[0]), OrderedDict((x[0], x) for x in snapshot(s)[1]), list(snapshot(s)[2])]
            hist = [(s, snapshot(s))]
            for step in range(6):
                w = int(g.integers(3)); c = float(g.integers(1000))
                if w < 2:
                    which = ("transmitters", "receivers")[w]; op = ("with", "update", "rename")[g.integers(3)]
                    names = list(dict.fromkeys(g.choice([n for n in NM[:8] if n != "self"] + ["new", "z"], size=g.integers(0, 4)).tolist()))
                    if op == "rename":
                        cur = list(model[w]); m = {n: f"{n}_{step}" for n in names}
                        s = getattr(s, f"rename_{which}")(**m)
                        model[w] = OrderedDict((m.get(n, n), (m.get(n, n),) + e[1:]) for n, e in model[w].items())
                    else:
                        pts = {n: Rx(xy=jnp.array([c + i, c - i])) for i, n in enumerate(names)}
                        s = getattr(s, f"{op}_{which}")(**pts)
                        if op == "with": model[w] = OrderedDict()
                        for n, p in pts.items(): model[w][n] = entry(n, p)
                else:
                    op = ("with", "add", "filter")[g.integers(3)]; new = [(AObj, AObj0, AObj2)[i % 3](ident=jnp.asarray(c + i)) for i in range(g.integers(0, 3))]
                    if op == "filter": s = s.filter_objects(lambda o: float(o.ident) > c / 4); model[2] = [o for o in model[2] if o[1] > c / 4]
                    else: s = getattr(s, f"{op}_objects")(*new); model[2] = (model[2] if op == "add" else []) + [(type(o), float(o.ident)) for o in new]
                want = (list(model[0].values()), list(model[1].values()), model[2])
                if snapshot(s) != want: return f"step {step} ({op}): {snapshot(s)}, expected {want}"
                for o, b in hist:
                    if snapshot(o) != b: return f"step {step} ({op}) changes an earlier scene"
                hist.append((s, snapshot(s)))
        ob(f"sequence of edits {seed}", seq)
    def native(name, size):
        n = name.split(",")[0].split(" ")[0]; op, which = n.split("_"); nt, no, nr = size("T", 2), size("O", 3), size("R", 2)
        if which == "objects": a = (nt, no, nr, "mixed", op, which, (lambda o: isinstance(o, AObj0)) if op == "filter" else size("P", 2), False)
        else:
            n = nt if which == "transmitters" else nr; k = size("names" if op == "rename" else "new", 2)
            a = (nt, no, nr, "mixed", op, which, {n: f"n{i}" for i, n in enumerate(dict.fromkeys(NM[:max(0, k - 1)] + NM[n - 1:n] + NM[:k]))} if op == "rename" else tuple((NM[1:2] + [f"n{i}" for i in range(k)])[:k]), False)
        return run(*a)
    seqs.run(r, SP.c25, native)
    return r.finish()
