"""The mapping type, stacking, wall arrays and retrieval by index.  Array values are symbolic; keys and sizes are enumerated."""
import dataclasses
from engine.verify import *
from props import big as BIG
from props.spec import *
from props.abstract import *
from props.scenes import *
from engine import seqs
from props import seqprops as SP
from differt2d.scene import PyTreeDict
from differt2d.geometry import stack_leaves, unstack_leaves

FN = ("scene.PyTreeDict.from_mapping", "scene.PyTreeDict.__getitem__", "scene.PyTreeDict.__iter__", "scene.PyTreeDict.__len__", "geometry.stack_leaves", "geometry.unstack_leaves",
      "scene.Scene.from_stacked_objects", "scene.Scene.from_walls_array", "scene.Scene.get_object", "scene.Scene.stacked_objects")
KEYS = {"none": [], "one": ["a"], "two": ["b", "a"], "numbers": [3, 1, 2, 0, -1], "tuples": [("x", 1), ("x", 0), ()], "falsy": ["", 0, None, "0"], "long": [f"k{i}" for i in (10, 9, 2, 1, 33, 4, 5)], "similar": ["a", "A", "a ", "aa"],
        "mixed": [None, "None", 1.5, ("a",), "a", frozenset({1})], "many": [f"rx_{i}" for i in range(25)]}
MISSING = ["missing", -7, None, ("y",), "k", "rx_25", "", 0, "B", 2.5]


class Two(eqx.Module):
    p: Any
    q: Any
    tag: str = eqx.field(static=True, default="t")


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    same = lambda x, y: conj(*[eq(lift(a), lift(b)) for a, b in zip(flat(x), flat(y))]) if len(flat(x)) == len(flat(y)) else FALSE
    # ---------------------------------------------------------------- mapping: values through JAX
    for kn, ks in KEYS.items():
        n = len(ks)
        for how in ("direct", "flatten", "jit", "vmap", "tree_map", "grad", "tree_at"):
            if how in ("vmap", "grad") and not n: continue
            I = dict(v=real(max(n, 1), 2))
            def fn(q, ks=ks, how=how, n=n):
                d = PyTreeDict.from_mapping({k: (q.v[i] if i % 2 == 0 else {"z": q.v[i], "a": q.v[i, 0]}) for i, k in enumerate(ks)})
                val = lambda m, k, i: m[k] if i % 2 == 0 else jnp.stack([m[k]["a"], m[k]["z"][1]])
                want = [q.v[i] for i in range(n)]
                if how == "flatten":
                    l, t = jax.tree_util.tree_flatten(d); d = jax.tree_util.tree_unflatten(t, l)
                elif how == "jit": d = eqx.filter_jit(lambda m: m)(d)
                elif how == "tree_map": d = jax.tree_util.tree_map(lambda x: 2 * x, d); want = [2 * w for w in want]
                elif how == "vmap":
                    d = jax.vmap(lambda m, s: jax.tree_util.tree_map(lambda x: x * s, m), in_axes=(None, 0))(d, jnp.array([1.0, 3.0]))
                    d = jax.tree_util.tree_map(lambda x: x[1], d); want = [3 * w for w in want]
                elif how == "grad":
                    d = jax.grad(lambda m: sum((i + 2.0) * (jnp.sum(m[k] ** 2) if i % 2 == 0 else jnp.sum(m[k]["z"] ** 2)) for i, k in enumerate(ks)))(d)
                    want = [2 * (i + 2.0) * w for i, w in enumerate(want)]
                    got = [d[k] if i % 2 == 0 else d[k]["z"] for i, k in enumerate(ks)]
                    if list(d) != ks: raise StructViolation(f"keys {list(d)}")
                    return got, want
                elif how == "tree_at" and n: d = eqx.tree_at(lambda m: m[ks[0]], d, replace=5 * q.v[0]); want[0] = 5 * want[0]
                if type(d) is not PyTreeDict: raise StructViolation(f"a {type(d).__name__}")
                if list(d) != ks or [type(k) for k in d] != [type(k) for k in ks] or len(d) != n: raise StructViolation(f"keys {list(d)}, expected {ks}")
                if [k for k, _ in d.items()] != ks or list(d.keys()) != ks: raise StructViolation("items and keys disagree with iteration")
                for k in MISSING:
                    if k in ks: continue
                    if k in d: raise StructViolation(f"{k!r} in the mapping")
                    try: d[k]
                    except KeyError: pass
                    else: raise StructViolation(f"no KeyError for {k!r}")
                    if d.get(k, "zz") != "zz": raise StructViolation(f"get({k!r})")
                for k in ks:
                    if k not in d: raise StructViolation(f"{k!r} not in the mapping")
                vals = list(d.values())
                return [val(d, k, i) for i, k in enumerate(ks)] + [jnp.ravel(jax.tree_util.tree_leaves(v)[-1])[:1] for v in vals], want + [w[:1] if i % 2 == 0 else w[:1] for i, w in enumerate(want)]
            C(f"mapping, keys: {kn}, {how}", I, fn, lambda a, o: {f"value {k}": same(x, y) for k, (x, y) in enumerate(zip(*o))} or {"no value": TRUE}, bounded="the keys in the label")
    # ---------------------------------------------------------------- stacking
    for n in (1, 2, 3, 7):
        def mk(q, i, c):
            if c == "wall": return G.Wall(xys=q.x[i])
            if c == "ris": return G.RIS(xys=q.x[i], phi=q.s[i])
            if c == "point": return G.Point(xy=q.x[i, 0])
            return Two(p=q.x[i], q={"u": q.s[i], "b": Two(p=q.s[i] * 2, q=None)}, tag="z")
        for c in ("wall", "ris", "point", "tree"):
            I = dict(x=real(n, 2, 2), s=real(n))
            def fn(q, n=n, c=c, mk=mk):
                objs = [mk(q, i, c) for i in range(n)]; L = jax.tree_util.tree_leaves
                st = stack_leaves(objs); un = unstack_leaves(st)
                if [jax.tree_util.tree_structure(o) for o in un] != [jax.tree_util.tree_structure(o) for o in objs]: raise StructViolation("unstacked structures")
                if c == "tree":
                    kinds = [dict(i=jnp.arange(2, dtype=jnp.int32) + i, m=jnp.array([i % 2 == 0, True]), z=jnp.array(1j * i), s=jnp.int16(i)) for i in range(n)]
                    if [x.dtype for m in unstack_leaves(stack_leaves(kinds)) for x in L(m)] != [x.dtype for m in kinds for x in L(m)]: raise StructViolation("stacking changes the type of the leaves")
                re = stack_leaves(un)
                if jax.tree_util.tree_structure(re) != jax.tree_util.tree_structure(st): raise StructViolation("stacked structures")
                if [x.shape for x in L(st)] != [(n,) + x.shape for x in L(objs[0])]: raise StructViolation("stacked shapes")
                out = [L(un), L(objs), L(re), L(st), [x[i] for i in range(n) for x in L(st)], [x for i in range(n) for x in L(objs[i])]]
                if c != "tree":
                    s = Scene.from_stacked_objects(st)
                    if len(s.objects) != n or len(s.transmitters) or len(s.receivers) or any(type(o) is not type(objs[0]) for o in s.objects): raise StructViolation(f"{len(s.objects)} objects")
                    out += [L(list(s.objects)), L(objs)]
                if c in ("wall", "ris"):
                    s2 = Scene(objects=objs).stacked_objects()
                    if type(s2) is not type(objs[0]): raise StructViolation("stacked objects")
                    out += [L(s2), L(st)]
                return out
            C(f"stacking, {n} of {c}", I, fn, lambda a, o: {f"{k // 2}": same(o[k], o[k + 1]) for k in range(0, len(o), 2)}, bounded=f"{n} entries")
        def fn(q, n=n):
            s = Scene.from_walls_array(q.x)
            if len(s.objects) != n or any(type(o) is not G.Wall for o in s.objects) or len(s.transmitters) or len(s.receivers): raise StructViolation(f"{len(s.objects)} walls")
            return [o.xys for o in s.objects], q.x
        C(f"scene from an array of {n} walls", dict(x=real(n, 2, 2)), fn, lambda a, o: {f"wall {k}": same(x, y) for k, (x, y) in enumerate(zip(*o))}, bounded=f"{n} walls")
    # ---------------------------------------------------------------- retrieval by index
    for n in (1, 2, 3, 4, 6, 20, 40) if tier == "quick" else (1, 2, 3, 4, 6, 12, 20, 40, 70):
        for c in ("wall", "ris", "abstract"):
            I = dict(x=real(n, 2, 2), s=real(n), i=integer(lo=0, hi=n - 1))
            def fn(q, n=n, c=c):
                objs = [{"wall": lambda i: G.Wall(xys=q.x[i]), "ris": lambda i: G.RIS(xys=q.x[i], phi=q.s[i]), "abstract": lambda i: AObj(ident=q.s[i])}[c](i) for i in range(n)]
                o = Scene(objects=objs).get_object(q.i)
                if type(o) is not type(objs[0]): raise StructViolation(f"a {type(o).__name__}")
                L = jax.tree_util.tree_leaves
                return L(o), [L(x) for x in objs]
            C(f"object at any index, {n} of {c}", I, fn, lambda a, o: {"that object": conj(*[disj(neg(eq(a.i, k)), same(o[0], y)) for k, y in enumerate(o[1])])}, bounded=f"{n} objects")
    r.run(cs)
    # ---------------------------------------------------------------- concrete
    def ob(label, f):
        try: d = f()
        except Exception as e: d = f"raises {type(e).__name__}: {str(e)[:300]}"
        r.manual_obligation("containers", label, d is None, "execution on opaque values", d, bounded="the sizes in the label")
    jobs = []
    def mapping(ks):
        src = {k: object() for k in ks}; d = PyTreeDict.from_mapping(src); copy = dict(src)
        if any(d[k] is not v for k, v in src.items()) or list(d) != list(src) or len(d) != len(src) or list(d.values()) != list(src.values()) or list(d.items()) != list(src.items()): return "contents"
        src["later"] = 1; src.pop(ks[0], None) if ks else None
        if list(d) != list(copy) or any(d[k] is not v for k, v in copy.items()): return "changes with the source"
        for act in (lambda: d.__setitem__("a", 1), lambda: d.__delitem__("a"), lambda: setattr(d, "_keys", ()), lambda: setattr(d, "_values", ())):
            try: act()
            except (AttributeError, TypeError): pass
            else: return "is mutable"
        dd = PyTreeDict.from_mapping(d)
        if list(dd.items()) != list(copy.items()): return "copy of a mapping"
        for k in MISSING:
            if k not in copy:
                try: d[k]
                except KeyError: continue
                return f"no KeyError for {k!r}"
        if dict(d) != copy or dict(**{str(k): v for k, v in d.items()}) != {str(k): v for k, v in copy.items()}: return "conversion"
        vals = PyTreeDict.from_mapping({k: i // 2 for i, k in enumerate(ks)})
        if len(vals) != len(ks) or [vals[k] for k in ks] != [i // 2 for i in range(len(ks))]: return "repeated values"
    for kn, ks in KEYS.items(): jobs.append((f"mapping, keys: {kn}", lambda ks=ks: mapping(ks)))
    def mism():
        for a, b in (((1, 2), (1,)), ((), (1,)), ((1,), ())):
            try: PyTreeDict(_keys=a, _values=b)
            except Exception: continue
            return f"{len(a)} keys with {len(b)} values accepted"
    jobs.append(("as many keys as values", mism))
    def index(n, kind):
        rng = np.random.default_rng(n); x = jnp.asarray(rng.normal(size=(n, 2, 2)))
        s = Scene(objects=[G.Wall(xys=w) for w in x])
        for i in range(n):
            for j in (i,) if kind == "int" else (jnp.asarray(i), jnp.asarray(i, jnp.int8)):
                if kind == "jit": o = eqx.filter_jit(lambda s, j: s.get_object(j))(s, jnp.asarray(j))
                else: o = s.get_object(j)
                if type(o) is not G.Wall or not np.array_equal(o.xys, x[i]): return f"index {j!r}: {o.xys}, expected {x[i]}"
        got = jax.vmap(lambda i: s.get_object(i).xys)(jnp.arange(n))
        if not np.array_equal(got, x): return "mapped over the indices"
    for n in (1, 2, 5, 9, 16, 33, 70):
        for kind in ("int", "array", "jit"): jobs.append((f"object at every index of {n}, {kind}", lambda a=(n, kind): index(*a)))
    def warr(n):
        rng = np.random.default_rng(n); x = jnp.asarray(rng.normal(size=(n, 2, 2)))
        for s in (Scene.from_walls_array(x), Scene.from_stacked_objects(stack_leaves([G.Wall(xys=w) for w in x])) if n else Scene.from_walls_array(x)):
            if len(s.objects) != n or any(type(o) is not G.Wall or not np.array_equal(o.xys, w) for o, w in zip(s.objects, x)): return "walls"
        if n and not np.array_equal(Scene.from_walls_array(x).stacked_objects().xys, x): return "stacked again"
    for n in (0, 1, 5, 40, 130): jobs.append((f"array of {n} walls", lambda n=n: warr(n)))
    for k, (l, f) in enumerate(jobs):
        if r.mine(k): ob(l, f)
    def native(name, size):
        if name.startswith("mapping"): n = size("M", 3); return mapping([f"k{i}" for i in range(n)])
        if name.startswith("object"): return index(max(1, size("O", 3)), "array")
        return warr(size("walls", 3))
    seqs.run(r, SP.c28, native)
    BIG.run(r, "sizes next to a number in the source", BIG.c28())
    return r.finish()
