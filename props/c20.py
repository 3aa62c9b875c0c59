"""Minimisers: the loss is the objective at the returned point; the best of several runs is returned."""
import optax
from engine.verify import *
from props import big as BIG
from engine import interp as I_
from props.spec import *
from props.abstract import *
from differt2d import optimize as O

FN = ("optimize.minimize", "optimize.minimize_random_uniform", "optimize.minimize_many_random_uniform")


def obj(x, *args): return uf(f"objective{len(args)}", x, *[jnp.asarray(a, dtype=float) for a in args])
def objt(x, *args): return app(f"objective{len(args)}", *flat([x, *args]))


def sgd(lr):
    return optax.GradientTransformation(lambda p: (), lambda g, s, p=None: (jax.tree_util.tree_map(lambda v: -lr * v, g), s))


def momentum(lr, mu):
    def up(g, s, p=None):
        s = mu * s + g
        return -lr * s, s
    return optax.GradientTransformation(lambda p: jnp.zeros_like(p), up)


def count():
    """an optimiser whose updates are independent of the objective: the k-th update adds k"""
    return optax.GradientTransformation(lambda p: jnp.array(0.0), lambda g, s, p=None: (jnp.zeros_like(g) + s + 1, s + 1))


OPT = {"sgd": lambda: sgd(0.25), "momentum": lambda: momentum(0.25, 0.5), "counting": count, "adam": lambda: optax.adam(0.125), "default": lambda: None}


def havoc(eqn, consts, carry, seq):
    """loop with the invariant `true`: the carried values after it are arbitrary, whatever the number of iterations"""
    out = []
    for j, v in enumerate(eqn.outvars):
        a = np.empty(v.aval.shape, dtype=object)
        for i in np.ndindex(v.aval.shape):
            t = var(f"after{id(eqn)}_{j}{list(i)}", "B" if v.aval.dtype == np.bool_ else "R")
            a[i] = F(t) if I_.is_float(v.aval.dtype) else t
        out.append(a)
    return out


def check(r, tier):
    cs = []
    def C(n, i, f, e, **k): cs.append(Contract(n, i, f, e, functions=FN, **k))
    ARGS = {0: {}, 1: dict(p=real()), 2: dict(p=real(), q=real(2))}
    def args(q, k): return () if k == 0 else (q.p,) if k == 1 else (q.p, q.q)
    steps = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 5)
    for on, op in OPT.items():
        for st in (steps if on in ("sgd", "counting") else steps[:3]):
            for k in (0, 1, 2):
                n = 1 + (st + k) % 3
                if on in ("adam", "default") and (k != 1 or (st == 2 and n > 2)): continue
                def fn(q, op=op, st=st, k=k):
                    x, l = O.minimize(obj, q.x0, args=args(q, k), steps=st, optimizer=op())
                    if x.shape != q.x0.shape or l.shape != (): raise StructViolation(f"shapes {x.shape}, {l.shape}")
                    y = q.x0; tr = (op() or optax.adam(learning_rate=0.1)); s = tr.init(y)
                    for _ in range(st):
                        u, s = tr.update(jax.grad(obj)(y, *args(q, k)), s); y = y + u
                    return x, l, obj(x, *args(q, k)), y
                C(f"minimize, {on}, {st} steps, {n} parameters, {k} arguments", dict(x0=real(n), **ARGS[k]), fn,
                  lambda a, o: {"the loss is the objective at the returned point": eq(o[1], o[2]), "one update of the optimiser per step": eqv(np.atleast_1d(o[0]), np.atleast_1d(o[3]))}, bounded=f"{st} steps, {n} parameters (any objective)",
                  native=on not in ("adam", "default"), finite=on not in ("adam", "default"))
    # random start
    for n in (1, 2, 4):
        for st, on in ((0, "default"), (1, "sgd"), (2, "counting")):
            def fn(q, n=n, st=st, on=on):
                x, l = O.minimize_random_uniform(obj, q.k, n, args=(q.p,), steps=st, optimizer=OPT[on]())
                u = jax.random.uniform(q.k, (n,))
                y, m = O.minimize(obj, u, args=(q.p,), steps=st, optimizer=OPT[on]())
                return x, l, y, m, obj(x, q.p)
            C(f"minimize_random_uniform, {n} parameters, {on}, {st} steps", dict(k=key(), p=real()), fn,
              lambda a, o: {"starts at a uniform draw from the key": eqv(np.atleast_1d(o[0]), np.atleast_1d(o[2])), "its loss": eq(o[1], o[3]), "the loss is the objective at the returned point": eq(o[1], o[4])}, bounded=f"{st} steps, {n} parameters")
    for many in (1, 2, 3, 5):
        for st, on in ((0, "default"), (1, "sgd"), (2, "counting")):
            n = 2 if many < 5 else 1
            def fn(q, many=many, st=st, on=on, n=n):
                kw = dict(args=(q.p,), steps=st, optimizer=OPT[on]())
                x, l = O.minimize_many_random_uniform(obj, q.k, n, many=many, **kw)
                keys = [q.k] if many == 1 else list(jax.random.split(q.k, num=many))
                runs = [O.minimize_random_uniform(obj, k, n, **kw) for k in keys]
                return x, l, [u[0] for u in runs], [u[1] for u in runs], obj(x, q.p)
            def ens(a, o, many=many):
                x, l, xs, ls, v = o
                return {"the result of one of the runs": disj(*[conj(eqv(np.atleast_1d(x), np.atleast_1d(xs[i])), eq(l, ls[i])) for i in range(many)]), "the loss is the objective at the returned point": eq(l, v),
                        **{f"not worse than run {i}": l <= ls[i] for i in range(many)}}
            C(f"minimize_many_random_uniform, {many} runs, {on}, {st} steps", dict(k=key(), p=real()), fn, ens, bounded=f"{many} runs, {st} steps, {n} parameters",
              cut=lambda a, o, l: list(o[3]))
    r.run(cs)
    # ---------------------------------------------------------------- any number of steps: the loop with the invariant `true`
    I_.HOOK_SCAN[0] = havoc
    hs = []
    try:
        for on, op in OPT.items():
            for st in (1, 100):
                for n in (1, 3):
                    def fn(q, op=op, st=st):
                        x, l = O.minimize(obj, q.x0, args=(q.p,), steps=st, optimizer=op())
                        return l, obj(x, q.p)
                    hs.append(Contract(f"minimize after any loop, {on}, traced with {st} steps, {n} parameters", dict(x0=real(n), p=real()), fn, lambda a, o: {"the loss is the objective at the returned point": eq(o[0], o[1])},
                                       functions=FN[:1], optional=True, native=False, samples=0))
        r.run(hs)
    finally: I_.HOOK_SCAN[0] = None
    # ---------------------------------------------------------------- defaults (concrete executions)
    if r.first:
        f = lambda x, p=0.3: jnp.sum((x - p) ** 2) + jnp.sum(jnp.cos(5 * x))
        eqx = lambda a, b: all(np.allclose(np.asarray(u), np.asarray(v), rtol=1e-5, atol=1e-6) for u, v in zip(a, b))
        ob = lambda l, ok, d=None: r.manual_obligation("defaults", l, ok, "concrete execution", d, bounded="one objective, several keys")
        for s in range(3):
            k = jax.random.PRNGKey(s); x0 = jax.random.normal(k, (2,))
            ob(f"100 steps of Adam with learning rate 0.1, start {s}", eqx(O.minimize(f, x0), O.minimize(f, x0, steps=100, optimizer=optax.adam(0.1))))
            ob(f"10 runs by default, key {s}", eqx(O.minimize_many_random_uniform(f, k, 2), O.minimize_many_random_uniform(f, k, 2, many=10)))
            ob(f"arguments reach every run, key {s}", abs(float(O.minimize_many_random_uniform(f, k, 2, args=(2.0,), many=3)[1]) - float(f(O.minimize_many_random_uniform(f, k, 2, args=(2.0,), many=3)[0], 2.0))) < 1e-5)
    BIG.run(r, "sizes next to a number in the source", BIG.c20())
    return r.finish()
