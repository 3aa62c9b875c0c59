from engine.verify import *
from props.spec import *
from props.c02 import want
from differt2d import logic as L

FN = tuple("logic." + n for n in ("logical_or", "logical_and", "logical_not", "logical_all", "logical_any", "is_true", "is_false", "true_value", "false_value"))


def mn(xs):
    r = xs[0]
    for x in xs[1:]: r = mint(r, x)
    return r


def mx(xs):
    r = xs[0]
    for x in xs[1:]: r = maxt(r, x)
    return r


def truth(*names): return lambda a: [c for n in names for t in np.asarray(getattr(a, n), dtype=object).reshape(-1) for c in (t >= 0, t <= 1)]


POOL = [0, 1, .5, .25, .75, .375, 0, 1]


def check(r, tier):
    cs = []
    def C(*a, **k): cs.append(Contract(*a, functions=FN, **k))
    for gm in (False, True):
        gs = f"global={'approx' if gm else 'exact'}"
        for ap in ([True, None] if gm else [True]):
            s = f"approx={ap}, {gs}"
            C(f"or/and/not soft, {s}", dict(x=real(pool=POOL), y=real(pool=POOL)),
              lambda q, ap=ap: tuple(want("f")(z) for z in (L.logical_or(q.x, q.y, approx=ap), L.logical_and(q.x, q.y, approx=ap), L.logical_not(q.x, approx=ap))),
              lambda a, o: {"or is max": eq(o[0], maxt(a.x, a.y)), "and is min": eq(o[1], mint(a.x, a.y)), "not is 1-x": eq(o[2], 1 - a.x),
                            "in range": conj(*[conj(z >= 0, z <= 1) for z in o])},
              requires=truth("x", "y"), mode=gm)
            C(f"De Morgan, {s}", dict(x=real(pool=POOL), y=real(pool=POOL)),
              lambda q, ap=ap: (L.logical_not(L.logical_or(q.x, q.y, approx=ap), approx=ap), L.logical_and(L.logical_not(q.x, approx=ap), L.logical_not(q.y, approx=ap), approx=ap),
                                L.logical_not(L.logical_and(q.x, q.y, approx=ap), approx=ap), L.logical_or(L.logical_not(q.x, approx=ap), L.logical_not(q.y, approx=ap), approx=ap)),
              lambda a, o: {"not or": eq(o[0], o[1]), "not and": eq(o[2], o[3])}, requires=truth("x", "y"), mode=gm)
            C(f"Boolean on 0/1, {s}", dict(p=boolean(), q=boolean()),
              lambda z, ap=ap: (lambda x, y: (L.logical_or(x, y, approx=ap), L.logical_and(x, y, approx=ap), L.logical_not(x, approx=ap),
                                              L.logical_all(x, y, approx=ap), L.logical_any(x, y, approx=ap)))(jnp.where(z.p, 1.0, 0.0), jnp.where(z.q, 1.0, 0.0)),
              lambda a, o: {"or": eq(o[0], ite(disj(a.p, a.q), ONE, ZERO)), "and": eq(o[1], ite(conj(a.p, a.q), ONE, ZERO)), "not": eq(o[2], ite(a.p, ZERO, ONE)),
                            "all": eq(o[3], ite(conj(a.p, a.q), ONE, ZERO)), "any": eq(o[4], ite(disj(a.p, a.q), ONE, ZERO))}, mode=gm)
            for k in (1, 2, 3, 5):
                C(f"all/any of {k} soft operands, {s}", {f"x{i}": real(pool=POOL) for i in range(k)},
                  lambda q, ap=ap, k=k: tuple(want("f")(z) for z in (L.logical_all(*[getattr(q, f"x{i}") for i in range(k)], approx=ap), L.logical_any(*[getattr(q, f"x{i}") for i in range(k)], approx=ap))),
                  lambda a, o, k=k: {"all is min": eq(o[0], mn([getattr(a, f"x{i}") for i in range(k)])), "any is max": eq(o[1], mx([getattr(a, f"x{i}") for i in range(k)]))},
                  requires=truth(*[f"x{i}" for i in range(k)]), mode=gm, bounded="arity 1, 2, 3, 5 (operands unbounded)")
            for ax in (0, 1, 2, -1, -2):
                C(f"all/any of arrays, axis={ax}, {s}", dict(x=real(2, 2, pool=POOL), y=real(2, 2, pool=POOL)),
                  lambda q, ap=ap, ax=ax: (L.logical_all(q.x, q.y, axis=ax, approx=ap), L.logical_any(q.x, q.y, axis=ax, approx=ap)),
                  lambda a, o, ax=ax: axis_goals(np.array([a.x, a.y], dtype=object), o, ax, mn, mx),
                  mode=gm, bounded="2 operands of shape (2,2), every single axis")
            C(f"is_true/is_false soft, {s}", dict(x=real(pool=POOL), t=real(pool=POOL)),
              lambda q, ap=ap: tuple(want("b")(z) for z in (L.is_true(q.x, q.t, approx=ap), L.is_false(q.x, q.t, approx=ap), L.is_true(q.x, approx=ap), L.is_false(q.x, approx=ap))),
              lambda a, o: {"true iff x > 1-tol": iff(o[0], a.x > 1 - a.t), "false iff x < tol": iff(o[1], a.x < a.t),
                            "default tolerance": conj(iff(o[2], a.x > HALF), iff(o[3], a.x < HALF)),
                            "exclusive": implies(a.t <= HALF, neg(conj(o[0], o[1])))}, mode=gm)
            C(f"is_true/is_false soft batched, {s}", dict(x=real(3, pool=POOL), t=real(pool=POOL)),
              lambda q, ap=ap: (L.is_true(q.x, q.t, approx=ap), L.is_false(q.x, tol=q.t, approx=ap)),
              lambda a, o: {f"element {i}": conj(iff(o[0][i], a.x[i] > 1 - a.t), iff(o[1][i], a.x[i] < a.t)) for i in range(3)}, mode=gm, bounded="batch of 3")
            C(f"top/bottom soft, {s}", {}, lambda q, ap=ap: (want("f")(L.true_value(approx=ap)), want("f")(L.false_value(approx=ap))),
              lambda a, o: {"true is 1": eq(o[0], ONE), "false is 0": eq(o[1], ZERO)}, mode=gm)
        for ap in ([False] if gm else [False, None]):
            s = f"approx={ap}, {gs}"
            C(f"or/and/not exact, {s}", dict(x=boolean(), y=boolean()),
              lambda q, ap=ap: tuple(want("b")(z) for z in (L.logical_or(q.x, q.y, approx=ap), L.logical_and(q.x, q.y, approx=ap), L.logical_not(q.x, approx=ap))),
              lambda a, o: {"or": iff(o[0], disj(a.x, a.y)), "and": iff(o[1], conj(a.x, a.y)), "not": iff(o[2], neg(a.x))}, mode=gm)
            for k in (1, 2, 3, 5):
                C(f"all/any of {k} exact operands, {s}", {f"x{i}": boolean() for i in range(k)},
                  lambda q, ap=ap, k=k: tuple(want("b")(z) for z in (L.logical_all(*[getattr(q, f"x{i}") for i in range(k)], approx=ap), L.logical_any(*[getattr(q, f"x{i}") for i in range(k)], approx=ap))),
                  lambda a, o, k=k: {"all": iff(o[0], conj(*[getattr(a, f"x{i}") for i in range(k)])), "any": iff(o[1], disj(*[getattr(a, f"x{i}") for i in range(k)]))},
                  mode=gm, bounded="arity 1, 2, 3, 5 (operands unbounded)")
            for ax in (0, 1, 2, -1, -2):
                C(f"all/any of Boolean arrays, axis={ax}, {s}", dict(x=boolean(2, 2), y=boolean(2, 2)),
                  lambda q, ap=ap, ax=ax: (L.logical_all(q.x, q.y, axis=ax, approx=ap), L.logical_any(q.x, q.y, axis=ax, approx=ap)),
                  lambda a, o, ax=ax: axis_goals(np.array([a.x, a.y], dtype=object), o, ax, lambda z: conj(*z), lambda z: disj(*z)),
                  mode=gm, bounded="2 operands of shape (2,2), every single axis")
            C(f"is_true/is_false exact, {s}", dict(x=boolean(), t=real(pool=POOL)),
              lambda q, ap=ap: tuple(want("b")(z) for z in (L.is_true(q.x, q.t, approx=ap), L.is_false(q.x, q.t, approx=ap), L.is_true(q.x, approx=ap), L.is_false(q.x, approx=ap))),
              lambda a, o: {"is_true is x": conj(iff(o[0], a.x), iff(o[2], a.x)), "is_false is not x": conj(iff(o[1], neg(a.x)), iff(o[3], neg(a.x)))}, mode=gm)
            C(f"top/bottom exact, {s}", {}, lambda q, ap=ap: (want("b")(L.true_value(approx=ap)), want("b")(L.false_value(approx=ap))),
              lambda a, o: {"true": o[0], "false": neg(o[1])}, mode=gm)
    r.run(cs)
    return r.finish()


def axis_goals(arr, o, ax, f, g):
    axes = tuple(range(arr.ndim)) if ax is None else tuple(x % arr.ndim for x in (ax if isinstance(ax, tuple) else (ax,)))
    keep = [i for i in range(arr.ndim) if i not in axes]
    b = np.transpose(arr, keep + list(axes)).reshape([arr.shape[i] for i in keep] + [-1])
    d = {}
    o0 = np.asarray(o[0], dtype=object); o1 = np.asarray(o[1], dtype=object)
    if o0.shape != b.shape[:-1] or o1.shape != b.shape[:-1]: return {"shape": FALSE}
    for i in np.ndindex(b.shape[:-1]):
        d[f"all {i}"] = eq(o0[i], f(list(b[i]))); d[f"any {i}"] = eq(o1[i], g(list(b[i])))
    return d
