from engine.verify import *
from engine.uf import uf
from props.spec import *
from differt2d import logic as L

NAMES = ("greater", "greater_equal", "less", "less_equal")
FN = tuple(f"logic.{n}" for n in NAMES) + ("logic.activation",)
REL = {"greater": lambda x, y: interp.f_lt(y, x), "greater_equal": lambda x, y: interp.f_le(y, x),
       "less": interp.f_lt, "less_equal": interp.f_le}


def my_act(x, alpha): return uf("act", x, alpha)


def want(dtype_kind):
    def w(x):
        k = np.dtype(x.dtype).kind
        if (k == "b") != (dtype_kind == "b"): raise StructViolation(f"result has dtype {x.dtype}")
        return x
    return w


def check(r, tier):
    cs = []
    XY = dict(x=ext(), y=ext())
    for n in NAMES:
        f = getattr(L, n); up = n.startswith("greater")
        for gm in (False, True):
            # exact, for all extended reals
            ms = [(False, "explicit")] + ([(None, "unspecified")] if not gm else [])
            for ap, d in ms:
                cs.append(Contract(f"{n} exact, {d}, global={'approx' if gm else 'exact'}", XY,
                    lambda x, f=f, ap=ap: want("b")(f(x.x, x.y, approx=ap)),
                    lambda a, o, n=n: {"order relation": iff(o, REL[n](a.x, a.y))}, raw=True, mode=gm, functions=FN))
            ms = [(True, "explicit")] + ([(None, "unspecified")] if gm else [])
            for ap, d in ms:
                for an, kw, spec in (("any activation", dict(function=my_act), None), ("hard", dict(function=L.hard_sigmoid), hard), ("smooth", dict(function=L.sigmoid), logistic)):
                    if an != "any activation" and gm: continue
                    def fn(x, f=f, ap=ap, kw=kw, up=up):
                        z = want("f")(f(x.x, x.y, approx=ap, alpha=x.a, **kw))
                        return z, (kw["function"](x.x - x.y if up else x.y - x.x, x.a))
                    def ens(a, o, spec=spec, up=up):
                        d = {"activation of the difference": eq(o[0], o[1])}
                        if spec:
                            diff = (a.x - a.y) if up else (a.y - a.x)
                            d.update({"formula": eq(o[0], spec(diff, a.a)), "in [0,1]": conj(o[0] >= 0, o[0] <= 1),
                                      "above half iff strict": iff(o[0] > HALF, diff > 0), "half iff tie": iff(eq(o[0], HALF), eq(diff, 0))})
                        return d
                    cs.append(Contract(f"{n} approx, {d}, {an}, global={'approx' if gm else 'exact'}",
                        dict(x=real(), y=real(), a=posreal()), fn, ens, functions=FN, mode=gm))
        cs.append(Contract(f"{n} approx defaults", dict(x=real(), y=real()), lambda x, f=f: f(x.x, x.y, approx=True),
            lambda a, o, up=up: {"hard, slope 100": eq(o, hard((a.x - a.y) if up else (a.y - a.x), const(100)))}, functions=FN))
        # infinite operands, approximate
        cs.append(Contract(f"{n} approx, infinite operands", dict(x=ext(), y=ext(), a=posreal()),
            lambda x, f=f: (f(x.x, x.y, approx=True, alpha=x.a), f(x.x, x.y, approx=True, alpha=x.a, function=L.sigmoid)),
            lambda a, o, n=n: {f"saturates ({q})": conj(neg(z.special), eq(z.v, ite(REL[n](a.x, a.y), ONE, ZERO))) for q, z in zip(("hard", "smooth"), o)},
            requires=lambda a: [neg(a.x.nan), neg(a.y.nan), disj(a.x.inf, a.y.inf), neg(conj(a.x.pinf, a.y.pinf)), neg(conj(a.x.ninf, a.y.ninf))],
            raw=True, functions=FN))
        # broadcasting
        for s1, s2 in (((2,), (2,)), ((2, 3), (2, 3)), ((1, 2, 1), (1, 2, 1))):
            def ens2(a, o, n=n, s1=s1, s2=s2, up=up):
                x, y = np.broadcast_arrays(np.asarray(a.x, dtype=object), np.asarray(a.y, dtype=object))
                if o[0].shape != x.shape: return {"shape": FALSE}
                d = {}
                for i in np.ndindex(x.shape):
                    d[f"exact {i}"] = iff(o[0][i], REL[n](F(x[i]), F(y[i])))
                    d[f"approx {i}"] = eq(o[1][i], hard(x[i] - y[i] if up else y[i] - x[i], a.a))
                return d
            cs.append(Contract(f"{n} batched {s1}", dict(x=real(*s1), y=real(*s2), a=posreal()),
                lambda x, f=f: (f(x.x, x.y, approx=False), f(x.x, x.y, approx=True, alpha=x.a)), ens2, functions=FN,
                bounded="operand shapes (2,), (2,3), (1,2,1)"))
    for g, l in (("greater", "less"), ("greater_equal", "less_equal")):
        for ap in (True, False):
            cs.append(Contract(f"{g}/{l} mirrored, approx={ap}", dict(x=real(), y=real(), a=posreal()),
                lambda x, g=g, l=l, ap=ap: (getattr(L, g)(x.x, x.y, approx=ap, **({"alpha": x.a} if ap else {})), getattr(L, l)(x.y, x.x, approx=ap, **({"alpha": x.a} if ap else {}))),
                lambda a, o: {"same": eq(o[0], o[1])}, functions=FN))
    r.run(cs)
    return r.finish()
