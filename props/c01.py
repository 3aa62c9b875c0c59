from engine.verify import *
from engine.uf import uf
from props.spec import *
from differt2d import logic as L

F1 = ("logic.sigmoid", "logic.hard_sigmoid", "logic.activation")


def check(r, tier):
    cs = []
    acts = {"hard_sigmoid": (L.hard_sigmoid, hard), "sigmoid": (L.sigmoid, logistic)}
    X = dict(x=real(), a=posreal(), y=real(), b=posreal())
    for n, (f, spec) in acts.items():
        g = lambda x, f=f: f(x.x, x.a)
        cs.append(Contract(f"{n}: value", dict(x=real(), a=posreal()), g, lambda a, o, spec=spec: {
            "formula": eq(o, spec(a.x, a.a)), "range": conj(o >= 0, o <= 1),
            "half exactly at zero": iff(eq(o, HALF), eq(a.x, 0)),
            **({"zero below -3/slope": implies(a.x * a.a <= -3, eq(o, 0)), "one above 3/slope": implies(a.x * a.a >= 3, eq(o, 1)),
                "linear between": implies(conj(a.x * a.a > -3, a.x * a.a < 3), eq(o, HALF + a.a * a.x / 6))} if n == "hard_sigmoid" else {})},
            functions=F1))
        for m in (True,):
            cs.append(Contract(f"{n}: value (approximation enabled globally)", dict(x=real(), a=posreal()), g,
                      lambda a, o, spec=spec: {"formula": eq(o, spec(a.x, a.a))}, functions=F1, mode=m))
        cs.append(Contract(f"{n}: monotone in x", X, lambda x, f=f: (f(x.x, x.a), f(x.y, x.a)),
                  lambda a, o: {"monotone": o[0] <= o[1]}, requires=lambda a: [a.x <= a.y], functions=F1))
        cs.append(Contract(f"{n}: monotone in slope", X, lambda x, f=f: (f(x.x, x.a), f(x.x, x.b)),
                  lambda a, o: {"monotone": o[0] <= o[1]}, requires=lambda a: [a.x >= 0, a.a <= a.b], functions=F1))
        cs.append(Contract(f"{n}: symmetry", dict(x=real(), a=posreal()), lambda x, f=f: (f(x.x, x.a), f(-x.x, x.a)),
                  lambda a, o: {"s(-x) = 1 - s(x)": eq(o[1], 1 - o[0])}, functions=F1))
        for sh in ((3,), (2, 2), (1, 0), (2, 1, 2)):
            cs.append(Contract(f"{n}: batched {sh}", dict(x=real(*sh), a=posreal()), g,
                      lambda a, o, spec=spec, sh=sh: {f"element {i}": eq(o[i], spec(a.x[i], a.a)) for i in np.ndindex(sh)} or {"empty": TRUE},
                      functions=F1, bounded="batch shapes (3,), (2,2), (1,0), (2,1,2)"))
        cs.append(Contract(f"activation with {n}", dict(x=real(), a=posreal()), lambda x, f=f: L.activation(x.x, x.a, f),
                  lambda a, o, spec=spec: {"formula": eq(o, spec(a.x, a.a))}, functions=F1))
        cs.append(Contract(f"activation with {n}, default slope", dict(x=real()), lambda x, f=f: L.activation(x.x, function=f),
                  lambda a, o, spec=spec: {"formula": eq(o, spec(a.x, const(100)))}, functions=F1))
        cs.append(Contract(f"{n}: array slope keyword", dict(x=real(2), a=posreal()), lambda x, f=f: L.activation(x.x, alpha=x.a, function=f),
                  lambda a, o, spec=spec: {f"element {i}": eq(o[i], spec(a.x[i], a.a)) for i in (0, 1)}, functions=F1, bounded="batch of 2"))
    cs.append(Contract("activation default", dict(x=real()), lambda x: L.activation(x.x),
              lambda a, o: {"hard sigmoid, slope 100": eq(o, hard(a.x, const(100)))}, functions=F1))
    cs.append(Contract("activation default function", dict(x=real(), a=posreal()), lambda x: L.activation(x.x, x.a),
              lambda a, o: {"hard sigmoid": eq(o, hard(a.x, a.a))}, functions=F1))
    cs.append(Contract("activation with any function", dict(x=real(), a=real()),
              lambda x: (L.activation(x.x, x.a, my_act), uf("act", x.x, x.a)),
              lambda a, o: {"calls it with its arguments": eq(o[0], o[1])}, functions=F1))
    r.run(cs)
    return r.finish()


def my_act(x, alpha): return uf("act", x, alpha)
