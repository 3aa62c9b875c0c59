"""Jaxprs over symbolic sizes: arrays are functions from indices to scalars, scans of symbolic length are recursors.

A program is traced once with symbolic dimensions (``jax.export.symbolic_shape``); the jaxpr is interpreted with

* A(shape, fn): an array given by its elements, ``fn(indices) -> F | T``, indices and sizes being integer terms;
* reductions over a symbolic axis: opaque variables, hash-consed on (kind, size, body at a bound index);
* scans of symbolic length: for the carry, an uninterpreted function of the step (the unique solution of
  c(0) = init, c(i+1) = step(i, c(i))), whose two equations are available to proofs as instances.

Nothing is unrolled: a goal proved at a free index in range holds for every size and every iteration.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core as jcore
from .terms import *
from . import interp
from .interp import F, Unsupported, RULES, is_float, is_bool, to_sym, concrete_int, sel, f_add, f_mul


# ------------------------------------------------------------------ index arithmetic
class Facts:
    """a stack of non-negative integer terms; decides linear index conditions by Fourier-Motzkin"""
    def __init__(self):
        self.st = []
        self.memo = {}
        self.decided = {}
        self._key = None

    def push(self, *ts):
        self.st.append(tuple(ts)); self._key = None

    def pop(self):
        self.st.pop(); self._key = None

    def key(self):
        if self._key is None: self._key = frozenset(t.id for g in self.st for t in g)
        return self._key

    def all(self):
        seen = {}
        for g in self.st:
            for t in g: seen[t] = True
        return list(seen)

    def nonneg(self, t):
        """True when t >= 0 follows (integers)"""
        if t.op == "c": return t.args[0] >= 0
        fs = self.all()
        key = (t, tuple(fs))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = _fm([_lin(f) for f in fs] + [_lin(scale(-1, t) - 1)])
        return r

    def decide(self, c):
        """simplify a condition on index terms"""
        if c is TRUE or c is FALSE: return c
        if c.op in ("not", "and", "or"):
            k = (c, self.key())
            r = self.decided.get(k)
            if r is None:
                if c.op == "not": r = neg(self.decide(c.args[0]))
                else: r = (conj if c.op == "and" else disj)(*[self.decide(x) for x in c.args])
                self.decided[k] = r
            return r
        if c.op == "lt0":
            t = c.args[0]
            if not index_like(t): return c
            if self.nonneg(t): return FALSE
            if self.nonneg(-t - 1): return TRUE
        elif c.op == "eq0":
            t = c.args[0]
            if not index_like(t): return c
            if self.nonneg(t - 1) or self.nonneg(-t - 1): return FALSE
            if self.nonneg(t) and self.nonneg(-t): return TRUE
        return c


def index_like(t):
    k, d = terms_of(t)
    return k.denominator == 1 and all(c.denominator == 1 and is_int(x) for x, c in d.items())


def is_int(x):
    return x.op == "v" and x.args[2] or x.op == "app" and x.args[0].startswith("int:")


def _lin(t):
    k, d = terms_of(t)
    return (k, tuple(sorted(((x.id, c) for x, c in d.items()))))


def _fm(cs, limit=400):
    """are the constraints (each >= 0) unsatisfiable over the rationals?"""
    cs = [(k, dict(d)) for k, d in cs]
    while True:
        if any(not d and k < 0 for k, d in cs): return True
        cs = [(k, d) for k, d in cs if d]
        vs = {}
        for _, d in cs:
            for x in d: vs[x] = vs.get(x, 0) + 1
        if not vs: return False
        x = min(vs, key=lambda v: vs[v])
        pos = [c for c in cs if c[1].get(x, 0) > 0]; ng = [c for c in cs if c[1].get(x, 0) < 0]
        new = [c for c in cs if not c[1].get(x, 0)]
        if len(pos) * len(ng) + len(new) > limit: return False
        for k1, d1 in pos:
            for k2, d2 in ng:
                a, b = d1[x], -d2[x]
                d = {}
                for y, c in d1.items(): d[y] = d.get(y, 0) + b * c
                for y, c in d2.items(): d[y] = d.get(y, 0) + a * c
                new.append((k1 * b + k2 * a, {y: c for y, c in d.items() if c}))
        cs = new


FACTS = Facts()
DIMS = {}                # dimension variable name -> term


def reset(dims, facts=()):
    FACTS.st = []; FACTS._key = None; FACTS.memo = {}; FACTS.decided = {}; DIMS.clear(); DIMS.update(dims); FACTS.push(*facts)
    LEVEL[0] = 0; RECS.clear(); OBL.clear()


def dim(d):
    """size -> int or term"""
    if isinstance(d, (int, np.integer)): return int(d)
    if isinstance(d, T):
        i = concrete_int(d)
        return d if i is None else i
    try: r = lift(d._evaluate(DIMS))
    except (TypeError, KeyError, AttributeError) as e: raise Unsupported(f"dimension {d}: {e}") from None
    i = concrete_int(r)
    return r if i is None else i


def shape_of(s): return tuple(dim(d) for d in s)


def same(a, b):
    """are two sizes equal?"""
    return FACTS.decide(eq(lift(a), lift(b))) is TRUE


# ------------------------------------------------------------------ arrays
class A:
    def __init__(self, shape, fn):
        self.shape = tuple(shape); self.fn = fn; self.memo = {}

    @property
    def ndim(self): return len(self.shape)

    def at(self, idx):
        k = (idx, FACTS.key())                # elements are simplified under the facts in force
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.fn(idx)
        return r


def is_conc(x): return isinstance(x, np.ndarray)


def elem(x, idx):
    """element of an array at a tuple of index terms"""
    idx = tuple(lift(i) for i in idx)
    if not is_conc(x): return x.at(idx)
    def go(a, ix):
        if not ix: return a[()] if isinstance(a, np.ndarray) else a
        k = concrete_int(ix[0])
        if k is not None: return go(a[k], ix[1:])
        r = go(a[a.shape[0] - 1], ix[1:])
        for j in range(a.shape[0] - 2, -1, -1):
            c = FACTS.decide(le(ix[0], const(j)))
            r = sel(c, go(a[j], ix[1:]), r)
        return r
    return go(x, idx)


def box(v):
    a = np.empty((), dtype=object); a[()] = v
    return a


def force(x):
    """an array of concrete shape as an object array"""
    if is_conc(x): return x
    if not all(isinstance(d, int) for d in x.shape): raise Unsupported("symbolic size")
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape): out[i] = elem(x, i)
    return out


def arr(shape, fn):
    a = A(shape, fn)
    return force(a) if all(isinstance(d, int) for d in a.shape) else a


# ------------------------------------------------------------------ binders
LEVEL = [0]
BIG = {}                 # opaque variable -> (kind, size, bound variable, body)
FREE = {}                # opaque variable or recursor name -> placeholders it depends on


def placeholders(t, memo={}):
    """bound indices and carry placeholders a term depends on, also through opaque terms"""
    r = memo.get(t)
    if r is not None: return r
    out = set()
    for x in topo([t]):
        if x.op == "v":
            if isinstance(x.args[0], str) and x.args[0].startswith("#"): out.add(x)
            if x in FREE: out |= FREE[x]
        elif x.op == "app":
            if x.args[0].startswith("#"): out.add(x.args[0])
            f = FREE.get(x.args[0].split("|")[0])
            if f: out |= f
    r = memo[t] = frozenset(out)
    return r


class binder:
    """a bound index 0 <= k < n"""
    def __init__(self, n): self.n = lift(n)
    def __enter__(self):
        LEVEL[0] += 1
        k = var(f"#k{LEVEL[0]}", "R", "nonneg", True)
        FACTS.push(k, self.n - 1 - k)
        return k
    def __exit__(self, *a):
        FACTS.pop(); LEVEL[0] -= 1


def opaque(kind, n, k, body, sort="R", pos=None, integer=False):
    v = mk("v", (f"{kind}<{lift(n).id},{k.id},{body.id}>", pos, integer), sort)
    BIG[v] = (kind, n, k, body)
    FREE[v] = (placeholders(body) | placeholders(lift(n))) - {k}
    return v


def big(kind, n, k, body):
    """kind of reduction of body over k < n"""
    n = lift(n)
    if kind == "sum":
        if k not in placeholders(body): return mul(n, body)
        c0, d = terms_of(body)
        if c0 != 0 or len(d) > 1 or next(iter(d.values())) != 1:
            return add(scale(c0, n), *[scale(c, big("sum", n, k, x)) for x, c in d.items()])
        if body.op == "mul":
            out = [powi(x, e) for x, e in body.args if k not in placeholders(x)]
            ins = [powi(x, e) for x, e in body.args if k in placeholders(x)]
            if out: return mul(*out, big("sum", n, k, mul(*ins)))
        return opaque("sum", n, k, body, pos="nonneg" if is_nonneg(body) else None)
    if kind in ("min", "max"):
        if k not in placeholders(body): return body          # sizes of reductions are checked to be positive
        return opaque(kind, n, k, body, pos="nonneg" if is_nonneg(body) else None)
    if kind in ("and", "or"):
        if body is TRUE or body is FALSE: return body
        return opaque(kind, n, k, body, sort="B")
    raise Unsupported("reduction " + kind)


def reduce_big(kind, n, fn, fl):
    """fn(k) -> element"""
    with binder(n) as k:
        e = fn(k)
    if isinstance(e, F):
        if kind in ("min", "max") and not FACTS.nonneg(lift(n) - 1): raise Unsupported("possibly empty reduction")
        if e.finite: return F(big(kind, n, k, e.v))
        if kind != "sum": raise Unsupported("non-finite reduction")
        anyb = lambda t: FALSE if t is FALSE else big("or", n, k, t)
        nan, p, m = anyb(e.nan), anyb(e.pinf), anyb(e.ninf)
        nan = disj(nan, conj(p, m))
        return F(big("sum", n, k, e.v), nan, conj(p, neg(nan)), conj(m, neg(nan)))
    return big(kind, n, k, e)


# ------------------------------------------------------------------ rules
ELEMENTWISE = {"add", "add_any", "sub", "mul", "div", "max", "min", "neg", "abs", "sign", "floor", "sqrt", "rsqrt", "exp", "expm1",
               "logistic", "tanh", "sin", "cos", "square", "integer_pow", "is_finite", "lt", "le", "gt", "ge", "eq", "ne",
               "and", "or", "not", "xor", "convert_element_type", "copy", "copy_p", "stop_gradient", "optimization_barrier", "select_n",
               "clamp", "reduce_precision", "real", "rem", "pow"}
COMPARE = {"lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "xor"}
LOCAL = {}


def local(*names):
    def d(f):
        for n in names: LOCAL[n] = f
        return f
    return d


def scalar_rule(eqn):
    n = eqn.primitive.name
    def g(*vs):
        if n == "pow":
            x, e = vs
            e = e.v if isinstance(e, F) else e
            if e.op != "c" and index_like(e) and FACTS.nonneg(e) and isinstance(x, F) and x.finite:
                return F(app("ipow", x.v, e))
        if n in ("max", "min") and not isinstance(vs[0], F) and vs[0].sort == "R":
            c = FACTS.decide(lt(vs[0], vs[1]))
            return ite(c, vs[1], vs[0]) if n == "max" else ite(c, vs[0], vs[1])
        r = RULES[n](eqn, *[box(v) for v in vs])[()]
        if n in COMPARE: r = FACTS.decide(r)
        return r
    return g


def elementwise(eqn, xs, shape):
    f = scalar_rule(eqn)
    def at(idx):
        return f(*[elem(x, () if len(x.shape) == 0 else idx) for x in xs])
    return arr(shape, at)


@local("dim_as_value")
def _dav(eqn, shape): return box(lift(dim(eqn.params["dim"])))


@local("iota")
def _iota(eqn, shape, *_):
    d = eqn.params["dimension"]; fl = is_float(eqn.params["dtype"])
    return arr(shape, lambda ix: F(ix[d]) if fl else ix[d])


@local("broadcast_in_dim")
def _bid(eqn, shape, x, *_):
    bd = eqn.params["broadcast_dimensions"]
    xs = x.shape
    def at(ix):
        return elem(x, tuple(const(0) if (d == 1 and not same(shape[b], 1)) else ix[b] for d, b in zip(xs, bd)))
    return arr(shape, at)


@local("reshape")
def _reshape(eqn, shape, x, *_):
    a = [i for i, d in enumerate(x.shape) if not same(d, 1)]
    b = [i for i, d in enumerate(shape) if not same(d, 1)]
    if len(a) == len(b) and all(same(x.shape[i], shape[j]) for i, j in zip(a, b)):
        def at(ix):
            r = [const(0)] * len(x.shape)
            for i, j in zip(a, b): r[i] = ix[j]
            return elem(x, tuple(r))
        return arr(shape, at)
    # common leading dimensions, the rest concrete
    q = 0
    while q < min(len(x.shape), len(shape)) and same(x.shape[q], shape[q]): q += 1
    ra, rb = x.shape[q:], shape[q:]
    if not all(isinstance(d, int) for d in ra + rb): raise Unsupported("reshape of symbolic dimensions")
    def at(ix):
        sub = np.empty(ra, dtype=object)
        for i in np.ndindex(ra): sub[i] = i
        flat = list(np.ndindex(ra))
        k = 0
        tail = ix[q:]
        cs = [concrete_int(t) for t in tail]
        if any(c is None for c in cs): raise Unsupported("symbolic index into a reshaped block")
        k = int(np.ravel_multi_index(cs, rb)) if rb else 0
        return elem(x, ix[:q] + tuple(const(i) for i in flat[k]))
    return arr(shape, at)


@local("squeeze")
def _squeeze(eqn, shape, x):
    ds = {d % x.ndim for d in eqn.params["dimensions"]}
    def at(ix):
        it = iter(ix)
        return elem(x, tuple(const(0) if i in ds else next(it) for i in range(x.ndim)))
    return arr(shape, at)


@local("expand_dims")
def _expand(eqn, shape, x):
    ds = set(eqn.params["dimensions"])
    return arr(shape, lambda ix: elem(x, tuple(t for i, t in enumerate(ix) if i not in ds)))


@local("transpose")
def _transpose(eqn, shape, x):
    p = eqn.params["permutation"]
    def at(ix):
        r = [None] * x.ndim
        for i, j in enumerate(p): r[j] = ix[i]
        return elem(x, tuple(r))
    return arr(shape, at)


@local("rev")
def _rev(eqn, shape, x):
    ds = set(eqn.params["dimensions"])
    return arr(shape, lambda ix: elem(x, tuple(lift(x.shape[i]) - 1 - t if i in ds else t for i, t in enumerate(ix))))


@local("slice")
def _slice(eqn, shape, x):
    st = [lift(dim(d)) for d in eqn.params["start_indices"]]
    sr = [lift(dim(d)) for d in (eqn.params["strides"] or [1] * x.ndim)]
    return arr(shape, lambda ix: elem(x, tuple(s + k * t for s, k, t in zip(st, sr, ix))))


@local("concatenate")
def _cat(eqn, shape, *xs):
    d = eqn.params["dimension"]
    def at(ix):
        off = const(0); parts = []
        for x in xs:
            parts.append((off, x)); off = off + lift(x.shape[d])
        def pick(k):
            o, x = parts[k]
            get = lambda: elem(x, ix[:d] + (ix[d] - o,) + ix[d + 1:])
            if k == len(parts) - 1: return get()
            c = FACTS.decide(lt(ix[d], o + lift(x.shape[d])))
            if c is TRUE: return get()
            if c is FALSE: return pick(k + 1)
            FACTS.push(o + lift(x.shape[d]) - 1 - ix[d])
            try: a = get()
            finally: FACTS.pop()
            FACTS.push(ix[d] - o - lift(x.shape[d]))
            try: b = pick(k + 1)
            finally: FACTS.pop()
            return sel(c, a, b)
        # empty parts are skipped
        return pick(0)
    return arr(shape, at)


@local("split")
def _split(eqn, shape, x):
    ax = eqn.params["axis"]; out = []; o = const(0)
    for s in eqn.params["sizes"]:
        s = dim(s); off = o
        sh = list(x.shape); sh[ax] = s
        out.append(arr(sh, lambda ix, off=off: elem(x, ix[:ax] + (ix[ax] + off,) + ix[ax + 1:])))
        o = o + lift(s)
    return out


def clamp_index(i, hi):
    i = lift(i); hi = lift(hi)
    c = FACTS.decide(lt(i, ZERO))
    if c is not FALSE: i = ite(c, ZERO, i)
    c = FACTS.decide(lt(hi, i))
    return ite(c, hi, i)


@local("dynamic_slice")
def _dslice(eqn, shape, x, *idx):
    sizes = shape_of(eqn.params["slice_sizes"])
    st = [clamp_index(force(i)[()], lift(d) - lift(s)) for i, d, s in zip(idx, x.shape, sizes)]
    return arr(shape, lambda ix: elem(x, tuple(s + t for s, t in zip(st, ix))))


def inside(t, lo, n):
    return FACTS.decide(conj(le(lo, t), lt(t, lo + lift(n))))


@local("dynamic_update_slice")
def _duslice(eqn, shape, x, u, *idx):
    st = [clamp_index(force(i)[()], lift(d) - lift(s)) for i, d, s in zip(idx, x.shape, u.shape)]
    def at(ix):
        c = conj(*[inside(t, s, n) for t, s, n in zip(ix, st, u.shape)])
        if c is FALSE: return elem(x, ix)
        new = elem(u, tuple(t - s if not same(n, 1) else ZERO for t, s, n in zip(ix, st, u.shape)))
        return new if c is TRUE else sel(c, new, elem(x, ix))
    return arr(shape, at)


@local("gather")
def _gather(eqn, shape, x, idx):
    """one index vector per batch element, full slices elsewhere"""
    dn = eqn.params["dimension_numbers"]; ss = shape_of(eqn.params["slice_sizes"])
    if getattr(dn, "operand_batching_dims", ()): raise Unsupported("batched gather")
    mode = str(eqn.params["mode"])
    m = dn.start_index_map; col = set(dn.collapsed_slice_dims); off = list(dn.offset_dims)
    nb = len(idx.shape) - 1
    def at(ix):
        bidx = tuple(t for i, t in enumerate(ix) if i not in off)
        oidx = iter([t for i, t in enumerate(ix) if i in off])
        pos = [ZERO] * x.ndim; ok = TRUE
        for k, d in enumerate(m):
            t = elem(idx, bidx + (const(k),))
            hi = lift(x.shape[d]) - lift(ss[d])
            if "CLIP" in mode: t = clamp_index(t, hi)
            elif "FILL" in mode: ok = conj(ok, FACTS.decide(conj(le(ZERO, t), le(t, hi))))
            elif FACTS.decide(conj(le(ZERO, t), le(t, hi))) is not TRUE: t = clamp_index(t, hi)
            pos[d] = t
        full = tuple(pos[d] if d in col else pos[d] + next(oidx) for d in range(x.ndim))
        if ok is FALSE: raise Unsupported("index out of range")
        r = elem(x, full)
        if ok is not TRUE:
            fill = F(ZERO, TRUE) if isinstance(r, F) else (FALSE if r.sort == "B" else const(-(2 ** 31)))
            r = sel(ok, r, fill)
        return r
    return arr(shape, at)


@local("scatter", "scatter-add")
def _scatter(eqn, shape, x, idx, upd):
    """x.at[i].set(v) or .add(v) with a single index vector"""
    add = scalar_rule(_Fake(eqn, "add")) if eqn.primitive.name == "scatter-add" else None
    dn = eqn.params["dimension_numbers"]
    if getattr(dn, "operand_batching_dims", ()) or len(idx.shape) != 1: raise Unsupported("scatter")
    m = dn.scatter_dims_to_operand_dims; ins = set(dn.inserted_window_dims); win = list(dn.update_window_dims)
    if len(win) != len(upd.shape): raise Unsupported("scatter")
    starts = [ZERO] * x.ndim; sizes = []
    it = iter(upd.shape)
    for d in range(x.ndim): sizes.append(1 if d in ins else next(it))
    ok = TRUE
    for k, d in enumerate(m):
        starts[d] = elem(idx, (const(k),))
        ok = conj(ok, FACTS.decide(conj(le(ZERO, starts[d]), le(starts[d] + lift(sizes[d]), lift(x.shape[d])))))
    def at(ix):
        c = conj(ok, *[inside(t, s, n) for t, s, n in zip(ix, starts, sizes)])
        if c is FALSE: return elem(x, ix)
        new = elem(upd, tuple(ix[d] - starts[d] for d in range(x.ndim) if d not in ins))
        if add: new = add(elem(x, ix), new)
        return new if c is TRUE else sel(c, new, elem(x, ix))
    return arr(shape, at)


@local("pad")
def _pad(eqn, shape, x, pv):
    cfg = eqn.params["padding_config"]
    if any(dim(i) != 0 for _, _, i in cfg): raise Unsupported("interior padding")
    lo = [lift(dim(l)) for l, _, _ in cfg]
    def at(ix):
        c = conj(*[inside(t, l, n) for t, l, n in zip(ix, lo, x.shape)])
        if c is FALSE: return elem(pv, ())
        v = elem(x, tuple(t - l for t, l in zip(ix, lo)))
        return v if c is TRUE else sel(c, v, elem(pv, ()))
    return arr(shape, at)


_KIND = {"reduce_sum": "sum", "reduce_max": "max", "reduce_min": "min", "reduce_and": "and", "reduce_or": "or"}


@local(*_KIND)
def _reduce(eqn, shape, x):
    axes = sorted(eqn.params["axes"])
    n = eqn.primitive.name
    dt = eqn.invars[0].aval.dtype
    kind = _KIND[n]
    if is_bool(dt): kind = {"max": "or", "min": "and"}.get(kind, kind)
    two = scalar_rule(_Fake(eqn, {"sum": "add", "max": "max", "min": "min", "and": "and", "or": "or"}[_KIND[n]]))
    def red(axs, ix):
        """ix: full index with None on the axes still to be reduced"""
        if not axs: return elem(x, tuple(ix))
        conc = [a for a in axs if isinstance(x.shape[a], int)]
        if conc:
            a = conc[0]; acc = None
            for j in range(x.shape[a]):
                v = red([b for b in axs if b != a], ix[:a] + [const(j)] + ix[a + 1:])
                acc = v if acc is None else two(acc, v)
            if acc is None: raise Unsupported("empty reduction")
            return acc
        a = axs[0]
        return reduce_big(kind, x.shape[a], lambda k: red(axs[1:], ix[:a] + [k] + ix[a + 1:]), is_float(dt))
    def at(ix):
        it = iter(ix)
        return red(axes, [None if d in axes else next(it) for d in range(x.ndim)])
    return arr(shape, at)


class _Fake:
    """an equation of another primitive with the same operand types"""
    def __init__(self, eqn, name):
        self.invars = [eqn.invars[0]] * 2; self.outvars = eqn.outvars; self.params = {}
        self.primitive = type("P", (), {"name": name})


@local("argmin", "argmax")
def _arg(eqn, shape, x):
    (ax,) = eqn.params["axes"]
    n = x.shape[ax]
    if isinstance(n, int): raise Unsupported("argmin over a concrete axis of a symbolic array")
    if not FACTS.nonneg(lift(n) - 1): raise Unsupported("possibly empty reduction")
    def at(ix):
        with binder(n) as k:
            e = elem(x, ix[:ax] + (k,) + ix[ax:])
        if isinstance(e, F):
            if not e.finite: raise Unsupported("argmin of possibly non-finite values")
            e = e.v
        v = opaque(eqn.primitive.name, n, k, e, pos="nonneg", integer=True)
        FACTS.st[0] = FACTS.st[0] + (v, lift(n) - 1 - v); FACTS._key = None
        return v
    return arr(shape, at)


@local("dot_general")
def _dot(eqn, shape, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fl = is_float(eqn.invars[0].aval.dtype)
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    mult = f_mul if fl else mul
    plus = f_add if fl else add
    def at(ix):
        nb = len(ba)
        ia = {d: ix[i] for i, d in enumerate(ba)}; ib = {d: ix[i] for i, d in enumerate(bb)}
        for i, d in enumerate(fa): ia[d] = ix[nb + i]
        for i, d in enumerate(fb): ib[d] = ix[nb + len(fa) + i]
        def go(j):
            if j == len(ca):
                return mult(elem(a, tuple(ia[d] for d in range(a.ndim))), elem(b, tuple(ib[d] for d in range(b.ndim))))
            n = a.shape[ca[j]]
            if isinstance(n, int):
                acc = None
                for q in range(n):
                    ia[ca[j]] = ib[cb[j]] = const(q)
                    v = go(j + 1); acc = v if acc is None else plus(acc, v)
                return acc
            def f(k):
                ia[ca[j]] = ib[cb[j]] = k
                return go(j + 1)
            return reduce_big("sum", n, f, fl)
        return go(0)
    return arr(shape, at)


# ------------------------------------------------------------------ recursors
RECS = []
OBL = []                 # (label, formula that must be unsatisfiable): finiteness inductions taken for granted by the interpretation


class Rec:
    """the carry of a scan: before(i) is what step i receives, in the order the steps are taken"""
    def __init__(self, L, init, step, reverse, nk, depth, kinds):
        self.L = lift(L); self.init = init; self.step_fn = step; self.reverse = reverse; self.nk = nk
        self.depth = depth; self.kinds = kinds; self.closed = {}; self.finite = [False] * nk
        self.memo = {}; self.id = None

    # position i: forward  c(0)=init, c(i+1)=step(i, c(i));  reverse  c(L)=init, c(i)=step(i, c(i+1))
    def taken(self, i): return i + 1 if self.reverse else i
    def given(self, i): return i if self.reverse else i + 1

    def generic(self):
        d = self.depth
        out = []
        for j, (x, k) in enumerate(zip(self.init, self.kinds)):
            def at(ix, j=j, k=k):
                return scalar(f"#c{d}.{j}", ix, k, self.finite[j])
            out.append(arr(x.shape, at))
        return out

    def index(self): return var(f"#i{self.depth}", "R", "nonneg", True)

    def step(self, i, carry):
        """(new carry, outputs) of step i on the given carry"""
        LEVEL[0] += 1
        try: return self.step_fn(i, carry)
        finally: LEVEL[0] -= 1

    def at(self, i):
        """carry at position i (list of arrays)"""
        i = lift(i)
        mk_ = (i, FACTS.key())
        if mk_ in self.memo: return self.memo[mk_]
        end = self.L if self.reverse else ZERO
        if FACTS.decide(eq(i, end)) is TRUE: return self.init
        out = []
        for j, (x, k) in enumerate(zip(self.init, self.kinds)):
            if j in self.closed:
                out.append(box(self.closed[j](i))); continue
            def at(ix, j=j, k=k):
                return scalar(f"rec{self.id}|{j}", ix, k, self.finite[j], first=(i,))
            out.append(arr(x.shape, at))
        self.memo[mk_] = out
        return out

    def final(self): return self.at(ZERO if self.reverse else self.L)


def scalar(name, ix, kind, finite, first=()):
    cs = [concrete_int(t) for t in ix]
    nm = name + "".join(f"[{c}]" if c is not None else "[]" for c in cs)
    args = first + tuple(t for t, c in zip(ix, cs) if c is None)
    def g(n, sort="R"): return app(n, *args, sort=sort)
    if kind == "B": return g(nm, "B")
    if kind == "I": return g("int:" + nm)
    if finite: return F(g(nm))
    return F(g(nm), g(nm + "@nan", "B"), g(nm + "@inf", "B"), g(nm + "@ninf", "B"))


PROVE = [None]           # PROVE[0](formula) -> True when the formula is unsatisfiable


def flatten_all(arrays, extra=()):
    """canonical tuple of all elements, symbolic axes at a bound index"""
    out = []
    for x in arrays:
        def go(ix, rest):
            if not rest: out.append(elem(x, ix)); return
            if isinstance(rest[0], int):
                for q in range(rest[0]): go(ix + (const(q),), rest[1:])
            else:
                with binder(rest[0]) as k: go(ix + (k,), rest[1:])
        go((), list(x.shape))
    return out


def flags(vs):
    return [disj(v.nan, v.pinf, v.ninf) for v in vs if isinstance(v, F) and not v.finite]


_IDS = {}


def eval_scan(eqn, xs):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    consts, init, seq = xs[:nc], list(xs[nc:nc + nk]), xs[nc + nk:]
    L = dim(p["length"])
    body = p["jaxpr"]
    nys = len(body.jaxpr.outvars) - nk
    reverse = p["reverse"]
    def xat(i):
        return [arr(s.shape[1:], lambda ix, s=s: elem(s, (i,) + ix)) for s in seq]
    if isinstance(L, int):
        if L > 60: raise Unsupported("long scan")
        carry = init; ys = {}
        for i in (range(L - 1, -1, -1) if reverse else range(L)):
            o = eval_closed(body, [*consts, *carry, *xat(const(i))]); carry = o[:nk]; ys[i] = o[nk:]
        res = list(carry)
        for j in range(nys):
            sh = shape_of(eqn.outvars[nk + j].aval.shape)
            def at(ix, j=j):
                k = concrete_int(ix[0])
                if k is not None: return elem(ys[k][j], ix[1:])
                r = elem(ys[L - 1][j], ix[1:])
                for q in range(L - 2, -1, -1): r = sel(FACTS.decide(le(ix[0], const(q))), elem(ys[q][j], ix[1:]), r)
                return r
            res.append(arr(sh, at))
        return res
    kinds = ["F" if is_float(v.aval.dtype) else "B" if is_bool(v.aval.dtype) else "I" for v in body.jaxpr.invars[nc:nc + nk]]
    def step(i, carry):
        FACTS.push(lift(i), lift(L) - 1 - lift(i))
        try:
            o = eval_closed(body, [*consts, *carry, *xat(lift(i))])
            return o[:nk], o[nk:]
        finally: FACTS.pop()
    r = Rec(L, init, step, reverse, nk, LEVEL[0] + 1, kinds)
    gi = r.index()
    # counters: c' = c + constant
    for j, k in enumerate(kinds):
        if k == "I" and init[j].shape == ():
            new, _ = r.step(gi, r.generic())
            d = new[j][()] - r.generic()[j][()] if is_conc(new[j]) else None
            if d is not None and d.op == "c":
                i0 = init[j][()]
                r.closed[j] = (lambda i, i0=i0, d=d: i0 + d * ((r.L - i) if reverse else i))
    def gen():
        g = r.generic()
        for j, f in r.closed.items(): g[j] = box(f(r.taken(gi)))
        return g
    # finiteness by induction over the steps
    cand = [j for j, k in enumerate(kinds) if k == "F"]
    while cand:
        for j in range(nk): r.finite[j] = j in cand
        bad = set()
        for j in cand:
            if any(f is not FALSE for f in flags(flatten_all([init[j]]))): bad.add(j)
        if not bad:
            new, _ = r.step(gi, gen())
            for j in cand:
                for f in flags(flatten_all([new[j]])):
                    if f is FALSE: continue
                    rng = conj(*[le(ZERO, t) for t in FACTS.all()], le(ZERO, gi), lt(gi, r.L))
                    if PROVE[0] is None or not PROVE[0](conj(rng, f)): bad.add(j); break
        if not bad: break
        cand = [j for j in cand if j not in bad]
    for j in range(nk): r.finite[j] = j in cand
    new, ys = r.step(gi, gen())
    key = [reverse, r.L, tuple(r.closed)]
    def sig(v): return (v.v, v.nan, v.pinf, v.ninf) if isinstance(v, F) else (v,)
    for v in flatten_all(init): key.append(sig(v))
    for v in flatten_all(new): key.append(sig(v))
    key = tuple(key)
    r.id = _IDS.setdefault(key, len(_IDS) + 1)
    own = {gi} | {f"#c{r.depth}.{j}" for j in range(nk)}
    fr = set()
    for e in key[3:]:
        for t in e: fr |= placeholders(t)
    FREE[f"rec{r.id}"] = frozenset(x for x in fr if x not in own and not (isinstance(x, str) and x.startswith(f"#c{r.depth}.")))
    RECS.append(r)
    res = list(r.final())
    carry_out = body.jaxpr.outvars[:nk]
    inner = _resolve(body.jaxpr)
    cid = [inner(v) for v in carry_out]
    for j in range(nys):
        v = inner(body.jaxpr.outvars[nk + j])
        sh = shape_of(eqn.outvars[nk + j].aval.shape)
        if v in cid:
            q = cid.index(v)
            res.append(arr(sh, lambda ix, q=q: elem(r.at(r.given(ix[0]))[q], ix[1:])))
        else:
            def at(ix, j=j):
                _, y = r.step(ix[0], r.at(r.taken(ix[0])))
                return elem(y[j], ix[1:])
            res.append(arr(sh, at))
    return res


def _resolve(jaxpr):
    """follow a variable through trailing pjit calls, so that two names of one value are recognised"""
    defs = {o: (e, i) for e in jaxpr.eqns for i, o in enumerate(e.outvars)}
    def go(v):
        if isinstance(v, jcore.Literal): return v.val if np.ndim(v.val) == 0 else id(v)
        e = defs.get(v)
        if e and e[0].primitive.name == "pjit":
            o = e[0].params["jaxpr"].jaxpr.outvars[e[1]]
            return (id(e[0]), str(o))
        return v
    return go


# ------------------------------------------------------------------ evaluation
def read(env, v):
    if isinstance(v, jcore.Literal): return to_sym(np.asarray(v.val, dtype=v.aval.dtype))
    return env[v]


def eval_jaxpr(jaxpr, consts, args):
    env = {}
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if isinstance(c, A) or is_conc(c) and c.dtype == object else interp.to_key_or_sym(c)
    for v, a in zip(jaxpr.invars, args): env[v] = a
    for eqn in jaxpr.eqns:
        outs = eval_eqn(eqn, [read(env, v) for v in eqn.invars])
        for v, o in zip(eqn.outvars, outs): env[v] = o
    return [read(env, v) for v in jaxpr.outvars]


def eval_closed(cj, args): return eval_jaxpr(cj.jaxpr, cj.consts, args)


def symbolic(d): return not isinstance(d, (int, np.integer))


def uf_batched(eqn, xs, shape):
    p = eqn.params
    nb = p["nb"]
    def at(ix):
        b, rest = ix[:nb], ix[nb:]
        args = []
        for x in xs:
            sub = arr(x.shape[nb:], lambda jx, x=x: elem(x, b + jx))
            for s in force(sub).reshape(-1): args.append(s)
        flat = [box(a) for a in args]
        e2 = type("E", (), {"params": {**p, "nb": 0}, "outvars": eqn.outvars, "invars": eqn.invars})
        o = interp.uf_rule(e2, *flat)
        return elem(o, rest)
    return arr(shape, at)


def eval_eqn(eqn, xs):
    n = eqn.primitive.name; p = eqn.params
    if n == "pjit":
        if p.get("name") == "_uniform" and len(xs) == 3 and all(is_conc(x) for x in xs) and not any(symbolic(d) for v in eqn.outvars for d in v.aval.shape):
            return [interp.uniform_rule(eqn, *xs)]
        return eval_closed(p["jaxpr"], xs)
    if n in ("closed_call", "core_call", "remat", "checkpoint", "remat2"):
        j = p.get("call_jaxpr", p.get("jaxpr"))
        return eval_closed(j, xs) if hasattr(j, "consts") else eval_jaxpr(j, [], xs)
    if n == "custom_jvp_call": return eval_closed(p["call_jaxpr"], xs)
    if n in ("custom_vjp_call", "custom_vjp_call_jaxpr"): return eval_closed(p.get("call_jaxpr", p.get("fun_jaxpr")), xs)
    if n == "cond":
        k = force(xs[0])[()]; ops = xs[1:]; br = p["branches"]
        if k.sort == "B": k = ite(k, ONE, ZERO)
        ci = concrete_int(k)
        if ci is not None: return eval_closed(br[min(max(ci, 0), len(br) - 1)], ops)
        rs = [eval_closed(b, ops) for b in br]
        out = rs[-1]
        for i in range(len(br) - 2, -1, -1):
            c = FACTS.decide(le(k, const(i)))
            out = [arr(y.shape, lambda ix, x=x, y=y, c=c: sel(c, elem(x, ix), elem(y, ix))) for x, y in zip(rs[i], out)]
        return out
    if n == "scan": return eval_scan(eqn, xs)
    if n == "while": raise Unsupported("while")
    shapes = [shape_of(v.aval.shape) for v in eqn.outvars]
    if n == "vc_uf" and not all(is_conc(x) for x in xs): return [uf_batched(eqn, xs, shapes[0])]
    if n in ELEMENTWISE: return [elementwise(eqn, xs, shapes[0])]
    has_sym = any(not is_conc(x) for x in xs) or any(symbolic(d) for s in shapes for d in s) or \
        any(symbolic(d) for v in eqn.invars for d in v.aval.shape)
    if n == "dim_as_value": return [_dav(eqn, shapes[0])]
    if n in ("dynamic_slice", "gather", "scatter", "scatter-add", "dynamic_update_slice") and not has_sym:
        has_sym = not all(concrete_int(t) is not None for x in xs[1:] for t in x.reshape(-1) if isinstance(t, T))
    if not has_sym:
        return interp.eval_eqn(eqn, [force(x) for x in xs])
    r = LOCAL.get(n)
    if r is None: raise Unsupported("primitive " + n + " with symbolic sizes")
    o = r(eqn, shapes[0], *xs)
    return o if isinstance(o, list) else [o]
