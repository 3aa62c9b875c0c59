"""Symbolic interpreter of jaxprs: scalars are terms, arrays are numpy object arrays.

Floats are F(v, nan, pinf, ninf): a real value plus IEEE special-value conditions.
Integers are integral reals (no overflow), booleans are boolean terms, PRNG keys are
opaque terms.  Dropped: rounding, overflow, signed zeros, subnormals.
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core as jcore
from .terms import *


class Unsupported(Exception):
    pass


class F:
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=FALSE, pinf=FALSE, ninf=FALSE):
        self.v = v; self.nan = nan; self.pinf = pinf; self.ninf = ninf

    @property
    def finite(self):
        return self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE

    @property
    def special(self):
        return disj(self.nan, self.pinf, self.ninf)

    @property
    def inf(self): return disj(self.pinf, self.ninf)

    def __repr__(self):
        return f"F({self.v}" + ("" if self.finite else f", nan={self.nan}, +inf={self.pinf}, -inf={self.ninf}") + ")"


class Ctx:
    """refute(t): True when the boolean term t is known to be unsatisfiable."""
    refute = None
    stats = {}

    def clean(self, t):
        if t is FALSE or t is TRUE or self.refute is None:
            return t
        return FALSE if self.refute(t) else t


CTX = Ctx()


def mkF(v, nan, pinf, ninf):
    return F(v, CTX.clean(nan), CTX.clean(pinf), CTX.clean(ninf))


def f_add(a, b):
    v = add(a.v, b.v)
    if a.finite and b.finite: return F(v)
    nan = disj(a.nan, b.nan, conj(a.pinf, b.ninf), conj(a.ninf, b.pinf))
    return mkF(v, nan, conj(disj(a.pinf, b.pinf), neg(nan)), conj(disj(a.ninf, b.ninf), neg(nan)))


def f_neg(a): return F(scale(-1, a.v), a.nan, a.ninf, a.pinf)
def f_sub(a, b): return f_add(a, f_neg(b))


def _sgn(a):
    """(is_positive, is_negative, is_zero) including infinities"""
    fin = neg(a.special)
    return (disj(a.pinf, conj(fin, lt0(scale(-1, a.v)))), disj(a.ninf, conj(fin, lt0(a.v))), conj(fin, eq0(a.v)))


def f_mul(a, b):
    v = mul(a.v, b.v)
    if a.finite and b.finite: return F(v)
    ap, an, az = _sgn(a); bp, bn, bz = _sgn(b)
    nan = disj(a.nan, b.nan, conj(a.inf, bz), conj(b.inf, az))
    anyinf = conj(disj(a.inf, b.inf), neg(nan))
    pos = disj(conj(ap, bp), conj(an, bn))
    ng = disj(conj(ap, bn), conj(an, bp))
    return mkF(v, nan, conj(anyinf, pos), conj(anyinf, ng))


def f_div(a, b):
    v = div(a.v, b.v)
    bz = CTX.clean(eq0(b.v)) if b.finite else conj(neg(b.special), eq0(b.v))
    if a.finite and b.finite:
        if bz is FALSE: return F(v)
        return mkF(v, conj(bz, eq0(a.v)), conj(bz, lt0(scale(-1, a.v))), conj(bz, lt0(a.v)))
    ap, an, az = _sgn(a); bp, bn, _ = _sgn(b)
    nan = disj(a.nan, b.nan, conj(a.inf, b.inf), conj(az, bz))
    over = conj(disj(bz, a.inf), neg(nan))
    # +0 divisor: sign of numerator
    pos = disj(conj(ap, disj(bp, bz)), conj(an, bn))
    ng = disj(conj(an, disj(bp, bz)), conj(ap, bn))
    v = ite(conj(b.inf, neg(a.special)), ZERO, v)
    return mkF(v, nan, conj(over, pos), conj(over, ng))


def f_ite(c, a, b):
    return F(ite(c, a.v, b.v), ite(c, a.nan, b.nan), ite(c, a.pinf, b.pinf), ite(c, a.ninf, b.ninf))


def f_lt(a, b):
    if a.finite and b.finite: return lt(a.v, b.v)
    ok = neg(disj(a.nan, b.nan))
    fin = conj(neg(a.inf), neg(b.inf), lt(a.v, b.v))
    return conj(ok, disj(conj(a.ninf, neg(b.ninf)), conj(b.pinf, neg(a.pinf)), fin))


def f_eq(a, b):
    if a.finite and b.finite: return eq(a.v, b.v)
    ok = neg(disj(a.nan, b.nan))
    fin = conj(neg(a.inf), neg(b.inf), eq(a.v, b.v))
    return conj(ok, disj(conj(a.ninf, b.ninf), conj(b.pinf, a.pinf), fin))


def f_le(a, b):
    if a.finite and b.finite: return le(a.v, b.v)
    return conj(neg(disj(a.nan, b.nan)), neg(f_lt(b, a)))


def f_max(a, b):
    r = f_ite(f_lt(a, b), b, a)
    if a.finite and b.finite: return r
    return F(r.v, disj(a.nan, b.nan), conj(r.pinf, neg(b.nan)), conj(r.ninf, neg(b.nan)))


def f_min(a, b): return f_neg(f_max(f_neg(a), f_neg(b))) if not (a.finite and b.finite) else f_ite(f_lt(b, a), b, a)


def f_sqrt(a):
    v = sqrt(a.v)
    ngv = CTX.clean(lt0(a.v))
    if a.finite: return F(v, ngv)
    return mkF(v, disj(a.nan, a.ninf, conj(neg(a.special), ngv)), a.pinf, FALSE)


def f_exp(a):
    if a.finite: return F(exp(a.v))
    return F(ite(a.ninf, ZERO, exp(a.v)), a.nan, a.pinf, FALSE)


def f_logistic(a):
    v = div(ONE, add(ONE, exp(scale(-1, a.v))))
    if a.finite: return F(v)
    return F(ite(a.pinf, ONE, ite(a.ninf, ZERO, v)), a.nan)


def f_tanh(a):
    e = exp(scale(2, a.v))
    v = div(add(e, const(-1)), add(e, ONE))
    if a.finite: return F(v)
    return F(ite(a.pinf, ONE, ite(a.ninf, const(-1), v)), a.nan)


def f_trig(name):
    def g(a):
        v = sin(a.v) if name == "sin" else cos(a.v)
        return F(v, disj(a.nan, a.inf))
    return g


def f_powi(a, n):
    if n == 0: return F(ONE)
    r = a
    for _ in range(abs(n) - 1): r = f_mul(r, a)
    if a.finite: r = F(powi(a.v, abs(n)))
    return r if n > 0 else f_div(F(ONE), r)


def f_lit(x):
    x = float(x) if not isinstance(x, np.floating) else x
    if np.isnan(x): return F(ZERO, TRUE)
    if np.isposinf(x): return F(ZERO, FALSE, TRUE)
    if np.isneginf(x): return F(ZERO, FALSE, FALSE, TRUE)
    return F(lit(x))


def is_float(dt): return jnp.issubdtype(dt, jnp.floating)
def is_bool(dt): return dt == np.bool_


def to_sym(x):
    """Concrete array -> object array."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    if x.dtype.kind == "f" or is_float(x.dtype):
        f = f_lit
    elif x.dtype.kind == "b":
        f = lambda v: TRUE if v else FALSE
    else:
        f = lambda v: const(int(v))
    for i in np.ndindex(x.shape):
        out[i] = f(x[i])
    return out


def concrete_int(t):
    if isinstance(t, T) and t.op == "c" and t.sort == "R":
        return int(t.args[0])
    return None


def emap(f, *arrs):
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


def sel(c, a, b):
    """c ? a : b on scalars of any kind"""
    if isinstance(a, F): return f_ite(c, a, b)
    return ite(c, a, b)


RULES = {}


def rule(*names):
    def d(f):
        for n in names: RULES[n] = f
        return f
    return d


def _num2(ff, fi):
    def r(eqn, a, b):
        return emap(ff if is_float(eqn.invars[0].aval.dtype) else fi, a, b)
    return r


RULES["add"] = RULES["add_any"] = _num2(f_add, add)
RULES["sub"] = _num2(f_sub, lambda a, b: add(a, scale(-1, b)))
RULES["mul"] = _num2(f_mul, mul)
RULES["max"] = lambda eqn, a, b: emap(f_max if is_float(eqn.invars[0].aval.dtype) else (disj if is_bool(eqn.invars[0].aval.dtype) else maxt), a, b)
RULES["min"] = lambda eqn, a, b: emap(f_min if is_float(eqn.invars[0].aval.dtype) else (conj if is_bool(eqn.invars[0].aval.dtype) else mint), a, b)


@rule("div")
def _div(eqn, a, b):
    if is_float(eqn.invars[0].aval.dtype): return emap(f_div, a, b)
    def q(x, y):
        i, j = concrete_int(x), concrete_int(y)
        if i is None or j is None or j == 0: raise Unsupported("symbolic integer division")
        return const(int(i / j) if False else (abs(i) // abs(j)) * (1 if (i >= 0) == (j >= 0) else -1))
    return emap(q, a, b)


@rule("rem")
def _rem(eqn, a, b):
    def q(x, y):
        if isinstance(x, F): raise Unsupported("float rem")
        i, j = concrete_int(x), concrete_int(y)
        if i is None or j is None or j == 0: raise Unsupported("symbolic integer rem")
        r = abs(i) % abs(j)
        return const(r if i >= 0 else -r)
    return emap(q, a, b)


@rule("neg")
def _neg(eqn, a):
    return emap(f_neg if is_float(eqn.invars[0].aval.dtype) else (lambda x: scale(-1, x)), a)


@rule("abs")
def _abs(eqn, a):
    if not is_float(eqn.invars[0].aval.dtype): return emap(abst, a)
    return emap(lambda x: F(abst(x.v), x.nan, x.inf), a)


@rule("sign")
def _sign(eqn, a):
    f = lambda v: ite(lt0(v), const(-1), ite(eq0(v), ZERO, ONE))
    if not is_float(eqn.invars[0].aval.dtype): return emap(f, a)
    return emap(lambda x: F(ite(x.pinf, ONE, ite(x.ninf, const(-1), f(x.v))), x.nan), a)


@rule("floor")
def _floor(eqn, a):
    def g(x):
        if x.v.op == "c":
            return F(const(math.floor(x.v.args[0])), x.nan, x.pinf, x.ninf)
        return F(app("floor", x.v), x.nan, x.pinf, x.ninf)
    return emap(g, a)


RULES["sqrt"] = lambda eqn, a: emap(f_sqrt, a)
RULES["rsqrt"] = lambda eqn, a: emap(lambda x: f_div(F(ONE), f_sqrt(x)), a)
RULES["exp"] = lambda eqn, a: emap(f_exp, a)
RULES["expm1"] = lambda eqn, a: emap(lambda x: f_add(f_exp(x), F(const(-1))), a)
RULES["exp2"] = lambda eqn, a: (_ for _ in ()).throw(Unsupported("exp2"))
RULES["logistic"] = lambda eqn, a: emap(f_logistic, a)
RULES["tanh"] = lambda eqn, a: emap(f_tanh, a)
RULES["sin"] = lambda eqn, a: emap(f_trig("sin"), a)
RULES["cos"] = lambda eqn, a: emap(f_trig("cos"), a)
RULES["square"] = lambda eqn, a: emap((lambda x: f_powi(x, 2)) if is_float(eqn.invars[0].aval.dtype) else (lambda x: powi(x, 2)), a)
RULES["integer_pow"] = lambda eqn, a: emap((lambda x: f_powi(x, eqn.params["y"])) if is_float(eqn.invars[0].aval.dtype) else (lambda x: powi(x, eqn.params["y"])), a)


@rule("pow")
def _pow(eqn, a, b):
    def p(x, y):
        e = y.v if isinstance(y, F) else y
        if e.op == "c" and e.args[0].denominator == 1 and (not isinstance(y, F) or y.finite):
            n = int(e.args[0])
            return f_powi(x, n)
        if e.op == "c" and e.args[0].denominator == 2 and abs(e.args[0]) <= 16 and (not isinstance(y, F) or y.finite):
            k = int(2 * e.args[0]); s = f_powi(f_sqrt(x), abs(k))
            return s if k > 0 else f_div(F(ONE), s)
        if x.finite and is_pos(x.v):
            return F(app("pow", x.v, e))
        raise Unsupported("symbolic exponent")
    return emap(p, a, b)


@rule("is_finite")
def _isfin(eqn, a): return emap(lambda x: neg(x.special), a)


def _cmp(ff, fi):
    def r(eqn, a, b):
        dt = eqn.invars[0].aval.dtype
        if is_bool(dt):
            return emap(lambda x, y: fi(ite(x, ONE, ZERO), ite(y, ONE, ZERO)), a, b)
        return emap(ff if is_float(dt) else fi, a, b)
    return r


RULES["lt"] = _cmp(f_lt, lt)
RULES["le"] = _cmp(f_le, le)
RULES["gt"] = _cmp(lambda a, b: f_lt(b, a), lambda a, b: lt(b, a))
RULES["ge"] = _cmp(lambda a, b: f_le(b, a), lambda a, b: le(b, a))
RULES["eq"] = _cmp(f_eq, eq)
RULES["ne"] = _cmp(lambda a, b: neg(f_eq(a, b)), lambda a, b: neg(eq(a, b)))


def _bits(name, f):
    def r(eqn, *xs):
        if not is_bool(eqn.invars[0].aval.dtype): raise Unsupported("integer " + name)
        return emap(f, *xs)
    RULES[name] = r


_bits("and", conj); _bits("or", disj); _bits("not", neg); _bits("xor", lambda a, b: neg(iff(a, b)))


@rule("round")
def _round(eqn, a):
    how = "even" if "EVEN" in str(eqn.params["rounding_method"]) else "away"
    return emap(lambda x: F(app(f"round:{how}", x.v), x.nan, x.pinf, x.ninf), a)


@rule("convert_element_type")
def _cvt(eqn, a):
    src = eqn.invars[0].aval.dtype; dst = eqn.params["new_dtype"]
    if src == dst: return a
    if is_bool(src):
        if is_float(dst): return emap(lambda x: F(ite(x, ONE, ZERO)), a)
        return emap(lambda x: ite(x, ONE, ZERO), a)
    if is_float(src):
        if is_float(dst):
            if np.dtype(dst).itemsize < 4 and np.dtype(src).itemsize > np.dtype(dst).itemsize:   # a narrowing conversion loses digits: some rounding of the value
                return emap(lambda x: x if x.v.op == "c" and x.v.args[0] * 1024 == int(x.v.args[0] * 1024) and abs(x.v.args[0]) < 1 else F(app(f"narrow:{np.dtype(dst).name}", x.v), x.nan, x.pinf, x.ninf), a)
            return a
        if is_bool(dst): return emap(lambda x: disj(x.special, neg(eq0(x.v))), a)
        def tr(x):
            if x.v.op == "c" and x.finite: return const(math.trunc(x.v.args[0]))
            return ite(lt0(x.v), scale(-1, app("floor", scale(-1, x.v))), app("floor", x.v))
        return emap(tr, a)
    if is_float(dst): return emap(lambda x: F(x), a)
    if is_bool(dst): return emap(lambda x: neg(eq0(x)), a)
    return a


RULES["copy"] = RULES["copy_p"] = RULES["stop_gradient"] = RULES["optimization_barrier"] = lambda eqn, a: a
RULES["real"] = lambda eqn, a: a
RULES["reduce_precision"] = lambda eqn, a: a


@rule("select_n")
def _select(eqn, c, *cases):
    if c.shape == () and cases[0].shape != ():
        c = np.broadcast_to(c, cases[0].shape)
    if is_bool(eqn.invars[0].aval.dtype):
        return emap(lambda k, f, t: sel(k, t, f), c, cases[0], cases[1])
    def s(k, *vs):
        r = vs[-1]
        for i in range(len(vs) - 2, -1, -1): r = sel(le(k, const(i)), vs[i], r)
        return r
    return emap(s, c, *cases)


@rule("clamp")
def _clamp(eqn, lo, x, hi):
    if is_float(eqn.invars[0].aval.dtype):
        return emap(lambda l, v, h: f_min(f_max(v, l), h), lo, x, hi)
    return emap(lambda l, v, h: mint(maxt(v, l), h), lo, x, hi)


@rule("iota")
def _iota(eqn):
    p = eqn.params
    a = np.arange(p["shape"][p["dimension"]]).reshape([-1 if i == p["dimension"] else 1 for i in range(len(p["shape"]))])
    a = np.broadcast_to(a, p["shape"])
    return to_sym(a.astype(p["dtype"]) if not is_float(p["dtype"]) else a.astype(np.float64))


def _reduce(ff, fi, fb, unit_f, unit_i, unit_b):
    def r(eqn, a):
        dt = eqn.invars[0].aval.dtype
        axes = tuple(eqn.params["axes"])
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in axes], dtype=int))])
        f, u = (ff, unit_f) if is_float(dt) else ((fb, unit_b) if is_bool(dt) else (fi, unit_i))
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            xs = list(b[i])
            if not xs:
                if u is None: raise Unsupported("empty reduction")
                out[i] = u
            else:
                acc = xs[0]
                for x in xs[1:]: acc = f(acc, x)
                out[i] = acc
        return out
    return r


RULES["reduce_sum"] = _reduce(f_add, add, None, F(ZERO), ZERO, None)
RULES["reduce_prod"] = _reduce(f_mul, mul, None, F(ONE), ONE, None)
RULES["reduce_max"] = _reduce(f_max, maxt, disj, F(ZERO, FALSE, FALSE, TRUE), None, FALSE)
RULES["reduce_min"] = _reduce(f_min, mint, conj, F(ZERO, FALSE, TRUE), None, TRUE)
RULES["reduce_and"] = _reduce(None, None, conj, None, None, TRUE)
RULES["reduce_or"] = _reduce(None, None, disj, None, None, FALSE)


@rule("cumsum", "cumprod", "cummax", "cummin")
def _cum(eqn, a):
    n = eqn.primitive.name
    fl = is_float(eqn.invars[0].aval.dtype)
    f = {"cumsum": f_add if fl else add, "cumprod": f_mul if fl else mul, "cummax": f_max if fl else maxt, "cummin": f_min if fl else mint}[n]
    ax = eqn.params["axis"]
    b = np.moveaxis(a, ax, 0).copy()
    idx = range(1, b.shape[0])
    if eqn.params["reverse"]:
        b = b[::-1]
    for i in idx: b[i] = emap(f, b[i - 1], b[i])
    if eqn.params["reverse"]: b = b[::-1]
    return np.moveaxis(b, 0, ax)


@rule("argmin", "argmax")
def _arg(eqn, a):
    (ax,) = eqn.params["axes"]
    b = np.moveaxis(a, ax, -1)
    fl = is_float(eqn.invars[0].aval.dtype)
    mn = eqn.primitive.name == "argmin"
    def better(x, y):                # x strictly better than current best y (first wins; NaN wins)
        if fl:
            s = f_lt(x, y) if mn else f_lt(y, x)
            return disj(s, conj(x.nan, neg(y.nan))) if not (x.finite and y.finite) else s
        return lt(x, y) if mn else lt(y, x)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        best, bi = b[i][0], const(0)
        for k in range(1, b.shape[-1]):
            c = better(b[i][k], best)
            best = sel(c, b[i][k], best); bi = ite(c, const(k), bi)
        out[i] = bi
    return out


@rule("dot_general")
def _dot(eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fl = is_float(eqn.invars[0].aval.dtype)
    A = np.transpose(a, list(ba) + [i for i in range(a.ndim) if i not in ca and i not in ba] + list(ca))
    B = np.transpose(b, list(bb) + [i for i in range(b.ndim) if i not in cb and i not in bb] + list(cb))
    nb = len(ba)
    bs = A.shape[:nb]
    fa = A.shape[nb:A.ndim - len(ca)]; fb = B.shape[nb:B.ndim - len(cb)]
    K = int(np.prod([a.shape[i] for i in ca], dtype=int))
    A = A.reshape(bs + fa + (K,)); B = B.reshape(bs + fb + (K,))
    out = np.empty(bs + fa + fb, dtype=object)
    for i in np.ndindex(bs):
        for j in np.ndindex(fa):
            for k in np.ndindex(fb):
                acc = F(ZERO) if fl else ZERO
                for q in range(K):
                    x, y = A[i + j + (q,)], B[i + k + (q,)]
                    acc = f_add(acc, f_mul(x, y)) if fl else add(acc, mul(x, y))
                out[i + j + k] = acc
    return out


@rule("sort")
def _sort(eqn, *xs):
    raise Unsupported("sort")


# ---------------------------------------------------------------- structural
def _structural(eqn, *xs, idx_from=None):
    """Evaluate the primitive on element ids."""
    pool = []
    args = []
    for x in xs[: idx_from if idx_from is not None else len(xs)]:
        ids = np.arange(len(pool), len(pool) + x.size, dtype=np.int32).reshape(x.shape)
        pool.extend(x.reshape(-1).tolist() if x.size else [])
        args.append(ids)
    if idx_from is not None:
        for x in xs[idx_from:]:
            args.append(np.array([concrete_int(t) for t in x.reshape(-1)], dtype=np.int32).reshape(x.shape))
    params = dict(eqn.params)
    if eqn.primitive.name == "gather":
        params["fill_value"] = -1
    with jax.ensure_compile_time_eval():
        r = eqn.primitive.bind(*[jnp.asarray(a) for a in args], **params)
    r = np.asarray(r[0] if isinstance(r, (list, tuple)) else r)
    out = np.empty(r.shape, dtype=object)
    fill = F(ZERO, TRUE) if is_float(eqn.outvars[0].aval.dtype) else (FALSE if is_bool(eqn.outvars[0].aval.dtype) else const(-(2 ** 31)))
    for i in np.ndindex(r.shape):
        k = int(r[i])
        out[i] = fill if (k < 0 or k >= len(pool)) else pool[k]
    return out


for _n in ("reshape", "broadcast_in_dim", "transpose", "slice", "squeeze", "rev", "expand_dims", "concatenate", "split_"):
    RULES[_n] = _structural


@rule("pad")
def _pad(eqn, x, pv):
    return _structural(eqn, x, pv)


@rule("split")
def _split(eqn, x):
    ax = eqn.params["axis"]; out = []; o = 0
    for s in eqn.params["sizes"]:
        sl = [slice(None)] * x.ndim; sl[ax] = slice(o, o + s); o += s
        out.append(x[tuple(sl)])
    return out


def _sym_index(eqn, fn, idx, ranges):
    """fn(list of concrete index ints) -> array; idx: flat list of int terms;
    ranges: per index list of candidate ints (already clamped/complete)."""
    for k, t in enumerate(idx):
        if concrete_int(t) is None:
            lo, hi = ranges[k]
            res = None
            for v in range(hi, lo - 1, -1):
                idx2 = list(idx); idx2[k] = const(v)
                r = _sym_index(eqn, fn, idx2, ranges)
                if res is None: res = r
                else:
                    c = le(t, const(v))
                    res = emap(lambda a, b: sel(c, a, b), r, res)
            return res
    return fn([concrete_int(t) for t in idx])


@rule("dynamic_slice")
def _dslice(eqn, x, *idx):
    sizes = eqn.params["slice_sizes"]
    ranges = [(0, d - s) for d, s in zip(x.shape, sizes)]
    def fn(ii):
        sl = tuple(slice(min(max(i, 0), hi), min(max(i, 0), hi) + s) for i, s, (_, hi) in zip(ii, sizes, ranges))
        return x[sl]
    return _sym_index(eqn, fn, [i.reshape(-1)[0] for i in idx], ranges)


@rule("dynamic_update_slice")
def _duslice(eqn, x, u, *idx):
    ranges = [(0, d - s) for d, s in zip(x.shape, u.shape)]
    def fn(ii):
        r = x.copy()
        sl = tuple(slice(min(max(i, 0), hi), min(max(i, 0), hi) + s) for i, s, (_, hi) in zip(ii, u.shape, ranges))
        r[sl] = u
        return r
    return _sym_index(eqn, fn, [i.reshape(-1)[0] for i in idx], ranges)


@rule("gather")
def _gather(eqn, x, idx):
    mode = str(eqn.params["mode"])
    flat = idx.reshape(-1)
    dn = eqn.params["dimension_numbers"]
    m = dn.start_index_map
    ss = eqn.params["slice_sizes"]
    ranges = []
    for k in range(len(flat)):
        d = m[k % len(m)] if len(m) else 0
        hi = x.shape[d] - ss[d]
        ranges.append((0, hi) if "CLIP" in mode or "PROMISE" in mode else (-1, hi + 1))
    def fn(ii):
        a = np.empty(len(ii), dtype=object)
        for k, i in enumerate(ii): a[k] = const(i)
        return _structural(eqn, x, a.reshape(idx.shape), idx_from=1)
    return _sym_index(eqn, fn, list(flat), ranges)


@rule("scatter")
def _scatter(eqn, x, idx, upd):
    flat = idx.reshape(-1)
    dn = eqn.params["dimension_numbers"]
    m = dn.scatter_dims_to_operand_dims
    ranges = []
    for k in range(len(flat)):
        d = m[k % len(m)] if len(m) else 0
        ranges.append((-1, x.shape[d]))
    def fn(ii):
        a = np.empty(len(ii), dtype=object)
        for k, i in enumerate(ii): a[k] = const(i)
        pool = list(x.reshape(-1)) + list(upd.reshape(-1))
        xi = np.arange(x.size, dtype=np.int32).reshape(x.shape)
        ui = np.arange(x.size, x.size + upd.size, dtype=np.int32).reshape(upd.shape)
        params = dict(eqn.params)
        fn2 = lambda o, i, u: jax.lax.scatter(o, i, u, dn, indices_are_sorted=params["indices_are_sorted"],
                                              unique_indices=params["unique_indices"], mode=params["mode"])
        with jax.ensure_compile_time_eval():
            r = np.asarray(fn2(jnp.asarray(xi), jnp.asarray(np.array(ii, np.int32).reshape(idx.shape)), jnp.asarray(ui)))
        out = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape): out[i] = pool[int(r[i])]
        return out
    return _sym_index(eqn, fn, list(flat), ranges)


@rule("scatter-add")
def _scatter_add(eqn, x, idx, upd):
    flat = idx.reshape(-1)
    dn = eqn.params["dimension_numbers"]
    m = dn.scatter_dims_to_operand_dims
    ranges = [(-1, x.shape[m[k % len(m)] if len(m) else 0]) for k in range(len(flat))]
    fl = is_float(eqn.invars[0].aval.dtype)
    def fn(ii):
        # one-hot per update element
        params = eqn.params
        out = x.copy()
        ii_ = jnp.asarray(np.array(ii, np.int32).reshape(idx.shape))
        for k, u in enumerate(upd.reshape(-1)):
            oh = np.zeros(upd.size, np.int32); oh[k] = 1
            with jax.ensure_compile_time_eval():
                r = np.asarray(jax.lax.scatter_add(jnp.zeros(x.shape, jnp.int32), ii_, jnp.asarray(oh.reshape(upd.shape)), dn,
                           indices_are_sorted=params["indices_are_sorted"], unique_indices=params["unique_indices"], mode=params["mode"]))
            for i in zip(*np.nonzero(r)):
                out[i] = f_add(out[i], u) if fl else add(out[i], u)
        return out
    return _sym_index(eqn, fn, list(flat), ranges)


# ---------------------------------------------------------------- PRNG
def keyshape(aval):
    return aval.shape


@rule("random_wrap")
def _rw(eqn, a):
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        w = list(a[i])
        b = w[0]
        if b.op == "app" and b.args[0].startswith("keyword") and all(
                x.op == "app" and x.args[0] == f"keyword{k}" and x.args[1] is b.args[1] for k, x in enumerate(w)):
            out[i] = b.args[1]
        else:
            out[i] = app("mkkey", *w, sort="K")
    return out


@rule("random_unwrap")
def _ru(eqn, a):
    n = eqn.outvars[0].aval.shape[-1]
    out = np.empty(a.shape + (n,), dtype=object)
    for i in np.ndindex(a.shape):
        k = a[i]
        for j in range(n):
            out[i + (j,)] = k.args[1 + j] if (k.op == "app" and k.args[0] == "mkkey") else app(f"keyword{j}", k)
    return out


@rule("random_split")
def _rs(eqn, a):
    shape = eqn.params["shape"]
    out = np.empty(a.shape + tuple(shape), dtype=object)
    n = int(np.prod(shape))
    for i in np.ndindex(a.shape):
        for j in np.ndindex(tuple(shape)):
            out[i + j] = app("splitkey", a[i], const(n), const(int(np.ravel_multi_index(j, shape)) if j else 0), sort="K")
    return out


@rule("random_fold_in")
def _rf(eqn, a, d):
    return emap(lambda k, x: app("foldkey", k, x, sort="K"), a, d)


@rule("random_seed")
def _rseed(eqn, a):
    return emap(lambda x: app("seedkey", x, sort="K"), a)


def uniform_rule(eqn, key, lo, hi):
    shape = eqn.outvars[0].aval.shape
    kw = key
    if jnp.issubdtype(eqn.invars[0].aval.dtype, jnp.integer):
        kw = _rw(None, key)
    bs = kw.shape                                # batched keys (vmap) are the leading axes
    if tuple(shape[:len(bs)]) != tuple(bs) or lo.size != 1 or hi.size != 1: raise Unsupported("batched uniform draw")
    inner = tuple(shape[len(bs):])
    n = int(np.prod(inner, dtype=int))
    out = np.empty(shape, dtype=object)
    l, h = lo.reshape(-1)[0], hi.reshape(-1)[0]
    for b in np.ndindex(bs):
        for i in np.ndindex(inner):
            u = app("u01", kw[b], const(n), const(int(np.ravel_multi_index(i, inner)) if i else 0))
            out[b + i] = f_add(f_mul(F(u), f_sub(h, l)), l)
    return out


# ---------------------------------------------------------------- uninterpreted calls
def uf_rule(eqn, *xs):
    p = eqn.params
    nb = p["nb"]
    shape = p["shape"]
    bs = xs[0].shape[:nb] if xs else ()
    deriv = p["deriv"]
    out = np.empty(bs + tuple(shape) + (() if deriv is None else (len(deriv),)), dtype=object)
    kind = p["kind"]
    for i in np.ndindex(bs):
        args = []
        for x in xs:
            for s in x[i].reshape(-1) if isinstance(x[i], np.ndarray) else [x[i]]:
                if isinstance(s, F):
                    args.append(s.v)
                    if not s.finite:
                        args.extend([s.nan, s.pinf, s.ninf])
                else:
                    args.append(s)
        for j in np.ndindex(tuple(shape)):
            nm = f"{p['name']}{list(j) if j else ''}"
            if kind == "bool":
                out[i + j] = app(nm, *args, sort="B")
            elif kind == "int":
                out[i + j] = app(nm, *args)
            else:
                if deriv is None: out[i + j] = F(app(nm, *args))
                else:
                    for k, d in enumerate(deriv): out[i + j + (k,)] = F(app(f"{nm}@d{d}", *args))
    return out


# ---------------------------------------------------------------- control
def read(env, v):
    if isinstance(v, jcore.Literal):
        return to_sym(np.asarray(v.val, dtype=v.aval.dtype))
    return env[v]


class Stop(Exception):
    pass


HOOK_SCAN = [None]


def eval_jaxpr(jaxpr, consts, args):
    env = {}
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if isinstance(c, np.ndarray) and c.dtype == object else to_key_or_sym(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        xs = [read(env, v) for v in eqn.invars]
        outs = eval_eqn(eqn, xs)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(env, v) for v in jaxpr.outvars]


def to_key_or_sym(c):
    if hasattr(c, "dtype") and jnp.issubdtype(c.dtype, jax.dtypes.prng_key):
        d = to_sym(np.asarray(jax.random.key_data(c)))
        return _rw(None, d)
    return to_sym(np.asarray(c))


def eval_closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, args)


def all_concrete(xs):
    for x in xs:
        for s in x.reshape(-1):
            if isinstance(s, F):
                if s.v.op != "c" or not all(f.op == "c" for f in (s.nan, s.pinf, s.ninf)): return False
            elif s.op != "c": return False
    return True


def to_concrete(x, dt):
    out = np.zeros(x.shape, dtype=dt)
    for i in np.ndindex(x.shape):
        s = x[i]
        if isinstance(s, F):
            out[i] = np.nan if s.nan is TRUE else np.inf if s.pinf is TRUE else -np.inf if s.ninf is TRUE else float(s.v.args[0])
        elif s.sort == "B": out[i] = s is TRUE
        else: out[i] = int(s.args[0])
    return out


def eval_eqn(eqn, xs):
    n = eqn.primitive.name
    p = eqn.params
    if n == "pjit":
        nm = p.get("name", "")
        if nm == "_uniform" and len(xs) == 3:
            return [uniform_rule(eqn, *xs)]
        return eval_closed(p["jaxpr"], xs)
    if n in ("closed_call", "core_call", "remat", "checkpoint", "remat2", "custom_lin"):
        j = p.get("call_jaxpr", p.get("jaxpr"))
        return eval_closed(j, xs) if hasattr(j, "consts") else eval_jaxpr(j, [], xs)
    if n == "custom_jvp_call":
        return eval_closed(p["call_jaxpr"], xs)
    if n in ("custom_vjp_call", "custom_vjp_call_jaxpr"):
        return eval_closed(p.get("call_jaxpr", p.get("fun_jaxpr")), xs)
    if n == "cond":
        br = p["branches"]; k = xs[0].reshape(-1)[0]; ops = xs[1:]
        if k.sort == "B": k = ite(k, ONE, ZERO)
        ci = concrete_int(k)
        if ci is not None:
            return eval_closed(br[min(max(ci, 0), len(br) - 1)], ops)
        rs = [eval_closed(b, ops) for b in br]
        out = rs[-1]
        for i in range(len(br) - 2, -1, -1):
            c = le(k, const(i))
            out = [emap(lambda a, b: sel(c, a, b), x, y) for x, y in zip(rs[i], out)]
        return out
    if n == "scan":
        return eval_scan(eqn, xs)
    if n == "while":
        return eval_while(eqn, xs)
    if n == "vc_uf":
        return [uf_rule(eqn, *xs)]
    if n == "eq" and xs[0].dtype == object and False:
        pass
    r = RULES.get(n)
    if r is None:
        if all_concrete(xs):
            with jax.ensure_compile_time_eval():
                rr = eqn.primitive.bind(*[jnp.asarray(to_concrete(x, v.aval.dtype)) for x, v in zip(xs, eqn.invars)], **p)
            rr = rr if eqn.primitive.multiple_results else [rr]
            return [to_key_or_sym(x) for x in rr]
        raise Unsupported("primitive " + n)
    o = r(eqn, *xs)
    return o if isinstance(o, list) else [o]


def eval_scan(eqn, xs):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    consts, carry, seq = xs[:nc], list(xs[nc:nc + nk]), xs[nc + nk:]
    L = p["length"]
    if L > 400: raise Unsupported("long scan")
    hook = HOOK_SCAN[0]
    if hook is not None:
        r = hook(eqn, consts, carry, seq)
        if r is not None: return r
    ys = [None] * L
    order = range(L - 1, -1, -1) if p["reverse"] else range(L)
    for i in order:
        def at(s):
            v = s[i]
            if not isinstance(v, np.ndarray):
                a = np.empty((), dtype=object); a[()] = v; v = a
            return v
        out = eval_closed(p["jaxpr"], [*consts, *carry, *[at(s) for s in seq]])
        carry = out[:nk]; ys[i] = out[nk:]
    nys = len(p["jaxpr"].jaxpr.outvars) - nk
    res = list(carry)
    for j in range(nys):
        shape = eqn.outvars[nk + j].aval.shape
        a = np.empty(shape, dtype=object)
        for i in range(L): a[i] = ys[i][j][()] if ys[i][j].shape == () else ys[i][j]
        res.append(a)
    return res


def eval_while(eqn, xs):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = xs[:cn], xs[cn:cn + bn], list(xs[cn + bn:])
    for _ in range(500):
        (c,) = eval_closed(p["cond_jaxpr"], [*cc, *st])
        c = c.reshape(-1)[0]
        if c is FALSE: return st
        if c is not TRUE: raise Unsupported("while with symbolic condition")
        st = eval_closed(p["body_jaxpr"], [*bc, *st])
    raise Unsupported("while too long")
