"""Hash-consed terms (reals, booleans) with light, sound canonicalisation.

Real terms denote mathematical reals.  ``inv`` (negative exponents) is total with
0^-1 = 0; ``sqrt`` is total with sqrt(x) = sqrt(|x|).  The interpreter records the
IEEE meaning of x/0 or sqrt(-1) separately (flags), so these totalisations are
never observed except through a masked value.
"""
from fractions import Fraction as Fr
import math
import sys

sys.setrecursionlimit(20000)

_TAB = {}
_CNT = [0]


class T:
    __slots__ = ("op", "args", "id", "sort", "attr", "__weakref__")

    # --- operators -------------------------------------------------------
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return add(a, scale(-1, lift(b)))
    def __rsub__(a, b): return add(lift(b), scale(-1, a))
    def __neg__(a): return scale(-1, a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __pow__(a, n): return powi(a, n)
    def __lt__(a, b): return lt(a, lift(b))
    def __le__(a, b): return le(a, lift(b))
    def __gt__(a, b): return lt(lift(b), a)
    def __ge__(a, b): return le(lift(b), a)
    def __and__(a, b): return conj(a, lift(b))
    def __rand__(a, b): return conj(lift(b), a)
    def __or__(a, b): return disj(a, lift(b))
    def __ror__(a, b): return disj(lift(b), a)
    def __invert__(a): return neg(a)
    def __hash__(a): return a.id
    def __eq__(a, b): return a is b
    def __ne__(a, b): return a is not b
    def __bool__(a):
        if a is TRUE: return True
        if a is FALSE: return False
        raise TypeError("symbolic truth value used as a Python bool: " + show(a))
    def __repr__(a): return show(a)


def mk(op, args, sort, attr=None):
    k = (op, args, sort)
    t = _TAB.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.args = args; t.sort = sort; t.attr = attr
        _CNT[0] += 1
        t.id = _CNT[0]
        _TAB[k] = t
    return t


TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")


def const(x):
    return mk("c", (Fr(x),), "R")


ZERO = const(0)
ONE = const(1)


def lit(x):
    """The real denoted by a floating literal: its shortest decimal."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fr):
        return const(x)
    return const(Fr(str(x if isinstance(x, float) else np.format_float_scientific(x, unique=True))))


def lift(x):
    if isinstance(x, T):
        return x
    return lit(x)


def var(name, sort="R", pos=None, integer=False):
    """pos: None | 'pos' | 'nonneg' -- also emitted as a hypothesis by the solver."""
    return mk("v", (name, pos, integer), sort)


def app(f, *args, sort="R"):
    return mk("app", (f,) + tuple(args), sort)


def is_c(t): return t.op == "c"


# ------------------------------------------------------------------ reals
def terms_of(t):
    """(const, {term: coef}) view of a real."""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "add":
        return t.args[0], dict(t.args[1])
    return Fr(0), {t: Fr(1)}


def _build_add(k, d):
    items = tuple(sorted(((x, c) for x, c in d.items() if c != 0), key=lambda p: p[0].id))
    if not items:
        return const(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("add", (k, items), "R")


def add(*xs):
    k = Fr(0); d = {}
    for x in xs:
        k2, d2 = terms_of(x)
        k += k2
        for t, c in d2.items():
            d[t] = d.get(t, 0) + c
    return _build_add(k, d)


def scale(c, t):
    c = Fr(c)
    if c == 0: return ZERO
    if c == 1: return t
    k, d = terms_of(t)
    return _build_add(k * c, {x: y * c for x, y in d.items()})


def _content(t):
    """t = c * u with u primitive (leading coefficient 1) for add nodes."""
    if t.op == "c":
        return t.args[0], ONE
    if t.op == "add":
        k, items = t.args
        c = items[0][1]
        return c, scale(1 / c, t)
    return Fr(1), t


def mul(*xs):
    c = Fr(1); d = {}
    for x in xs:
        c2, u = _content(x)
        c *= c2
        if c == 0: return ZERO
        if u is ONE: continue
        if u.op == "mul":
            for t, e in u.args:
                if e < 0 and d.get(t, 0) > 0 or e > 0 and d.get(t, 0) < 0:
                    # keep x * x^-1 uncancelled (0 * 0^-1 is not 1): separate node
                    t = mk("inv", (t,), "R") if e < 0 else mk("id", (t,), "R")
                    e = abs(e)
                d[t] = d.get(t, 0) + e
        else:
            t, e = u, 1
            if d.get(t, 0) < 0:
                # x^-1 * x : keep as (x^-1) and separate atom
                t = mk("id", (t,), "R")
            d[t] = d.get(t, 0) + e
    # distribute a single positive-power sum? no: keep factored
    items = tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        return const(c)
    # sqrt(x)^2 -> x for x syntactically >= 0
    for t, e in items:
        if e >= 2 and t.op == "app" and t.args[0] == "sqrt" and is_nonneg(t.args[1]):
            rest = [powi(t2, e2) for t2, e2 in items if t2 is not t]
            return mul(const(c), powi(t.args[1], e // 2), *( [t] if e % 2 else []), *rest)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        m = mk("mul", items, "R")
    return scale(c, m)


def powi(t, n):
    n = int(n)
    if n == 0: return ONE
    if n == 1: return t
    if t.op == "c":
        v = t.args[0]
        if v == 0: return ZERO
        return const(v ** n)
    c, u = _content(t)
    if u.op == "mul" and n > 0:
        m = tuple((x, e * n) for x, e in u.args)
        return mul(const(c ** n), mk("mul", m, "R")) if len(m) else const(c ** n)
    if u.op == "mul" and n < 0:
        m = tuple((x, e * n) for x, e in u.args)
        return scale(c ** n, mk("mul", m, "R"))
    return scale(c ** n, mk("mul", ((u, n),), "R"))


def div(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            return ZERO
        return scale(1 / b.args[0], a)
    return mul(a, powi(b, -1))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B":
        return disj(conj(c, a), conj(neg(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.sort)


def maxt(a, b): return ite(lt(a, b), b, a)
def mint(a, b): return ite(lt(b, a), b, a)
def abst(a): return ite(lt(a, ZERO), -a, a)


def sqrt(x):
    if x.op == "c":
        v = x.args[0]
        n, d = abs(v.numerator), v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fr(rn, rd))
    return app("sqrt", x)


def exp(x):
    if x is ZERO: return ONE
    return app("exp", x)


_NN = {}
_PP = {}


def is_nonneg(t):
    r = _NN.get(t)
    if r is None:
        r = _NN[t] = _is_nonneg(t)
    return r


def mark_nonneg(t):
    """record that t equals (as a polynomial in its atoms) a term known to be non-negative"""
    _NN[t] = True


def is_pos(t):
    r = _PP.get(t)
    if r is None:
        r = _PP[t] = _is_pos(t)
    return r


def _is_nonneg(t):
    if t.op == "c": return t.args[0] >= 0
    if t.op == "v": return t.args[1] in ("pos", "nonneg")
    if t.op == "app": return t.args[0] in ("sqrt", "exp") or t.args[0].startswith("u01")
    if t.op == "add":
        return t.args[0] >= 0 and all(c > 0 and is_nonneg(x) for x, c in t.args[1])
    if t.op == "mul":
        return all(e % 2 == 0 or is_nonneg(x) for x, e in t.args)
    if t.op == "ite":
        return is_nonneg(t.args[1]) and is_nonneg(t.args[2])
    if t.op in ("inv", "id"):
        return is_nonneg(t.args[0])
    return False


def _is_pos(t):
    if t.op == "c": return t.args[0] > 0
    if t.op == "v": return t.args[1] == "pos"
    if t.op == "app":
        return t.args[0] == "exp" or (t.args[0] == "sqrt" and is_pos(t.args[1]))
    if t.op == "add":
        if not is_nonneg(t): return False
        return t.args[0] > 0 or any(is_pos(x) for x, _ in t.args[1])
    if t.op == "mul":
        return all(is_pos(x) for x, _ in t.args)
    if t.op == "ite":
        return is_pos(t.args[1]) and is_pos(t.args[2])
    if t.op in ("inv", "id"):
        return is_pos(t.args[0])
    return False


# ------------------------------------------------------------------ atoms
def _prim(t):
    """Scale an add node by a positive constant so the leading coefficient is +-1."""
    if t.op == "add":
        c = t.args[1][0][1]
        return scale(1 / abs(c), t)
    return t


def _single_ite(t):
    """t = k + c*ite -> (k, c, ite)"""
    k, d = terms_of(t)
    if len(d) == 1:
        (x, c), = d.items()
        if x.op == "ite": return k, c, x
    return None


def lt0(t):
    if t.op == "c": return TRUE if t.args[0] < 0 else FALSE
    if is_nonneg(t): return FALSE
    n = scale(-1, t)
    if is_pos(n): return TRUE
    s = _single_ite(t)
    if s:
        k, c, x = s
        return ite(x.args[0], lt0(add(const(k), scale(c, x.args[1]))), lt0(add(const(k), scale(c, x.args[2]))))
    t = _prim(t)
    # strip strictly positive factors of a monomial
    k, d = terms_of(t)
    if k == 0 and len(d) == 1:
        (m, c), = d.items()
        if m.op == "mul":
            keep = [(x, e) for x, e in m.args if not is_pos(x)]
            if len(keep) < len(m.args) and keep:
                return lt0(scale(c, mul(*[powi(x, e) for x, e in keep])))
            # x^odd -> x when single
            if len(keep) == 1 and keep[0][1] % 2 == 1 and keep[0][1] != 1:
                return lt0(scale(c, keep[0][0]))
            if len(keep) == 1 and keep[0][1] == -1:
                return lt0(scale(c, keep[0][0]))
            ev = [(x, e) for x, e in keep if e % 2 == 0]
            if ev and len(ev) < len(keep):
                od = [powi(x, e) for x, e in keep if e % 2]
                return conj(lt0(scale(c, mul(*od))), *[neg(eq0(x)) for x, e in ev])
            if ev and len(ev) == len(keep) and c < 0:
                return conj(*[neg(eq0(x)) for x, e in ev])
        elif m.op == "app" and m.args[0] == "sqrt" and c < 0:
            return neg(eq0(m.args[1]))
    # c<0 and t = -(nonneg): t<0 iff t != 0
    if is_nonneg(n):
        return neg(eq0(n))
    return mk("lt0", (t,), "B")


def eq0(t):
    if t.op == "c": return TRUE if t.args[0] == 0 else FALSE
    if is_pos(t) or is_pos(scale(-1, t)): return FALSE
    s = _single_ite(t)
    if s:
        k, c, x = s
        return ite(x.args[0], eq0(add(const(k), scale(c, x.args[1]))), eq0(add(const(k), scale(c, x.args[2]))))
    k, d = terms_of(t)
    if len(d) == 1 and k == 0:
        (m, c), = d.items()
        if m.op == "mul":
            return disj(*[eq0(x) for x, e in m.args])
        if m.op == "app" and m.args[0] == "sqrt":
            return eq0(m.args[1])
        if m.op in ("inv", "id"):
            return eq0(m.args[0])
        return mk("eq0", (m,), "B")
    if is_nonneg(t) or is_nonneg(scale(-1, t)):
        if k != 0: return FALSE
        return conj(*[eq0(x) for x in d])
    c = t.args[1][0][1]
    return mk("eq0", (scale(1 / c, t),), "B")


def lt(a, b): return lt0(add(a, scale(-1, b)))
def le(a, b): return neg(lt0(add(b, scale(-1, a))))


def eq(a, b):
    a = lift(a); b = lift(b)
    if a.sort == "B": return iff(a, b)
    return eq0(add(a, scale(-1, b)))


def ne(a, b): return neg(eq(a, b))


# ------------------------------------------------------------------ booleans
def neg(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), "B")


def _nary(op, xs, unit, zero):
    out = {}
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is unit: continue
        if x is zero: return zero
        if x.op == op:
            stack.extend(reversed(x.args)); continue
        out[x] = True
    for x in out:
        if neg(x) in out: return zero
    # trichotomy: lt0(t) vs lt0(-t), eq0
    if len(out) > 1:
        for x in list(out):
            y = x.args[0] if x.op == "not" else x
            if y.op == "lt0" and x.op != "not" and op == "and":
                o = mk("lt0", (scale(-1, y.args[0]),), "B")
                if o in out: return zero
                if eq0(y.args[0]) in out: return zero
                if neg(o) in out: out.pop(neg(o))
                if neg(eq0(y.args[0])) in out: out.pop(neg(eq0(y.args[0])), None)
    if len(out) > 1:
        # absorption / unit resolution one level down
        lits = set(out)
        new = {}
        changed = False
        inner = "or" if op == "and" else "and"
        for x in out:
            if x.op == inner:
                if any(y in lits for y in x.args):
                    changed = True; continue           # absorbed
                keep = [y for y in x.args if neg(y) not in lits]
                if len(keep) < len(x.args):
                    changed = True
                    x = (disj if inner == "or" else conj)(*keep)
            new[x] = True
        if changed:
            return _nary(op, list(new), unit, zero)
    if not out: return unit
    if len(out) == 1: return next(iter(out))
    return mk(op, tuple(sorted(out, key=lambda t: t.id)), "B")


def conj(*xs): return _nary("and", [lift(x) for x in xs], TRUE, FALSE)
def disj(*xs):
    # push to and-form for trichotomy simplification
    r = _nary("or", [lift(x) for x in xs], FALSE, TRUE)
    if r.op == "or":
        # lt0(t) or not lt0(t)... handled; lt0(t) or eq0(t) -> le0 = not lt0(-t)
        args = list(r.args)
        s = set(args)
        for x in args:
            if x.op == "lt0":
                e = eq0(x.args[0])
                if e in s:
                    rest = [y for y in args if y is not x and y is not e]
                    return disj(neg(mk("lt0", (scale(-1, x.args[0]),), "B")) if not is_nonneg(scale(-1, x.args[0])) else TRUE, *rest)
    return r


def implies(a, b): return disj(neg(a), b)


def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return neg(b)
    if b is FALSE: return neg(a)
    if a is neg(b): return FALSE
    return conj(disj(neg(a), b), disj(a, neg(b)))


def all_(xs): return conj(*list(xs))
def any_(xs): return disj(*list(xs))


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == "add": return [x for x, _ in t.args[1]]
    if t.op == "mul": return [x for x, _ in t.args]
    if t.op in ("c", "v"): return []
    if t.op == "app": return [x for x in t.args[1:] if isinstance(x, T)]
    return list(t.args)


def topo(roots):
    seen = set(); order = []
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if done:
                order.append(t); continue
            if t in seen: continue
            seen.add(t)
            st.append((t, True))
            for c in children(t):
                if c not in seen: st.append((c, False))
    return order


def rebuild(t, m):
    """Rebuild node t from mapped children (m: dict term->term)."""
    op = t.op
    if op in ("c", "v"): return m.get(t, t)
    if op == "add":
        return add(const(t.args[0]), *[scale(c, m[x]) for x, c in t.args[1]])
    if op == "mul": return mul(*[powi(m[x], e) for x, e in t.args])
    if op == "ite": return ite(*[m[x] for x in t.args])
    if op == "app":
        a = [m[x] if isinstance(x, T) else x for x in t.args[1:]]
        if t.args[0] == "sqrt": return sqrt(a[0])
        if t.args[0] == "exp": return exp(a[0])
        return app(t.args[0], *a, sort=t.sort)
    if op == "lt0": return lt0(m[t.args[0]])
    if op == "eq0": return eq0(m[t.args[0]])
    if op == "not": return neg(m[t.args[0]])
    if op == "and": return conj(*[m[x] for x in t.args])
    if op == "or": return disj(*[m[x] for x in t.args])
    if op == "inv": return powi(m[t.args[0]], -1)
    if op == "id": return m[t.args[0]]
    raise ValueError(op)


def subst(t, env, memo=None):
    """env: dict term->term (any subterm)."""
    m = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x in m:
            st.pop(); continue
        if x in env:
            m[x] = env[x]; st.pop(); continue
        ch = [c for c in children(x) if c not in m]
        if ch:
            st.extend(ch); continue
        m[x] = rebuild(x, m) if children(x) else x
        st.pop()
    return m[t]


def size(*roots): return len(topo(roots))


def variables(*roots): return [t for t in topo(roots) if t.op == "v"]


def show(t, depth=6):
    if depth == 0: return "..."
    s = lambda x: show(x, depth - 1)
    if t.op == "c": return str(t.args[0])
    if t.op == "v": return t.args[0]
    if t.op == "add":
        p = [str(t.args[0])] if t.args[0] != 0 else []
        return "(" + " + ".join(p + [(s(x) if c == 1 else f"{c}*{s(x)}") for x, c in t.args[1]]) + ")"
    if t.op == "mul":
        return "*".join(s(x) + ("" if e == 1 else f"^{e}") for x, e in t.args)
    if t.op == "app":
        return t.args[0] + "(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.args[1:]) + ")"
    if t.op == "lt0": return s(t.args[0]) + "<0"
    if t.op == "eq0": return s(t.args[0]) + "=0"
    if t.op == "not": return "!" + s(t.args[0])
    return "(" + t.op + " " + " ".join(s(x) for x in t.args) + ")"


# ------------------------------------------------------------------ trigonometry
def _neg_lead(t):
    if t.op == "c": return t.args[0] < 0
    return t.op == "add" and t.args[1][0][1] < 0


def sin(x):
    x = lift(x)
    if x is ZERO: return ZERO
    return scale(-1, app("sin", scale(-1, x))) if _neg_lead(x) else app("sin", x)


def cos(x):
    x = lift(x)
    if x is ZERO: return ONE
    return app("cos", scale(-1, x)) if _neg_lead(x) else app("cos", x)
