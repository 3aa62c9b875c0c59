"""Contracts over sequences and mappings of arbitrary length, for the list/dict/generator code of the package.

1. Extraction.  The current source of a whole module of /repo is rewritten node by node and executed as a shadow module:

       for T in I: B              ->  state = __loop(body, I, state)        (body: B lambda-lifted over the names it assigns)
       comprehensions             ->  __comp(element function, I, condition function)
       yield e (generator f)      ->  __out = __append(__out, e); f returns __out  (laziness is dropped, order is kept)
       x.append(e), x.extend(e), d[k] = v, del  ->  x = __append(x, e), ...
       displays and calls with * or **          ->  __seq / __dict / __call
       x[i], a is b, a in b, f"..{x}.."         ->  __getitem, __is, __in, __fstr
       len range enumerate zip tuple list dict filter map all any sum sorted reversed isinstance type iter ... -> __b_...
       jnp, jax, json, product, groupby, imported functions -> wrappers that build a free term when given a symbolic value

   On ordinary values every replacement does what Python does.  Dropped: decorators other than classmethod, staticmethod,
   property and dispatch; annotations of functions.  Anything not understood raises Unsupported.

2. Symbolic values.  `Tm`: free terms; arithmetic in linear normal form.  `Seq`: concatenations of elements and of
   comprehensions "for k < len(B): body" over atomic bases B of unknown length, with guards.  `Map`: ordered mappings.

3. Loops.  A loop over a comprehension is executed for one arbitrary k, for every outcome of the conditions that depend on
   k, from arbitrary values of the variables that an iteration changes (found by iterating to a fixed point), and then
   summarised: appended elements become a comprehension, added terms a finite sum, constants a case distinction on emptiness,
   anything else an opaque recurrence.  Conditions that do not depend on a loop variable split the whole execution.

4. Obligations.  Result = specification, in each case, decided by normal forms and case splits on the conditions that occur
   (including emptiness of every base)."""
import ast
import builtins
import collections.abc
import functools
import inspect
import itertools
import os
import sys
import types
from fractions import Fraction

import numpy as np

from .interp import Unsupported


class Mismatch(Exception):
    def __init__(self, msg, sizes=None): super().__init__(msg); self.sizes = sizes or {}


# ------------------------------------------------------------------ terms
class Tm:
    """op and args; args are encoded values (Tm, Seq, Const)"""
    __slots__ = ("op", "args", "kind", "_k")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, op, *args, kind=None):
        object.__setattr__(self, "op", op); object.__setattr__(self, "args", args); object.__setattr__(self, "kind", kind); object.__setattr__(self, "_k", None)

    def __setattr__(self, *a): raise Unsupported("assignment to an attribute of a symbolic value")

    @property
    def key(self):
        if self._k is None: object.__setattr__(self, "_k", (self.op,) + tuple(a.key for a in self.args))
        return self._k

    def __repr__(self):
        if self.op == "const": return repr(self.args[0].v)
        return f"{self.op}({', '.join(map(repr, self.args))})" if self.args else self.op

    # -- Python protocol
    def __hash__(self): return hash(self.key)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return attr(self, n)
    def __call__(self, *a, **k): return call(self, a, k)
    def __bool__(self): return truth(self)
    def __iter__(self): raise Unsupported("iteration over a symbolic value")
    def __len__(self): raise Unsupported("length of a symbolic value")
    def __getitem__(self, i): return getitem_term(self, i)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return not_(eq(self, o))
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, scale(-1, o))
    def __rsub__(self, o): return add(o, scale(-1, self))
    def __neg__(self): return scale(-1, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return app("div", self, o)
    def __rtruediv__(self, o): return app("div", o, self)
    def __pow__(self, o): return app("pow", self, o)
    def __mod__(self, o): return app("mod", self, o, kind=self.kind)
    def __floordiv__(self, o): return app("fdiv", self, o, kind=self.kind)
    def __and__(self, o): return app("and", self, o)
    def __or__(self, o): return app("or", self, o)
    def __invert__(self): return not_(self)
    def __lt__(self, o): return lt(self, o)
    def __gt__(self, o): return lt(o, self)
    def __le__(self, o): return le(self, o)
    def __ge__(self, o): return le(o, self)


class Const:
    """a concrete value inside a term"""
    __slots__ = ("v", "key")
    def __init__(self, v):
        self.v = v
        if isinstance(v, (np.ndarray, np.generic)) or hasattr(v, "dtype") and hasattr(v, "shape"):
            a = np.asarray(v)
            if a.ndim == 0 and a.dtype.kind in "iuf" : self.key = ("num", repr(float(a)))
            else: self.key = ("arr", a.shape, a.dtype.kind, tuple(a.astype(float).ravel().tolist()) if a.dtype.kind in "iuf" else tuple(a.ravel().tolist()))
        elif isinstance(v, (bool, type(None), str, bytes)): self.key = ("py", type(v).__name__, v)
        elif isinstance(v, (int, float, Fraction)): self.key = ("num", repr(float(v)))
        elif isinstance(v, slice): self.key = ("slice", repr(v))
        elif isinstance(v, Fn): self.key = ("fn", v.name)
        elif isinstance(v, type): self.key = ("type", v.__module__, v.__qualname__)
        else: self.key = ("obj", id(v)); KEEP.append(v)
    def __repr__(self): return repr(self.v)


KEEP = []


def is_num(x):
    if isinstance(x, (bool, Tm, Seq, Map)): return False
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)): return True
    return hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and getattr(x.dtype, "kind", "") in ("i", "u", "f")


def num(x):
    if isinstance(x, (int, Fraction)): return x
    v = float(x)
    return int(v) if v == int(v) else v


def sym(x):
    """does x contain a symbolic value?"""
    if isinstance(x, (Tm, Seq, Map)): return True
    if isinstance(x, (str, bytes, int, float, type(None), type)): return False
    if isinstance(x, (tuple, list, set)): return any(sym(v) for v in x)
    if isinstance(x, dict): return any(sym(v) for v in x.values()) or any(sym(v) for v in x)
    if isinstance(x, slice): return sym(x.start) or sym(x.stop) or sym(x.step)
    if isinstance(x, (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)) and hasattr(x, "_mapping"): return sym(x._mapping)
    d = getattr(type(x), "__dataclass_fields__", None)
    if d and not isinstance(x, type): return any(sym(getattr(x, n, None)) for n in d)
    return False


def enc(x):
    """encode any value as a term argument"""
    if isinstance(x, (Tm, Seq, Const)): return x
    if isinstance(x, Map): return Tm("map", x.entries)
    if is_num(x) or isinstance(x, (bool, type(None), str, bytes, type)): return Const(x)
    if isinstance(x, (tuple, list)): return Seq([E(v) for v in x])
    if isinstance(x, slice): return Tm("slice", enc(x.start), enc(x.stop), enc(x.step)) if sym(x) else Const(x)
    if isinstance(x, dict): return Tm("map", Seq([E((k, v)) for k, v in x.items()]))
    if isinstance(x, (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)) and hasattr(x, "_mapping"): return seqof(x)
    d = getattr(type(x), "__dataclass_fields__", None)
    if d:
        if getattr(type(x), "_shadow_mapping", False): return Tm("map", entries_of(x))
        return Tm("new:" + type(x).__name__, *[enc(getattr(x, n, None)) for n in d])
    return Const(x)


def app(op, *args, kind=None): return Tm(op, *[enc(a) for a in args], kind=kind)
def var(name, kind=None): return Tm(name, kind=kind)


# -- arithmetic: ("lin", Const(((atom, coef), ...)), const)
class Lin(Tm):
    __slots__ = ("terms", "c")
    def __init__(self, terms, c, kind):
        object.__setattr__(self, "terms", terms); object.__setattr__(self, "c", c)
        super().__init__("lin", *[a for a, _ in terms], kind=kind)
    @property
    def key(self):
        if self._k is None: object.__setattr__(self, "_k", ("lin", tuple((a.key, repr(q)) for a, q in self.terms), repr(self.c)))
        return self._k
    def __repr__(self): return "(" + " + ".join([f"{q}*{a!r}" if q != 1 else repr(a) for a, q in self.terms] + ([repr(self.c)] if self.c else [])) + ")"


def lin_of(x):
    """-> ([(atom, coef)], const, is_int)"""
    if is_num(x): return [], num(x), isinstance(num(x), int)
    if isinstance(x, Const) and is_num(x.v): return [], num(x.v), isinstance(num(x.v), int)
    if isinstance(x, Lin): return list(x.terms), x.c, x.kind == "int"
    if isinstance(x, Tm):
        if x.op == "ite" and False: pass
        return [(x, 1)], 0, x.kind == "int"
    if hasattr(x, "dtype"):
        return [(Tm("const", Const(x)), 1)], 0, False
    raise Unsupported(f"arithmetic on {type(x).__name__}")


def mk_lin(terms, c, isint):
    d = {}
    for a, q in terms:
        k = a.key
        d[k] = (a, d[k][1] + q) if k in d else (a, q)
    ts = sorted(((a, q) for a, q in d.values() if q != 0), key=lambda t: repr(t[0].key))
    # sums of comprehensions: flatten
    if not ts: return c
    if len(ts) == 1 and ts[0][1] == 1 and c == 0: return ts[0][0]
    return Lin(tuple(ts), c, "int" if isint else None)


def add(a, b):
    if isinstance(a, (Seq, list, tuple)) or isinstance(b, (Seq, list, tuple)):
        if isinstance(a, Tm) or isinstance(b, Tm): raise Unsupported("sequence plus term")
        return Seq(list(seqof(a).parts) + list(seqof(b).parts))
    ta, ca, ia = lin_of(a); tb, cb, ib = lin_of(b)
    return mk_lin(ta + tb, ca + cb, ia and ib)


def scale(q, a):
    t, c, i = lin_of(a)
    return mk_lin([(x, q * y) for x, y in t], q * c, i)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (list, tuple, Seq)):
            if isinstance(y, Tm): return repeat(x, y)
            raise Unsupported("sequence repeated")
        if isinstance(x, str): raise Unsupported("string repeated")
    ta, ca, ia = lin_of(a); tb, cb, ib = lin_of(b)
    if not ta: return scale(ca, b)
    if not tb: return scale(cb, a)
    if len(ta) == 1 and len(tb) == 1 and ca == 0 and cb == 0:
        fs = factors(ta[0][0]) + factors(tb[0][0])
        fs.sort(key=lambda t: repr(t.key))
        return mk_lin([(Tm("mul", *fs, kind="int" if ia and ib else None), ta[0][1] * tb[0][1])], 0, ia and ib)
    fs = sorted([a, b], key=lambda t: repr(t.key))
    return Tm("mul", *fs, kind="int" if ia and ib else None)


def factors(t): return list(t.args) if t.op == "mul" else [t]


def nonneg(a):
    return a.kind == "int" and a.op in ("len", "binder")


def le(a, b):
    """a <= b"""
    ta, ca, ia = lin_of(a); tb, cb, ib = lin_of(b)
    d = mk_lin(ta + [(x, -q) for x, q in tb], ca - cb, ia and ib)
    t, c, i = lin_of(d)
    if not t: return c <= 0
    if not i: return app("le", a, b)
    if c <= 0 and all(q < 0 and nonneg(x) for x, q in t): return True
    if c > 0 and all(q > 0 and nonneg(x) for x, q in t): return False
    if t[0][1] < 0: return not_(Tm("le0", enc(mk_lin([(x, -q) for x, q in t], 1 - c, True))))
    return Tm("le0", enc(d))


def lt(a, b):
    if lin_of(a)[2] and lin_of(b)[2]: return le(add(a, 1), b)
    return not_(app("le", b, a)) if sym(a) or sym(b) else a < b


def not_(x):
    if isinstance(x, bool): return not x
    if x.op == "not": return x.args[0]
    return Tm("not", x)


def same(a, b):
    try: return enc(a).key == enc(b).key
    except Unsupported: return False


def eq(a, b):
    if not sym(a) and not sym(b): return a == b
    ea, eb = enc(a), enc(b)
    if ea.key == eb.key: return True
    if isinstance(ea, Const) and isinstance(eb, Const): return ea.v == eb.v
    try:
        ta, ca, ia = lin_of(a); tb, cb, ib = lin_of(b)
        if ia and ib:
            d = mk_lin(ta + [(x, -q) for x, q in tb], ca - cb, True)
            t, c, _ = lin_of(d)
            if not t: return c == 0
            if c > 0 and all(q > 0 and nonneg(x) for x, q in t): return False
            if c < 0 and all(q < 0 and nonneg(x) for x, q in t): return False
            if len(t) == 1 and c % t[0][1] != 0: return False
            if t[0][1] < 0: d = scale(-1, d)
            return Tm("eq0", enc(d))
    except Unsupported: pass
    if repr(ea.key) > repr(eb.key): ea, eb = eb, ea
    return Tm("eq", ea, eb)


def ite(c, a, b):
    """c: a guard (frozenset of literals) or a term/bool"""
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if a is True and b is False: return c
    if a is False and b is True: return not_(c)
    return Tm("ite", enc(c), enc(a), enc(b))


def conj(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return False
    if not cs: return True
    if len(cs) == 1: return cs[0]
    return Tm("and", *sorted(cs, key=lambda t: repr(t.key)))


def lits(guard): return conj([a if v else not_(a) for a, v in sorted(guard, key=lambda l: repr(l[0].key))])


def occurs(x, b):
    """does the term b (a binder or placeholder) occur in x?"""
    k = b.key
    def go(t):
        if isinstance(t, Const): return occ_py(t.v)
        if isinstance(t, Tm):
            if t.key == k: return True
            return any(go(a) for a in t.args)
        if isinstance(t, Seq): return any(go_part(p) for p in t.parts)
        return False
    def go_part(p):
        if any(go(a) for a, _ in p.guard): return True
        if isinstance(p, E): return go(enc(p.v))
        if isinstance(p, Hole): return p.key == k
        return go(p.base.term) or go(enc(p.body))
    def occ_py(v):
        c = getattr(v, "__closure__", None)
        if c: return any(sym(z.cell_contents) and go(enc(z.cell_contents)) for z in c if _filled(z)) or any(sym(z) and go(enc(z)) for z in (v.__defaults__ or ()))
        return any(sym(z) and go(enc(z)) for z in (getattr(v, "__defaults__", None) or ()))
    return go(enc(x))


def _filled(c):
    try: c.cell_contents; return True
    except ValueError: return False


# ------------------------------------------------------------------ sequences
class Part: pass


class E(Part):
    def __init__(self, v, guard=frozenset()): self.v = v; self.guard = guard
    @property
    def key(self): return ("E", enc(self.v).key, gkey(self.guard))
    def guarded(self, g): return E(self.v, self.guard | g)
    def __repr__(self): return f"{self.v!r}" + (f" if {lits(self.guard)!r}" if self.guard else "")


class Hole(Part):
    guard = frozenset()
    n = itertools.count()
    def __init__(self): self.key = ("hole", next(Hole.n))
    def guarded(self, g): return self
    def __repr__(self): return "HOLE"


class For(Part):
    def __init__(self, k, base, body, guard=frozenset(), fn=None):
        self.k = k; self.base = base; self.body = body if isinstance(body, Seq) else Seq(body); self.guard = guard; self.fn = fn
    @property
    def key(self):
        # canonical binder by nesting depth
        b = Tm(f"#{depth_of(self.body)}", kind="int")
        return ("F", self.base.term.key, subst(self.body, {self.k.key: b}).key, gkey(self.guard))
    def guarded(self, g): return For(self.k, self.base, self.body, self.guard | g, self.fn)
    def __repr__(self): return f"for {self.k!r} in {self.base!r}: {self.body!r}" + (f" if {lits(self.guard)!r}" if self.guard else "")


def depth_of(s):
    return 1 + max([depth_of(p.body) if isinstance(p, For) else depth_val(p.v) if isinstance(p, E) else 0 for p in s.parts], default=0)


def depth_val(v):
    x = enc(v)
    def go(t):
        if isinstance(t, Seq): return depth_of(t) if any(isinstance(p, For) for p in t.parts) else max([go(enc(p.v)) for p in t.parts if isinstance(p, E)], default=0)
        if isinstance(t, Tm): return max([go(a) for a in t.args], default=0)
        return 0
    return go(x)


def gkey(g): return tuple(sorted(((a.key, v) for a, v in g), key=repr))


class Base:
    """an atomic sequence of unknown length; elem(k) is its k-th element"""
    def __init__(self, term, elem, length=None):
        self.term = term; self.elem = elem
        self.len = length if length is not None else Tm("len", term, kind="int")
    def __repr__(self): return repr(self.term)


class Seq:
    def __init__(self, parts): self.parts = tuple(parts)
    @property
    def key(self): return ("seq",) + tuple(p.key for p in self.parts)
    def __repr__(self): return "[" + ", ".join(map(repr, self.parts)) + "]"
    def concrete(self): return all(isinstance(p, E) and not p.guard for p in self.parts)
    def values(self):
        if not self.concrete(): raise Unsupported("iteration over a symbolic sequence")
        return [p.v for p in self.parts]
    def __iter__(self): return iter(self.values())
    def __len__(self): return len(self.values())
    def __bool__(self): return truth(not_(eq(seqlen(self), 0)) if not isinstance(seqlen(self), int) else seqlen(self) > 0)
    def __getitem__(self, i): return seq_item(self, i)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __mul__(self, o): raise Unsupported("sequence repeated")
    def __hash__(self): return hash(self.key)
    def __eq__(self, o):
        if isinstance(o, (Seq, list, tuple)) and same(self, o): return True
        return bool(eq(self, o))
    def index(self, x): return seq_index(self, x)
    def append(self, x): raise Unsupported("append to a symbolic sequence outside a statement")
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a symbolic sequence")


_fresh = itertools.count()


def fresh(hint="k"): return Tm("binder", Const(f"{hint}{next(_fresh)}"), kind="int")


def base_seq(name, elem=None, term=None):
    """symbolic sequence called name; element k is name(k) or elem(k)"""
    t = term if term is not None else Tm(name)
    el = elem or (lambda k: getitem_term(t, k))
    b = Base(t, el)
    k = fresh()
    return Seq([For(k, b, Seq([E(el(k))]), fn=lambda i: el(i))])


def range_seq(n, lo=0):
    if isinstance(n, int) and isinstance(lo, int): return Seq([E(i) for i in range(lo, n)])
    size = add(n, scale(-1, lo))
    if is_num(size): return Seq([E(add(lo, i)) for i in range(num(size))])
    if isinstance(size, Tm) and size.op == "len": t, ln = size.args[0], size
    else:
        t = app("range", size)
        ln = size if isinstance(size, Tm) and nonneg(size) else Tm("len", t, kind="int")
    b = Base(t, lambda k: add(k, lo), length=ln)
    k = fresh()
    return Seq([For(k, b, Seq([E(add(k, lo))]), fn=lambda i: add(i, lo))])


def subst(x, m):
    """replace terms (by key) in any value"""
    if isinstance(x, Tm):
        if x.key in m: return m[x.key]
        if isinstance(x, Lin):
            r = x.c
            for a, q in x.terms: r = add(r, scale(q, subst(a, m)))
            return r
        if not x.args: return x
        args = [subst(a, m) if not isinstance(a, Const) else a for a in x.args]
        return rebuild(x.op, args, x.kind)
    if isinstance(x, Seq): return Seq([subst_part(p, m) for p in x.parts])
    if isinstance(x, Map): return Map(subst(x.entries, m))
    if isinstance(x, tuple): return tuple(subst(v, m) for v in x)
    if isinstance(x, list): return [subst(v, m) for v in x]
    if isinstance(x, dict): return {k: subst(v, m) for k, v in x.items()}
    if isinstance(x, slice): return slice(subst(x.start, m), subst(x.stop, m), subst(x.step, m))
    d = getattr(type(x), "__dataclass_fields__", None)
    if d and not isinstance(x, type) and sym(x):
        return replace_fields(x, {n: subst(getattr(x, n, None), m) for n in d})
    return x


def rebuild(op, args, kind):
    if op == "mul":
        r = args[0]
        for a in args[1:]: r = mul(r, unc(a))
        return r
    if op == "le0": return le(unc(args[0]), 0)
    if op == "eq0": return eq(unc(args[0]), 0)
    if op == "eq": return eq(unc(args[0]), unc(args[1]))
    if op == "not": return not_(unc(args[0]))
    if op == "and": return conj([unc(a) for a in args])
    if op == "ite": return ite(unc(args[0]), unc(args[1]), unc(args[2]))
    if op == "Sum": return Sum(args[0])
    if op == "ne":
        d = nonempty(args[0], decided)
        if d is not None: return d
    return Tm(op, *[enc(a) for a in args], kind=kind)


def unc(a): return a.v if isinstance(a, Const) else a


def subst_part(p, m):
    g = set()
    dead = False
    for a, v in p.guard:
        b = subst(a, m)
        if isinstance(b, bool):
            if b != v: dead = True
            continue
        if b.op == "not": b, v = b.args[0], not v
        g.add((b, v))
    g = frozenset(g)
    if dead: return For(fresh(), Base(app("range", 0), lambda k: k), Seq([]))
    if isinstance(p, E): return E(subst(p.v, m), g)
    if isinstance(p, Hole): return m.get(p.key, p)
    t = subst(p.base.term, m)
    base = p.base if t.key == p.base.term.key else Base(t, lambda k: subst(p.base.elem(k), m), subst(p.base.len, m) if p.base.len.op != "len" else None)
    k = fresh()
    return For(k, base, subst(p.body, {**m, p.k.key: k}), g, (lambda i: subst(p.fn(i), m)) if p.fn else None)


def replace_fields(x, d):
    new = object.__new__(type(x))
    for n in type(x).__dataclass_fields__:
        object.__setattr__(new, n, d.get(n, getattr(x, n, None)))
    return new


def inst(p, i):
    """body of a For part at index i"""
    return subst(p.body, {p.k.key: i if isinstance(i, Tm) else Const(i)}) if not isinstance(i, int) else subst(p.body, {p.k.key: i})


def mapform(s):
    """the sequence is [e(k) for k < len(B)]"""
    return len(s.parts) == 1 and isinstance(s.parts[0], For) and not s.parts[0].guard and len(s.parts[0].body.parts) == 1 \
        and isinstance(s.parts[0].body.parts[0], E) and not s.parts[0].body.parts[0].guard


def regular(p): return isinstance(p, E) and not p.guard or mapform(Seq([p]))


def seqlen(s):
    n = 0
    s = shape(s)
    for p in s.parts:
        if not regular(p): return Tm("len", s, kind="int")
        n = add(n, 1 if isinstance(p, E) else p.base.len)
    return num(n) if is_num(n) else n


def shape(s):
    """the sequence with all elements replaced by 1, alternatives merged"""
    out = []; gs = []
    for p in s.parts:
        if isinstance(p, E): gs.append(p.guard)
        elif isinstance(p, Hole): raise Unsupported("length of a sequence under construction")
        else:
            b = shape(p.body)
            if b.parts: out.append(For(p.k, p.base, b, p.guard))
    go = True
    while go:
        go = False
        for i, j in itertools.combinations(range(len(gs)), 2):
            d = gs[i] ^ gs[j]
            if len(d) == 2:
                (a, v), (b, w) = d
                if a.key == b.key and v != w:
                    gs[i] = gs[i] & gs[j]; del gs[j]; go = True; break
    return Seq([E(1, g) for g in gs] + out)


def at(p, i):
    """element i of a map-form part"""
    if p.fn: return p.fn(i)
    return inst(p, i).parts[0].v


def seq_item(s, i):
    if isinstance(i, Tm) and i.op == "pos": return at_pos(s, i)
    if isinstance(i, slice):
        if s.concrete() and not sym(i): return Seq(s.parts[i])
        if not sym(i) and i.start is None and i.stop is None and i.step is None: return s
        # slices that remove known elements at either end
        if not sym(i) and i.step in (None, 1):
            lo = i.start or 0; hi = i.stop
            if lo >= 0 and all(isinstance(p, E) and not p.guard for p in s.parts[:lo]) and len(s.parts) >= lo:
                if hi is None: return Seq(s.parts[lo:])
                if hi < 0 and len(s.parts) - lo >= -hi and all(isinstance(p, E) and not p.guard for p in s.parts[hi:]): return Seq(s.parts[lo:hi])
        raise Unsupported("slice of a symbolic sequence")
    if s.concrete() and isinstance(i, (int, np.integer)): return s.parts[i].v
    if len(s.parts) == 1 and mapform(s):
        p = s.parts[0]
        if is_num(i) and num(i) < 0: return at(p, add(p.base.len, num(i)))
        return at(p, num(i) if is_num(i) else i)
    if is_num(i):
        i = num(i); ps = s.parts if i >= 0 else s.parts[::-1]
        j = i if i >= 0 else -i - 1
        if all(isinstance(p, E) and not p.guard for p in ps[:j + 1]) and len(ps) > j: return ps[j].v
    return getitem_term(s, i)


def seq_index(s, x):
    if not all(regular(p) for p in s.parts) or len(s.parts) > 1 and not s.concrete():
        # by position: the element is recognised syntactically (keys are distinct)
        pos = locate(s, enc(x))
        if pos is None: raise Unsupported("index in an irregular sequence")
        return Tm("pos", Const(pos[0]), Seq([E(v) for v in pos[1]]), kind="int")
    if len(s.parts) == 1 and isinstance(s.parts[0], For):
        p = s.parts[0]
        k = p.k; e = p.body.parts[0].v
        if isinstance(e, Tm) and isinstance(x, Tm) and e.op == x.op and len(e.args) == len(x.args) and e.op.startswith("key:"): return unc(x.args[0])
        if isinstance(e, Tm) and e.op.startswith("key:"):
            if truth(app("in", p.base.term, x)): return Tm("indexof", p.base.term, enc(x), kind="int")
            raise ValueError("not in sequence")
        if isinstance(e, Tm) and e.op == "fstr" and isinstance(x, Tm) and x.op == "fstr" and len(e.args) == len(x.args) == 2 and isinstance(e.args[0], Const) and e.args[0].key == x.args[0].key and e.args[1].key == k.key:
            return x.args[1]             # names made of a prefix and the index
    if s.concrete():
        for j, v in enumerate(s.values()):
            if truth(eq(v, x)): return j
        raise ValueError("not in sequence")
    raise Unsupported("index in a symbolic sequence")


def locate(s, x):
    """-> (part numbers, loop indices) of the leaf of s that is x"""
    for j, p in enumerate(s.parts):
        if isinstance(p, E):
            if same(p.v, x) and holds(p.guard, {}): return (j,), ()
        elif isinstance(p, For):
            m = leaf(p.body, x, {p.k.key: None})
            if m is not None and holds(p.guard, {}): return (j,) + m[0], m[1]
    return None


def leaf(s, x, free):
    for j, p in enumerate(s.parts):
        if isinstance(p, E):
            m = dict(free)
            if unify(enc(p.v), x, m) and all(v is not None for v in m.values()) and holds(p.guard, m): return (j,), tuple(m.values())
        elif isinstance(p, For):
            r = leaf(p.body, x, {**free, p.k.key: None})
            if r and holds(p.guard, dict(zip(free, r[1]))): return (j,) + r[0], r[1]
    return None


def unify(a, b, m):
    if isinstance(a, Tm) and a.key in m:
        if m[a.key] is None: m[a.key] = b; return isinstance(b, Tm)
        return m[a.key].key == b.key
    if a.key == b.key: return not any(occurs(a, _K(k)) for k in m)
    if isinstance(a, Tm) and isinstance(b, Tm) and a.op == b.op and len(a.args) == len(b.args) and a.args and a.op not in ("lin", "mul", "binder"):
        return all(unify(x, y, m) for x, y in zip(a.args, b.args))
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.parts) == len(b.parts):
        return all(isinstance(p, E) and isinstance(q, E) and unify(enc(p.v), enc(q.v), m) for p, q in zip(a.parts, b.parts))
    return False


def holds(guard, m):
    return all(truth(subst(a, m)) == v for a, v in guard)


class _K:
    def __init__(self, key): self.key = key


def at_pos(s, pos):
    path, idx = pos.args[0].v, [unc(p.v) for p in pos.args[1].parts]
    m = {}
    for j in path[:-1]:
        if j >= len(s.parts) or not isinstance(s.parts[j], For): raise Unsupported("position in a sequence of another shape")
        m[s.parts[j].k.key] = idx[len(m)]
        s = s.parts[j].body
    j = path[-1]
    if j >= len(s.parts) or not isinstance(s.parts[j], E): raise Unsupported("position in a sequence of another shape")
    return subst(s.parts[j].v, m)


def repeat(x, n):
    k = fresh()
    vs = list(x)
    b = range_seq(n).parts[0].base
    return Seq([For(k, b, Seq([E(v) for v in vs]), fn=(lambda i: vs[0]) if len(vs) == 1 else None)])


# ------------------------------------------------------------------ mappings
class Map:
    """ordered mapping from its entries; later entries for the same key win, in the place of the first"""
    def __init__(self, entries): self.entries = entries
    def keys(self): return map_seq(lambda e: e[0], self.entries)
    def values(self): return map_seq(lambda e: e[1], self.entries)
    def items(self): return self.entries
    def __getitem__(self, k):
        r = self.find(k, None, True)
        return r
    def find(self, k, default, must):
        s = self.entries
        if mapform(s):
            p = s.parts[0]; key, val = p.body.parts[0].v
            if isinstance(key, Tm) and key.op.startswith("key:"):
                if isinstance(k, Tm) and k.op == key.op: return at(p, unc(k.args[0]))[1]
                if truth(app("in", p.base.term, k)): return at(p, Tm("indexof", p.base.term, enc(k), kind="int"))[1]
                if must: raise KeyError(k)
                return default
        if s.concrete():
            for kk, v in s.values():
                if truth(eq(kk, k)): return v
            if must: raise KeyError(k)
            return default
        if must: return app("lookup", Tm("map", s), k)
        raise Unsupported("get on a symbolic mapping")
    def get(self, k, default=None): return self.find(k, default, False)
    def pop(self, *a): raise Unsupported("pop")
    def has(self, k):
        s = self.entries
        if mapform(s):
            p = s.parts[0]; key, _ = p.body.parts[0].v
            if isinstance(key, Tm) and key.op.startswith("key:"):
                if isinstance(k, Tm) and k.op == key.op: return True
                return app("in", p.base.term, k)
        if s.concrete():
            r = False
            for kk, _ in s.values():
                if truth(eq(kk, k)): return True
            return r
        raise Unsupported("membership in a symbolic mapping")
    def __iter__(self): return iter(self.keys())
    def __len__(self): raise Unsupported("length of a symbolic mapping")
    def __repr__(self): return f"Map{self.entries!r}"


def map_base(name):
    """symbolic mapping: distinct keys key:name(k), values val:name(k)"""
    t = Tm(name)
    el = lambda k: (app("key:" + name, k), app("val:" + name, k))
    b = Base(t, el)
    k = fresh()
    return Map(Seq([For(k, b, Seq([E(el(k))]), fn=el)]))


def map_seq(f, s):
    out = []
    for p in s.parts:
        if isinstance(p, E): out.append(E(f(p.v), p.guard))
        elif isinstance(p, Hole): raise Unsupported("view of a mapping under construction")
        else: out.append(For(p.k, p.base, map_seq(f, p.body), p.guard, (lambda i, p=p: f(p.fn(i))) if p.fn else None))
    return Seq(out)


def merge(a, b):
    """{**a, **b}"""
    ea, eb = entries_of(a), entries_of(b)
    if not ea.parts: return Map(eb)
    if not eb.parts: return Map(ea)
    A, B = Map(ea), Map(eb)
    def over(e, outer):
        k, v = e
        return (k, B.find(k, v, False))
    first = loop_map(lambda e: [(e[0], B.get(e[0], e[1]))], ea)
    second = loop_map(lambda e: [] if truth(A.has(e[0])) else [e], eb)
    return Map(Seq(list(first.parts) + list(second.parts)))


def entries_of(m):
    if isinstance(m, Map): return m.entries
    if isinstance(m, Tm): raise Unsupported("mapping of unknown shape")
    if isinstance(m, dict): return Seq([E((k, v)) for k, v in m.items()])
    s = seqof(m)                  # keys, through the mapping's own iteration
    return loop_map(lambda k: [(k, m[k])], s)


# ------------------------------------------------------------------ decisions
class Scope:
    def __init__(self, binder): self.binder = binder; self.trail = []


SCOPES = []
COUNT = [0]


def truth(c):
    if isinstance(c, (bool, np.bool_)): return bool(c)
    if not isinstance(c, Tm): return bool(c)
    if c.op == "not": return not truth(c.args[0])
    if c.op == "and": return all(truth(a) for a in c.args)
    if c.op == "const": return bool(c.args[0].v)
    if c.op == "ne":
        d = nonempty(c.args[0], lambda a: truth(a))
        if d is not None: return d
    if c.op == "ite": return truth(unc(c.args[1])) if truth(unc(c.args[0])) else truth(unc(c.args[2]))
    k = c.key
    for s in SCOPES:
        for a, v in s.trail:
            if a.key == k: return v
    if not SCOPES: raise Unsupported("condition outside an execution")
    d = infer(c)
    if d is not None: return d
    for s in reversed(SCOPES):
        if s.binder is None or occurs(c, s.binder): break
    s.trail.append([c, True])
    COUNT[0] += 1
    if COUNT[0] > 4000: raise Unsupported("too many cases")
    return True


def infer(c):
    """value of a length comparison implied by the other decided length comparisons"""
    b = bound_atom(c)
    if b is None: return None
    lo, hi = 0, None
    for s in SCOPES:
        for a, v in s.trail:
            q = bound_atom(a)
            if q is None or q[0].key != b[0].key: continue
            lo, hi = narrow(lo, hi, q, v)
    l1, h1 = narrow(lo, hi, b, True)
    if h1 is not None and l1 > h1: return False
    l0, h0 = narrow(lo, hi, b, False)
    if h0 is not None and l0 > h0: return True
    return None


def bound_atom(c):
    """len(x) <= c  ->  (len(x), 'le', c); len(x) == c -> (len(x), 'eq', c)"""
    if c.op not in ("le0", "eq0"): return None
    t, k, i = lin_of(c.args[0])
    if len(t) != 1 or t[0][1] != 1 or not nonneg(t[0][0]): return None
    return t[0][0], c.op, -k


def narrow(lo, hi, q, v):
    _, op, c = q
    if op == "le0":
        if v: hi = c if hi is None else min(hi, c)
        else: lo = max(lo, c + 1)
    elif v: lo = max(lo, c); hi = c if hi is None else min(hi, c)
    elif c == lo: lo = lo + 1
    return lo, hi


def run_all(binder, fn):
    """run fn for every outcome of the conditions owned by this scope -> [(literals, result)]"""
    s = Scope(binder)
    out = []
    while True:
        SCOPES.append(s)
        try: r = fn()
        finally: SCOPES.pop()
        out.append((frozenset((a, v) for a, v in s.trail), r))
        while s.trail and not s.trail[-1][1]: s.trail.pop()
        if not s.trail: return out
        s.trail[-1][1] = False
        if len(out) > 256: raise Unsupported("too many cases")


# ------------------------------------------------------------------ loops
class Undef:
    def __repr__(self): return "<unassigned>"
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("variable read before assignment")
    def __bool__(self): raise Unsupported("variable read before assignment")


UNDEF = Undef()


def seqof(x):
    """symbolic view of an iterable"""
    if isinstance(x, Seq): return x
    if isinstance(x, Map): return x.keys()
    if isinstance(x, Tm): return base_seq(None, term=x)
    if isinstance(x, dict): return Seq([E(v) for v in x])
    if isinstance(x, collections.abc.ItemsView) and hasattr(x, "_mapping"):
        m = x._mapping
        return loop_map(lambda k: [(k, m[k])], seqof(m)) if sym(m) else Seq([E(v) for v in x])
    if isinstance(x, collections.abc.ValuesView) and hasattr(x, "_mapping"):
        m = x._mapping
        return loop_map(lambda k: [m[k]], seqof(m)) if sym(m) else Seq([E(v) for v in x])
    if isinstance(x, collections.abc.KeysView) and hasattr(x, "_mapping"): return seqof(x._mapping)
    if type(x).__dict__.get("__iter__") is not None and getattr(type(x), "__dataclass_fields__", None) or getattr(type(x), "_shadow_mapping", False):
        return seqof(type(x).__iter__(x))
    if isinstance(x, (str, bytes)): return Seq([E(c) for c in x])
    return Seq([E(v) for v in x])


def loop_map(f, s):
    """concatenation of f(e) for e in s; f may consult conditions"""
    out = []
    for p in s.parts:
        if isinstance(p, E) and not p.guard: out.extend(v if isinstance(v, Part) else E(v) for v in f(p.v)); continue
        out.extend(run_part(p, lambda e, acc: acc + [E(v) if not isinstance(v, Part) else v for v in f(e)]))
    return Seq(out)


def run_part(p, f):
    """elements produced by iterating over part p; f(e, acc) -> acc"""
    if isinstance(p, E):
        # a guarded element: its guard is about an enclosing binder, or global
        return [q.guarded(p.guard) for q in f(p.v, [])]
    if isinstance(p, Hole): raise Unsupported("iteration over a sequence under construction")
    k = fresh()
    body = subst(p.body, {p.k.key: k})
    fn = p.fn
    def go():
        acc = []
        for q in body.parts:
            if isinstance(q, E) and not q.guard:
                v = fn(k) if fn and len(body.parts) == 1 else q.v
                acc = f(v, acc)
            elif isinstance(q, E):
                if all(truth(a) == v for a, v in q.guard): acc = f(q.v, acc)
            else:
                if all(truth(a) == v for a, v in q.guard): acc = acc + run_part(For(q.k, q.base, q.body, frozenset(), q.fn), f)
        return acc
    res = run_all(k, go)
    out = [q.guarded(g) for g, ps in res for q in ps]
    nf = None
    if fn and len(res) == 1 and len(out) == 1 and isinstance(out[0], E):
        nf = lambda i: f(fn(i), [])[0].v
    return [For(k, p.base, Seq(out), p.guard, nf)]


def is_list(v): return isinstance(v, (list, Seq)) or isinstance(v, tuple)


def loop(body, it, state, names):
    s = seqof(it) if sym(it) or isinstance(it, Seq) else None
    if s is None:
        for x in it: state = body(state, x)
        return state
    for p in s.parts:
        if isinstance(p, E) and not p.guard: state = body(state, p.v)
        else: state = summarise(p, body, state, names)
    return state


def summarise(p, body, state, names):
    if isinstance(p, Hole): raise Unsupported("loop over a sequence under construction")
    if isinstance(p, E):      # guarded element: global or enclosing condition
        return body(state, p.v) if all(truth(a) == v for a, v in p.guard) else state
    if p.guard and not all(truth(a) == v for a, v in p.guard): return state
    k = fresh()
    inner = subst(p.body, {p.k.key: k})
    fn = p.fn
    def run(st):
        for q in inner.parts:
            if isinstance(q, E) and not q.guard:
                st = body(st, fn(k) if fn and len(inner.parts) == 1 else q.v)
            else: st = summarise(q, body, st, names)
        return st
    state = tuple(Seq([E(x) for x in v]) if isinstance(v, list) else (Map(entries_of(v)) if isinstance(v, dict) else v) for v in state)
    changed = {}                                         # position -> placeholder
    for _ in range(len(names) + 2):
        cur = []
        for j, v in enumerate(state):
            if j in changed:
                cur.append(changed[j][1])
            else: cur.append(v)
        res = run_all(k, lambda: run(tuple(cur)))
        new = set()
        for g, post in res:
            for j, v in enumerate(post):
                if j not in changed and not (v is state[j] or v is not UNDEF and state[j] is not UNDEF and (isinstance(v, Tm) or not callable(v)) and same(v, state[j])): new.add(j)
        if not new: break
        for j in new:
            v = state[j]
            if v is UNDEF: changed[j] = ("undef", UNDEF, None)
            elif isinstance(v, Map): h = Hole(); changed[j] = ("map", Map(Seq([h])), h)
            elif is_list(v): h = Hole(); changed[j] = ("list", Seq([h]), h)
            else:
                t = Tm("carried", Const(f"c{next(_fresh)}"), kind="int" if isinstance(v, int) and not isinstance(v, bool) or getattr(v, "kind", None) == "int" else None); changed[j] = ("value", t, t)
                if isinstance(v, Tm) and not_none(v): CARRIED.add(t.key)
    else: raise Unsupported("loop state does not stabilise")
    for j, (w, t, _) in changed.items():                 # the assumption is an invariant
        if w == "value" and t.key in CARRIED and not all(not_none(post[j]) for _, post in res): raise Unsupported("a loop variable may become None")
    out = list(state)
    opaque = {}
    values = {j: t for j, (w, _, t) in changed.items() if w == "value"}
    # recurrences first: their placeholder denotes the value before iteration k wherever it is used
    for j, t in values.items():
        used = any(occurs(post[i], t) for g, post in res for i in range(len(post)) if i != j and post[i] is not UNDEF and not isinstance(post[i], Undef) and changed.get(i, ("",))[0] != "undef" and i in changed) \
            or any(occurs(a, t) for g, _ in res for a, _ in g)
        posts = [q for g, post in res for q in expand(g, post[j], t)]
        adds = []
        ok = not used
        if ok:
            for g, v in posts:
                try: d = add(v, scale(-1, t)) if not isinstance(v, (bool, type(None), str)) else None
                except Unsupported: d = None
                if d is None or occurs(d, t): ok = False; break
                adds.append((g, d))
        if ok and not is_const_case(posts, t, k):
            out[j] = add(state[j], Sum(Seq([For(k, p.base, Seq([E(d, g) for g, d in adds if not (is_num(d) and num(d) == 0)]))])))
            continue
        if not used and is_const_case(posts, t, k):
            hit = [g for g, v in posts if not same(v, t)]
            c = [v for g, v in posts if not same(v, t)][0]
            if len(posts) == len(hit): cond = not_(le(p.base.len, 0))
            else: cond = Tm("ne", Seq([For(k, p.base, Seq([E(True, g) for g in hit]))]))
            out[j] = ite(cond, c, state[j])
            continue
        if not any(occurs(post[i], t) for _, post in res for i in range(len(post)) if i in changed and not isinstance(post[i], Undef)) and not any(occurs(a, t) for g, _ in res for a, _ in g):
            out[j] = Last(); continue                    # never read before it is assigned: a temporary
        if any(occurs(post[j], t2) for i, t2 in values.items() if i != j for _, post in res): raise Unsupported("mutual recurrence")
        if any(g for g, _ in res): raise Unsupported("conditional recurrence")
        z = Tm("#before"); kk = Tm("#step", kind="int")
        lam = subst(res[0][1][j], {t.key: z, k.key: kk})
        opaque[t.key] = app("recur-at", lam, state[j], p.base.term, k)
        out[j] = app("recur", lam, state[j], p.base.term)
    for j, (w, ph, h) in changed.items():
        if w == "undef": out[j] = Last(); continue
        if w == "value": continue
        parts = []
        for g, post in res:
            v = post[j]
            s2 = v.entries if isinstance(v, Map) else v if isinstance(v, Seq) else None
            if s2 is None or not s2.parts or s2.parts[0] is not h or any(occurs(Seq([q]), Tm_of(h)) for q in s2.parts[1:]): raise Unsupported("loop does more than append")
            parts += [subst_part(q, opaque).guarded(g) if opaque else q.guarded(g) for q in s2.parts[1:]]
        init = state[j].entries if isinstance(state[j], Map) else seqof(state[j])
        s3 = Seq(list(init.parts) + [For(k, p.base, Seq(parts))])
        out[j] = Map(s3) if w == "map" else s3
    return tuple(out)


class Last(Undef):
    """value of a variable assigned only inside a loop, after it"""


def Tm_of(h):
    class K: key = h.key
    return K


def expand(g, v, t):
    """if-terms over the value t before the iteration, as guarded alternatives"""
    if isinstance(v, Tm) and v.op == "ite" and occurs(v, t) and not occurs(unc(v.args[0]), t):
        c, s = unc(v.args[0]), True
        if c.op == "not": c, s = c.args[0], False
        return expand(g | {(c, s)}, unc(v.args[1]), t) + expand(g | {(c, not s)}, unc(v.args[2]), t)
    return [(g, v)]


def nonempty(s, decide):
    """True, False, or None when unknown; decide(condition) -> bool or None"""
    unknown = False
    for p in s.parts:
        ds = [(decide(a), v) for a, v in p.guard] if not any_bound(p) else [(None, True)]
        if any(d is not None and d != v for d, v in ds): continue
        if any(d is None for d, _ in ds): unknown = True; continue
        if isinstance(p, E): return True
        if isinstance(p, Hole): unknown = True; continue
        d = decide(le(p.base.len, 0))
        if d is True: continue
        b = nonempty(p.body, lambda c: None if occurs(c, p.k) else decide(c))
        if b is False: continue
        if b is True and d is False: return True
        unknown = True
    return None if unknown else False


def any_bound(p): return False


def is_const_case(posts, t, k):
    cs = [v for _, v in posts if not same(v, t)]
    return bool(cs) and all(not occurs(v, t) and not occurs(v, k) and same(v, cs[0]) for v in cs)


def Sum(s):
    """finite sum of the elements; flattened"""
    def flat(s):
        out = []
        for p in s.parts:
            if isinstance(p, E):
                t, c, _ = lin_of(p.v) if not isinstance(p.v, Seq) else ([], None, 0)
                if len(t) == 1 and c == 0 and t[0][1] == 1 and t[0][0].op == "Sum":
                    out += [q.guarded(p.guard) for q in flat(t[0][0].args[0])]
                else: out.append(p)
            elif isinstance(p, Hole): raise Unsupported("sum of a sequence under construction")
            else: out.append(For(p.k, p.base, Seq(flat(p.body)), p.guard))
        return out
    ps = flat(s)
    if not ps: return 0
    if all(isinstance(p, E) and not p.guard for p in ps):
        r = 0
        for p in ps: r = add(r, p.v)
        return r
    return Tm("Sum", Seq(ps))


# ------------------------------------------------------------------ terms for attribute access, calls and indexing
def attr(t, n):
    if t.op in FIELDS and n in FIELDS[t.op]: return unc(t.args[FIELDS[t.op].index(n)])
    return app("attr:" + n, t)


FIELDS = {"new:Point": ("xy",), "new:Wall": ("xys",), "new:Ray": ("xys",)}


SIGNATURES = {}          # method name -> function whose signature canonicalises the arguments


def call(f, a, k):
    a = flat_args(a)
    if isinstance(f, Tm) and f.op.startswith("attr:") and f.op[5:] in SIGNATURES:
        a, k = bind(SIGNATURES[f.op[5:]], a, k)
    return app("call", f, Seq([E(v) for v in a]), Tm("kw", *[Tm("kw:" + n, enc(v)) for n, v in sorted(k.items())]))


def bind(g, a, k):
    try:
        sg = inspect.signature(g)
        b = sg.bind(*a, **k)
    except (TypeError, ValueError): return list(a), dict(k)
    out = {}; rest = []
    for n, v in b.arguments.items():
        p = sg.parameters[n]
        if p.kind == p.VAR_POSITIONAL: rest += list(v)
        elif p.kind == p.VAR_KEYWORD: out.update(v)
        elif p.default is not p.empty and same(p.default, v) and not sym(v): continue
        else: out[n] = v
    return rest, out


def flat_args(a):
    out = []
    for v in a:
        if isinstance(v, Star): raise Unsupported("symbolic sequence passed to a symbolic function")
        out.append(v)
    return out


def scalar(i): return isinstance(i, Tm) and i.kind == "int" or isinstance(i, (int, np.integer)) and not isinstance(i, bool)


def getitem_term(t, i):
    ix = list(i) if isinstance(i, tuple) else [i]
    while len(ix) > 1 and isinstance(ix[-1], slice) and ix[-1] == slice(None): ix.pop()
    if isinstance(t, Tm) and t.op == "ite" and False: pass
    if isinstance(t, Tm) and t.op == "getitem" and all(scalar(j) for j in ix) and all(scalar(unc(p.v)) for p in t.args[1].parts):
        return Tm("getitem", t.args[0], Seq(list(t.args[1].parts) + [E(j) for j in ix]))
    return Tm("getitem", enc(t), Seq([E(j) for j in ix]))


class Star:
    def __init__(self, x): self.x = x


# ------------------------------------------------------------------ replacements of builtins
def b_len(x):
    if isinstance(x, Seq): return seqlen(x)
    if isinstance(x, Map): return seqlen(x.entries)
    if isinstance(x, Tm): return Tm("len", x, kind="int")
    if getattr(type(x), "_shadow_mapping", False) and sym(x): return type(x).__len__(x)
    if isinstance(x, (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)) and sym(x): return b_len(x._mapping)
    return len(x)


def b_range(*a):
    if not any(isinstance(x, Tm) for x in a): return range(*a)
    if len(a) == 3: raise Unsupported("range with a step")
    return range_seq(a[0]) if len(a) == 1 else range_seq(a[1], a[0])


def b_enumerate(x, start=0):
    if not sym(x): return enumerate(x, start)
    s = seqof(x); out = []; n = start
    for p in s.parts:
        if not regular(p): raise Unsupported("enumerate of an irregular sequence")
        if isinstance(p, E): out.append(E((n, p.v))); n = add(n, 1)
        else:
            off = n
            get = lambda i, p=p, off=off: (add(i, off), at(p, i))
            out.append(For(p.k, p.base, Seq([E(get(p.k))]), fn=get))
            n = add(n, p.base.len)
    return Seq(out)


def b_zip(*xs, strict=False):
    if not any(sym(x) for x in xs): return zip(*xs, strict=strict)
    ss = [seqof(x) for x in xs]
    if all(s.concrete() for s in ss): return Seq([E(v) for v in zip(*[s.values() for s in ss])])
    out = []
    if len({len(s.parts) for s in ss}) != 1: raise Unsupported("zip of different shapes")
    for ps in zip(*[s.parts for s in ss]):
        if all(isinstance(p, E) and not p.guard for p in ps): out.append(E(tuple(p.v for p in ps))); continue
        if not all(isinstance(p, For) and mapform(Seq([p])) for p in ps) or len({repr(p.base.len.key) for p in ps}) != 1: raise Unsupported("zip of different shapes")
        k = fresh()
        get = lambda i, ps=ps: tuple(at(p, i) for p in ps)
        out.append(For(k, ps[0].base, Seq([E(get(k))]), fn=get))
    return Seq(out)


def b_seq(kind):
    def f(*a):
        if not a or not sym(a[0]): return kind(*a)
        s = seqof(a[0])
        return kind(s.values()) if s.concrete() and not isinstance(a[0], Tm) else s
    return f


def b_iter(x, *a):
    if a or not sym(x): return iter(x, *a)
    return seqof(x)


def b_dict(*a, **k):
    if not any(sym(v) for v in a): return dict(*a, **k)
    if len(a) != 1 or k: raise Unsupported("dict of a symbolic argument")
    x = a[0]
    if isinstance(x, (Map, dict)) or getattr(type(x), "_shadow_mapping", False): return Map(entries_of(x))
    return Map(loop_map(lambda e: [tuple(e)], seqof(x)))


def b_filter(f, x):
    if not sym(x) and not isinstance(f, Tm): return filter(f, x)
    if f is None: f = lambda v: v
    return loop_map(lambda e: [e] if truth(f(e)) else [], seqof(x))


def b_map(f, *xs):
    if not any(sym(x) for x in xs): return map(f, *xs)
    if len(xs) > 1: return comp(lambda t: f(*t), b_zip(*xs))
    return comp(f, xs[0])


def b_all(x):
    if not sym(x): return all(x)
    s = seqof(x)
    if s.concrete(): return conj([tv(v) for v in s.values()])
    return app("all", s)


def b_any(x):
    if not sym(x): return any(x)
    s = seqof(x)
    if s.concrete(): return not_(conj([not_(tv(v)) for v in s.values()]))
    return app("any", s)


def tv(v): return v if isinstance(v, (bool, Tm)) else bool(v)


def b_sum(x, start=0):
    if not sym(x): return sum(x, start)
    return add(start, Sum(seqof(x)))


def b_reversed(x):
    if not sym(x): return reversed(x)
    s = seqof(x)
    if s.concrete(): return Seq([E(v) for v in s.values()[::-1]])
    return base_seq(None, term=app("reversed", s))


def b_sorted(x, **k):
    if not sym(x): return sorted(x, **k)
    return base_seq(None, term=app("sorted", seqof(x), Tm("kw", *[Tm("kw:" + n, enc(v)) for n, v in sorted(k.items())])))


def b_set(*a):
    if not a or not sym(a[0]): return set(*a)
    return base_seq(None, term=app("set", seqof(a[0])))


def b_isinstance(x, t):
    if isinstance(x, Tm): return app("isinstance", x, t)
    if isinstance(x, Map): return t in (dict, collections.abc.Mapping) or _u("isinstance")
    if isinstance(x, Seq): return _u("isinstance of a sequence")
    return isinstance(x, t)


def b_type(*a):
    if len(a) == 1 and isinstance(a[0], Tm): return app("type", a[0])
    return type(*a)


def b_int(*a):
    if len(a) == 1 and isinstance(a[0], Tm): return a[0]
    return int(*a)


def b_bool(*a):
    if len(a) == 1 and isinstance(a[0], Tm): return truth(a[0])
    return bool(*a)


def b_str(*a):
    if len(a) == 1 and sym(a[0]): return fstr(a[0])
    return str(*a)


def b_next(it, *a):
    if sym(it): raise Unsupported("next on a symbolic sequence")
    return next(it, *a)


def b_getattr(x, n, *a):
    if isinstance(n, Tm): return app("getattr", x, n)
    return getattr(x, n, *a)


def b_hasattr(x, n):
    if isinstance(x, Tm): return app("hasattr", x, n)
    return hasattr(x, n)


def b_minmax(f):
    def g(*a, **k):
        if not any(sym(v) for v in a): return f(*a, **k)
        if k or len(a) == 1: raise Unsupported(f.__name__)
        r = a[0]
        for v in a[1:]:
            r = (r if truth(le(r, v)) else v) if f is min else (r if truth(le(v, r)) else v)
        return r
    return g


def _u(m): raise Unsupported(m)


def product(*xs, repeat=1):
    if not any(sym(x) for x in xs): return itertools.product(*xs, repeat=repeat)
    if repeat != 1: raise Unsupported("product with repeat")
    def go(i, pre):
        if i == len(xs): return [pre]
        return [p for p in loop_map(lambda e: go(i + 1, pre + (e,)), seqof(xs[i])).parts]
    return Seq([E(v) if not isinstance(v, Part) else v for v in go(0, ())])


def chain(*xs):
    if not any(sym(x) for x in xs): return itertools.chain(*xs)
    return Seq([q for x in xs for q in seqof(x).parts])
chain.from_iterable = lambda x: chain_from(x)


def chain_from(x):
    if not sym(x): return itertools.chain.from_iterable(x)
    return loop_map(lambda e: list(seqof(e).parts), seqof(x))


def groupby(x, key=None):
    """consecutive elements with equal keys: exact for blocks whose key does not depend on the innermost loop"""
    if not sym(x): return itertools.groupby(x, key)
    if key is None: key = lambda v: v
    def go(p):
        if isinstance(p, E): raise Unsupported("groupby of single elements")
        if len(p.body.parts) == 1 and isinstance(p.body.parts[0], For):
            return For(p.k, p.base, Seq([go(p.body.parts[0])]), p.guard)
        ks = [key(q.v) for q in p.body.parts if isinstance(q, E)]
        if not ks or len(ks) != len(p.body.parts) or any(occurs(v, p.k) for v in ks) or any(not same(v, ks[0]) for v in ks): raise Unsupported("groupby")
        # several unguarded elements, or complementary guards: each iteration contributes at least one element
        if all(q.guard for q in p.body.parts): raise Unsupported("groupby of filtered elements")
        return E((ks[0], Seq([For(p.k, p.base, p.body)])), p.guard | {(le(p.base.len, 0), False)})
    s = seqof(x)
    if len(s.parts) != 1 or not isinstance(s.parts[0], For): raise Unsupported("groupby")
    p = s.parts[0]
    r = go(p)
    # blocks of different loop positions have different keys: each enclosing loop's key is one of the block's keys
    outer = []; q = p
    while isinstance(q, For) and len(q.body.parts) == 1 and isinstance(q.body.parts[0], For): outer.append(q.k); q = q.body.parts[0]
    k0 = key([b for b in q.body.parts if isinstance(b, E)][0].v)
    for b in outer:
        if not any(isinstance(c, Tm) and c.op.startswith("key:") and isinstance(c.args[0], Tm) and c.args[0].key == b.key for c in (k0 if isinstance(k0, tuple) else (k0,))): raise Unsupported("groupby keys")
    return Seq([r]) if isinstance(r, For) else Seq([r])


# ------------------------------------------------------------------ replacements of syntax
def r_comp(f, it, cond=None):
    if not sym(it): return [f(x) for x in it if cond is None or cond(x)]
    return comp(f, it, cond)


def comp(f, it, cond=None):
    return loop_map(lambda e: [f(e)] if cond is None or truth(cond(e)) else [], seqof(it))


def r_flat(f, it, cond=None):
    if not sym(it):
        parts = []
        for x in it:
            if cond is None or cond(x):
                v = f(x)
                parts += list(v.parts) if isinstance(v, Seq) else [E(y) for y in v]
        s = Seq(parts)
        return s.values() if s.concrete() else s
    def one(e):
        if cond is not None and not truth(cond(e)): return []
        v = f(e)
        return list(v.parts) if isinstance(v, Seq) else list(v)
    return loop_map(one, seqof(it))


def r_dictcomp(f, it, cond=None):
    if not sym(it): return dict(f(x) for x in it if cond is None or cond(x))
    return Map(comp(f, it, cond))


def r_append(x, v):
    if isinstance(x, Seq): return Seq(list(x.parts) + [E(v)])
    if isinstance(x, list): x.append(v); return x
    if isinstance(x, (Tm, Undef)): raise Unsupported("append")
    x.append(v); return x


def r_extend(x, v):
    if isinstance(x, Seq) or isinstance(x, list) and sym(v): return Seq([p for y in (x, v) for p in seqof(y).parts])
    x.extend(v); return x


def r_setitem(d, k, v):
    if isinstance(d, Map):
        for p in d.entries.parts:
            if isinstance(p, E) and not p.guard and same(p.v[0], k): raise Unsupported("overwritten entry")
        return Map(Seq(list(d.entries.parts) + [E((k, v))]))
    if isinstance(d, dict) and not sym(k): d[k] = v; return d
    if isinstance(d, dict): return r_setitem(Map(entries_of(d)), k, v)
    if isinstance(d, (Tm, Seq, Undef)) or sym(k): raise Unsupported("item assignment")
    d[k] = v; return d


def r_update(d, *a, **k):
    if k or len(a) != 1: raise Unsupported("update")
    if isinstance(d, (dict, Map)) and (isinstance(d, Map) or sym(a[0])): return merge(d, a[0])
    d.update(*a); return d


def r_seq(kind, *parts):
    if any(isinstance(p, Star) and sym(p.x) for p in parts):
        return Seq([q for p in parts for q in (seqof(p.x).parts if isinstance(p, Star) else [E(p)])])
    return kind(v for p in parts for v in (p.x if isinstance(p, Star) else [p]))


def r_dict(*parts):
    """parts: (k, v) pairs or Star(mapping)"""
    if not any(isinstance(p, Star) and sym(p.x) or not isinstance(p, Star) and sym(p[0]) for p in parts):
        d = {}
        for p in parts: d.update(p.x if isinstance(p, Star) else {p[0]: p[1]})
        return d
    m = None
    for p in parts:
        q = p.x if isinstance(p, Star) else Map(Seq([E((p[0], p[1]))]))
        m = q if m is None else merge(m, q)
    return m if isinstance(m, Map) else Map(entries_of(m))


def r_call(f, pos, kws):
    """call with starred arguments; kws: (name, value) pairs and Star(mapping)"""
    args = []
    for p in pos:
        if isinstance(p, Star):
            if sym(p.x) and not (isinstance(p.x, (list, tuple))):
                s = seqof(p.x)
                args += s.values() if s.concrete() else [p if isinstance(p.x, Seq) else Star(s)]
            else: args += list(p.x)
        else: args.append(p)
    k = {}; m = None
    for p in kws:
        if isinstance(p, Star):
            if isinstance(p.x, dict): k.update(p.x)
            elif sym(p.x):
                if m is not None: raise Unsupported("two symbolic keyword mappings")
                m = p.x if isinstance(p.x, Map) else Map(entries_of(p.x))
            else: k.update(p.x)
        else: k[p[0]] = p[1]
    if m is not None: k["__sym"] = m
    return f(*args, **k)


def r_kwin(k):
    if "__sym" in k:
        m = k.pop("__sym")
        return merge(m, k) if k else m
    return k


def r_argsin(a):
    if any(isinstance(p, Star) for p in a): return r_seq(tuple, *a)
    return a


def r_getitem(x, i):
    if isinstance(x, (Tm, Seq, Map)): return x[i]
    if getattr(type(x), "_shadow_mapping", False): return type(x).__getitem__(x, i)
    if sym(i):
        if isinstance(x, (list, tuple)): return Seq([E(v) for v in x])[i]
        if isinstance(x, dict): return Map(entries_of(x))[i]
        return getitem_term(enc(x), i)
    return x[i]


def r_is(a, b):
    if not isinstance(a, (Tm, Seq, Map, Undef)) and not isinstance(b, (Tm, Seq, Map, Undef)): return a is b
    if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported("variable read before assignment")
    if a is b: return True
    if isinstance(a, Tm) and isinstance(b, Tm) and same(a, b): return True
    if isinstance(a, (Seq, Map)) or isinstance(b, (Seq, Map)):
        o = b if isinstance(a, (Seq, Map)) else a
        if o is None or isinstance(o, (bool, type)): return False
        raise Unsupported("identity of sequences")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Tm) and y is None and not_none(x): return False
    x, y = enc(a), enc(b)
    if repr(x.key) > repr(y.key): x, y = y, x
    return truth(Tm("is", x, y))


NOT_NONE = set()         # operations whose value is not None
CARRIED = set()          # keys of loop variables under the assumption that they are not None


def not_none(x, before=False):
    """known not to be None"""
    if not isinstance(x, Tm): return x is not None and not isinstance(x, Undef)
    if x.op in NOT_NONE or x.key in CARRIED or x.op == "#before" and before: return True
    if x.op == "getitem": return isinstance(x.args[0], Tm) and x.args[0].op == "fn:jax.random.split"
    if x.op in ("recur", "recur-at"): return not_none(unc(x.args[1]), before) and not_none(unc(x.args[0]), True)
    return False


def r_isnot(a, b): return not r_is(a, b)


def r_in(x, c):
    if isinstance(c, Map): return truth(c.has(x))
    if isinstance(c, Seq): return truth(app("in", c, x)) if not c.concrete() else any(truth(eq(v, x)) for v in c.values())
    if getattr(type(c), "_shadow_mapping", False) and (sym(c) or sym(x)):
        try: r_getitem(c, x); return True
        except KeyError: return False
    if isinstance(c, (tuple, list, set, frozenset)) and sym(x): return any(truth(eq(v, x)) for v in c)
    if isinstance(c, dict) and sym(x): return any(truth(eq(v, x)) for v in c)
    if sym(c): return truth(app("in", c, x))
    return x in c


def r_notin(x, c): return not r_in(x, c)


def fstr(*parts):
    if not any(sym(p) for p in parts): return "".join(str(p) for p in parts)
    out = []
    for p in parts:
        if not sym(p): p = str(p)
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        elif not (isinstance(p, str) and p == ""): out.append(p)
    if len(out) == 1 and isinstance(out[0], Tm) and out[0].op.startswith(("key:", "fstr")): return out[0]
    return app("fstr", *out)


def r_not(x): return not_(x) if isinstance(x, Tm) else not x


# ------------------------------------------------------------------ rewriting
BUILTINS = dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, tuple=b_seq(tuple), list=b_seq(list), iter=b_iter, dict=b_dict, filter=b_filter, map=b_map,
                all=b_all, any=b_any, sum=b_sum, reversed=b_reversed, sorted=b_sorted, set=b_set, isinstance=b_isinstance, type=b_type, int=b_int, bool=b_bool, str=b_str, next=b_next,
                getattr=b_getattr, hasattr=b_hasattr, min=b_minmax(min), max=b_minmax(max))
KEEP_DECORATORS = {"classmethod", "staticmethod", "property", "singledispatchmethod", "abstractmethod", "runtime_checkable", "singledispatch"}


def N(x): return ast.Name(x, ast.Load())
def C(f, *a): return ast.Call(N(f), list(a), [])


def assigned(body):
    names = []
    def put(x):
        if x not in names: names.append(x)
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store): put(n.id)
        def visit_FunctionDef(self, n): put(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        def visit_Call(self, n):
            m = mutation(n)
            if m: put(m)
            self.generic_visit(n)
        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): put(n.value.id)
            self.generic_visit(n)
        def visit_Yield(self, n): put("_v_out"); self.generic_visit(n)
        visit_YieldFrom = visit_Yield
    for s in body: V().visit(s)
    return names


MUTATORS = {"append": "_v_append", "extend": "_v_extend", "update": "_v_update"}


def mutation(c):
    f = c.func
    return f.value.id if isinstance(f, ast.Attribute) and f.attr in MUTATORS and isinstance(f.value, ast.Name) else None


def contains(body, kinds, into_loops=True):
    class V(ast.NodeVisitor):
        r = False
        def generic_visit(self, n):
            if isinstance(n, kinds): self.r = True
            super().generic_visit(n)
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_For(self, n):
            if into_loops: self.generic_visit(n)
        visit_While = visit_For
    v = V()
    for s in body: v.visit(s)
    return v.r


class Continue(ast.NodeTransformer):
    """continue of this loop (not of nested ones) becomes a return of the state"""
    def __init__(self, ret): self.ret = ret
    def visit_Continue(self, n): return ast.copy_location(ast.parse(self.ret).body[0], n)
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For


class Rewrite(ast.NodeTransformer):
    def __init__(self): self.k = 0; self.gen = False

    # -- expressions
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in BUILTINS: return ast.copy_location(N("_v_b_" + n.id), n)
        return n

    def _elt(self, g, elt):
        t = g.target
        if isinstance(t, ast.Name): return ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), elt)
        # nested targets: bind by a helper lambda over a pattern
        def ids(t): return [t.id] if isinstance(t, ast.Name) else [x for e in getattr(t, "elts", ()) for x in ids(e)]
        names = ids(t)
        if len(set(names)) != len(names): names = [x if x not in names[j + 1:] else f"_v_dup{j}" for j, x in enumerate(names)]
        inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), elt)
        def path(t, e):
            if isinstance(t, ast.Name): return [e]
            if not isinstance(t, ast.Tuple): raise Unsupported("comprehension target")
            return [x for i, s in enumerate(t.elts) for x in path(s, C("_v_nth", e, ast.Constant(i), ast.Constant(len(t.elts))))]
        return ast.Lambda(ast.arguments([], [ast.arg("_v_t")], None, [], [], None, []), ast.Call(inner, path(t, N("_v_t")), []))

    def _comp(self, n, last="_v_comp", elt=None):
        elt = self.visit(n.elt if elt is None else elt)
        gens = n.generators
        for j, g in reversed(list(enumerate(gens))):
            if g.is_async: raise Unsupported("async")
            cond = None
            if g.ifs: cond = self._elt(g, self.visit(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)))
            f = last if j == len(gens) - 1 else ("_v_flat" if last == "_v_comp" else "_v_dictflat")
            elt = C(f, self._elt(g, elt), self.visit(g.iter), *([cond] if cond else []))
        return ast.copy_location(elt, n)

    def visit_ListComp(self, n): return self._comp(n)
    def visit_GeneratorExp(self, n): return self._comp(n)
    def visit_SetComp(self, n): return ast.copy_location(C("_v_b_set", self._comp(n)), n)
    def visit_DictComp(self, n):
        if len(n.generators) != 1: return self.generic_visit(n)
        return self._comp(n, "_v_dictcomp", ast.Tuple([n.key, n.value], ast.Load()))

    def _display(self, n, kind):
        if not isinstance(n.ctx, ast.Load): return self.generic_visit(n)
        star = any(isinstance(e, ast.Starred) for e in n.elts)
        n = self.generic_visit(n)
        if not star: return n
        return ast.copy_location(C("_v_seq", N(kind), *[C("_v_star", e.value) if isinstance(e, ast.Starred) else e for e in n.elts]), n)

    def visit_List(self, n): return self._display(n, "_v_plist")
    def visit_Tuple(self, n): return self._display(n, "_v_ptuple")

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(C("_v_dict", *[C("_v_star", v) if k is None else ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]), n)

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load): return n
        return ast.copy_location(C("_v_getitem", n.value, self._index(n.slice)), n)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            z = lambda v: v if v is not None else ast.Constant(None)
            return C("_v_slice", z(s.lower), z(s.upper), z(s.step))
        if isinstance(s, ast.Tuple): return ast.Tuple([self._index(e) for e in s.elts], ast.Load())
        return s

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        f = {ast.Is: "_v_is", ast.IsNot: "_v_isnot", ast.In: "_v_in", ast.NotIn: "_v_notin"}
        if len(n.ops) == 1 and type(n.ops[0]) in f: return ast.copy_location(C(f[type(n.ops[0])], n.left, n.comparators[0]), n)
        if any(type(o) in f for o in n.ops): raise Unsupported("chained comparison")
        return n

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not): return ast.copy_location(C("_v_not", n.operand), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            elif v.conversion != -1 or v.format_spec is not None: return n
            else: parts.append(self.visit(v.value))
        return ast.copy_location(C("_v_fstr", *parts), n)

    def visit_Call(self, n):
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        n = self.generic_visit(n)
        if not star: return n
        pos = ast.List([C("_v_star", a.value) if isinstance(a, ast.Starred) else a for a in n.args], ast.Load())
        kws = ast.List([C("_v_star", k.value) if k.arg is None else ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in n.keywords], ast.Load())
        return ast.copy_location(C("_v_call", n.func, pos, kws), n)

    # -- statements
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Yield):
            e = self.visit(v.value) if v.value else ast.Constant(None)
            return ast.copy_location(ast.Assign([ast.Name("_v_out", ast.Store())], C("_v_append", N("_v_out"), e)), n)
        if isinstance(v, ast.YieldFrom):
            return ast.copy_location(ast.Assign([ast.Name("_v_out", ast.Store())], C("_v_extend", N("_v_out"), self.visit(v.value))), n)
        if isinstance(v, ast.Call) and mutation(v):
            name = mutation(v); c = self.visit(v)
            if isinstance(c.func, ast.Attribute):
                return ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], ast.Call(N(MUTATORS[v.func.attr]), [N(name)] + c.args, c.keywords)), n)
        return self.generic_visit(n)

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            t = n.targets[0]
            return ast.copy_location(ast.Assign([ast.Name(t.value.id, ast.Store())], C("_v_setitem", N(t.value.id), self._index(t.slice), n.value)), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None: return ast.copy_location(ast.Pass(), n)
        return self.visit_Assign(ast.copy_location(ast.Assign([n.target], n.value), n))

    def visit_Return(self, n):
        if self.gen:
            if n.value is not None: raise Unsupported("generator with a return value")
            return ast.copy_location(ast.Return(N("_v_out")), n)
        return self.generic_visit(n)

    def visit_For(self, n):
        brk = contains(n.body, (ast.Break,), False) or contains(n.body, ast.Return)
        if n.orelse or brk: return self.generic_visit(n)
        names = assigned(n.body)
        tup = "(" + "".join(x + ", " for x in names) + ")"
        ret = f"return {tup}"
        body = [Continue(ret).visit(s) for s in n.body]
        gen, self.gen = self.gen, False          # returns produced for continue stay as they are
        body = self.block(body)
        self.gen = gen
        self.k += 1
        f = f"_v_body_{self.k}"
        fd = ast.parse(f"def {f}(_v_state, _v_x):\n    {tup + ' = _v_state' if names else 'pass'}\n    {ret}").body[0]
        fd.body = [fd.body[0], ast.Assign([n.target], N("_v_x"))] + body + [fd.body[1]]
        st = "(" + "".join(f"_v_scope.get({x!r}, _v_undef), " for x in names) + ")"
        pre = ast.parse("_v_scope = dict(locals())").body
        call = ast.parse(f"{tup if names else '_v_none'} = _v_loop({f}, _v_it, {st}, {tuple(names)!r})").body[0]
        call.value.args[1] = self.visit(n.iter)
        out = [fd] + pre + [call]
        for x in out: ast.copy_location(x, n); ast.fix_missing_locations(x)
        return out

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
        return out or [ast.Pass()]

    def visit_FunctionDef(self, n):
        decs = []
        for d in n.decorator_list:
            q = d.func if isinstance(d, ast.Call) else d
            nm = q.id if isinstance(q, ast.Name) else q.attr if isinstance(q, ast.Attribute) else None
            if nm == "overload": return ast.copy_location(ast.Pass(), n)
            if nm in KEEP_DECORATORS or nm in ("register", "setter"): decs.append(d)
        n.decorator_list = decs
        n.returns = None
        A = n.args
        for a in A.args + A.kwonlyargs + A.posonlyargs + [x for x in (A.vararg, A.kwarg) if x]: a.annotation = None
        A.defaults = [self.visit(d) for d in A.defaults]
        A.kw_defaults = [self.visit(d) if d is not None else None for d in A.kw_defaults]
        gen, self.gen = self.gen, contains(n.body, (ast.Yield, ast.YieldFrom))
        body = n.body
        doc = body[0] if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else None
        body = self.block(body[1:] if doc else body)
        pre = []
        if A.kwarg: pre += ast.parse(f"{A.kwarg.arg} = _v_kwin({A.kwarg.arg})").body
        if A.vararg: pre += ast.parse(f"{A.vararg.arg} = _v_argsin({A.vararg.arg})").body
        if self.gen:
            pre += ast.parse("_v_out = _v_empty()").body
            body = body + ast.parse("def f():\n return _v_out").body[0].body
        n.body = pre + body
        self.gen = gen
        return n

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): r = self.visit(s)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None: s.value = self.visit(s.value)
                r = s
            else: r = s
            out.append(r)
        n.body = out
        return n

    def visit_Global(self, n): raise Unsupported("global variable")
    visit_Nonlocal = visit_Global


# ------------------------------------------------------------------ shadow module
class Proxy:
    """a module whose functions build free terms when given symbolic arguments"""
    def __init__(self, mod, name, special=None):
        self.__dict__.update(_m=mod, _n=name, _s=special or {})
    def __getattr__(self, k):
        if k in self._s: return self._s[k]
        v = getattr(self._m, k)
        if isinstance(v, types.ModuleType): return Proxy(v, self._n + "." + k, {q.split(".", 1)[1]: w for q, w in self._s.items() if q.startswith(k + ".")})
        if isinstance(v, type): 
            return Ctor(v, self._n + "." + k) if self._n.startswith(("jnp", "jax")) else v
        if callable(v): return Fn(v, self._n + "." + k)
        return v


class Fn:
    """imported function: the real one on ordinary values, a free term on symbolic ones"""
    def __init__(self, f, name):
        self.f = f; self.name = name
        functools.update_wrapper(self, f, updated=())
    def __call__(self, *a, **k):
        if not sym(a) and not sym(k): return self.f(*a, **k)
        a, k = bind(self.f, [v.x if isinstance(v, Star) else v for v in a], k)
        return app("fn:" + self.name, Seq([E(v) for v in a]), Tm("kw", *[Tm("kw:" + n, enc(v)) for n, v in sorted(k.items())]))


class Ctor(Fn):
    def __init__(self, f, name): self.f = f; self.name = name


class Record(Fn):
    """constructor of a data class of geometry: the fields as given (converted to arrays)"""
    def __init__(self, f, name): self.f = f; self.name = name
    def __getattr__(self, n): return getattr(self.f, n)
    def __call__(self, *a, **k):
        if not sym(a) and not sym(k): return self.f(*a, **k)
        fs = list(self.f.__dataclass_fields__)
        d = dict(zip(fs, a)); d.update(k)
        if set(d) != set(fs) or len(a) > len(fs): raise Unsupported("constructor arguments")
        return app("new:" + self.name, *[d[n] for n in fs])



def _path(where):
    class P:
        def __init__(self, p): object.__setattr__(self, "p", p)
        def __getattr__(self, n): return P(self.p + (n,))
    r = where(P(()))
    return r


def tree_at(where, tree, replace=None, **k):
    """equinox.tree_at for attribute paths"""
    r = _path(where)
    rs, vs = ([r], [replace]) if not isinstance(r, (tuple, list)) else (list(r), list(replace))
    for p, v in zip(rs, vs):
        if not hasattr(p, "p") or len(p.p) != 1: raise Unsupported("tree_at path")
        if k.get("replace_fn"): v = k["replace_fn"](getattr(tree, p.p[0]))
        tree = replace_fields(tree, {p.p[0]: v})
    return tree


def vmap(f, in_axes=0, out_axes=0, **k):
    if k or out_axes != 0: raise Unsupported("vmap options")
    def g(*a):
        if not sym(a): import jax; return jax.vmap(f, in_axes=in_axes)(*a)
        ax = in_axes if isinstance(in_axes, tuple) else (in_axes,) * len(a)
        i = fresh("v")
        sl = []
        n = None
        for x, q in zip(a, ax):
            if q is None: sl.append(x)
            elif q == 0:
                if not isinstance(x, Tm): raise Unsupported("vmapped argument")
                sl.append(getitem_term(x, i)); n = n or Tm("len", x, kind="int")
            else: raise Unsupported("vmap axis")
        r = f(*sl)
        wrap = lambda v: app("array", Seq([For(i, Base(n.args[0], None), Seq([E(v)]))]))
        return tuple(wrap(v) for v in r) if isinstance(r, tuple) else wrap(r)
    return g


def lam(f, args, argnums):
    """the function of the argument `argnums`, the others fixed, as a term"""
    x = fresh("d")
    y = Tm("binder", x.args[0])
    b = list(args); b[argnums] = y
    return app("lambda", Seq([For(y, Base(Tm("#any"), None), Seq([E(f(*b))]))]))


def grad(f, argnums=0, **k):
    if k or not isinstance(argnums, int): raise Unsupported("grad options")
    def g(*a): return app("grad", lam(f, a, argnums), a[argnums])
    return g


def value_and_grad(f, argnums=0, **k):
    if k or not isinstance(argnums, int): raise Unsupported("grad options")
    def g(*a): return f(*a), app("grad", lam(f, a, argnums), a[argnums])
    return g


def r_split(key, n=2):
    if not sym(key) and not sym(n):
        import jax
        return jax.random.split(key, n)
    t = app("fn:jax.random.split", key, n)
    if isinstance(n, int): return tuple(getitem_term(t, j) for j in range(n))
    k = fresh(); el = lambda i: getitem_term(t, i)
    return Seq([For(k, range_seq(n).parts[0].base, Seq([E(el(k))]), fn=el)])


def switch(index, branches, *ops):
    """lax.switch for an index in range"""
    if not sym(branches) and not sym(index): import jax; return jax.lax.switch(index, branches, *ops)
    if isinstance(branches, list): branches = Seq([E(v) for v in branches])
    return seq_item(branches, index)(*ops)


def identity(f=None, *a, **k):
    if callable(f): return f
    return lambda g: g


def nth(t, i, n):
    if isinstance(t, (Tm, Seq)): return r_getitem(t, i)
    t = list(t)
    if len(t) != n: raise ValueError("unpacking")
    return t[i]


def shadow(modname, overrides=None, jsonloads=None):
    """the module rewritten from its current source"""
    import importlib
    import jax, jax.numpy as jnp, equinox as eqx, json
    mod = importlib.import_module(modname)
    src = open(inspect.getsourcefile(mod)).read()
    tree = ast.parse(src)
    rw = Rewrite()
    out = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): r = rw.visit(s)
        else: r = s
        out.append(r)
    tree.body = out
    ast.fix_missing_locations(tree)
    name = modname + "__shadow"
    m = types.ModuleType(name)
    m.__package__ = modname.rsplit(".", 1)[0]
    m.__file__ = mod.__file__
    sys.modules[name] = m
    ns = m.__dict__
    ns.update({"_v_b_" + k: v for k, v in BUILTINS.items()})
    ns.update(_v_comp=r_comp, _v_flat=r_flat, _v_dictcomp=r_dictcomp, _v_append=r_append, _v_extend=r_extend, _v_setitem=r_setitem, _v_update=r_update, _v_seq=r_seq, _v_dict=r_dict,
              _v_call=r_call, _v_kwin=r_kwin, _v_argsin=r_argsin, _v_getitem=r_getitem, _v_is=r_is, _v_isnot=r_isnot, _v_in=r_in, _v_notin=r_notin, _v_fstr=fstr, _v_not=r_not,
              _v_loop=loop, _v_undef=UNDEF, _v_star=Star, _v_plist=list, _v_ptuple=tuple, _v_slice=slice, _v_nth=nth, _v_empty=lambda: Seq([]))
    # imports first, then replace what they bound, then the definitions
    imports = ast.Module([s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], [])
    defs = [s for s in tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))]
    code = compile(tree, f"<shadow {modname}>", "exec")
    jaxs = {"vmap": vmap, "grad": grad, "value_and_grad": value_and_grad, "random.split": r_split, "lax.switch": switch, "jit": identity}
    specials = {}
    def rebind():
        for k, v in list(ns.items()):
            if k.startswith("__"): continue
            if v is jnp: ns[k] = Proxy(jnp, "jnp")
            elif v is jax: ns[k] = Proxy(jax, "jax", jaxs)
            elif v is eqx: ns[k] = Proxy(eqx, "eqx", {"tree_at": tree_at, "filter_jit": identity})
            elif v is json: ns[k] = Proxy(json, "json", {"loads": jsonloads} if jsonloads else {})
            elif v is itertools.product: ns[k] = product
            elif v is itertools.groupby: ns[k] = groupby
            elif v is itertools.chain: ns[k] = chain
            elif v is itertools: ns[k] = Proxy(itertools, "itertools", {"product": product, "groupby": groupby, "chain": chain})
            elif isinstance(v, type) and v.__module__ == "differt2d.geometry" and k in ("Point", "Wall", "Ray"): ns[k] = Record(v, k)
            elif isinstance(v, types.FunctionType) and v.__module__ and v.__module__.startswith("differt2d.") and v.__module__ != name: ns[k] = Fn(v, k)
            elif type(v).__name__ in ("PjitFunction", "_JitWrapper") or hasattr(v, "__wrapped__") and callable(v) and not isinstance(v, type) and getattr(v, "__module__", "").startswith("differt2d."): ns[k] = Fn(v, k)
        ns.update(overrides or {})
    first = True
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and first:
            rebind(); first = False
        exec(compile(ast.Module([s], []), f"<shadow {modname}>", "exec"), ns)
        if isinstance(s, ast.FunctionDef) and s.name in (overrides or {}): ns[s.name] = overrides[s.name]
    for v in list(ns.values()):
        if isinstance(v, type) and v.__module__ == name and issubclass(v, collections.abc.Mapping):
            try: v._shadow_mapping = True
            except Exception: type.__setattr__(v, "_shadow_mapping", True)
    m.__extracted__ = tree
    return m


# ------------------------------------------------------------------ comparison
def atoms_of(x, acc, bound=()):
    """conditions of x that do not mention the binders inside x"""
    x = enc(x)
    def go(t, bs):
        if isinstance(t, Const): return
        if isinstance(t, Seq):
            for p in t.parts:
                for a, _ in p.guard: put(a, bs)
                if isinstance(p, E): go(enc(p.v), bs)
                elif isinstance(p, For):
                    put(le(p.base.len, 0), bs)
                    go(p.base.term, bs)
                    go(p.body, bs + (p.k,))
            return
        if t.op == "ite" : put(unc(t.args[0]), bs)
        for a in t.args: go(a, bs)
    def put(a, bs):
        if isinstance(a, bool): return
        if a.op == "not": return put(a.args[0], bs)
        if a.op == "and":
            for q in a.args: put(q, bs)
            return
        if any(occurs(a, b) for b in bs): return
        acc.setdefault(a.key, a)
        for q in a.args: go(q, bs)
    go(x, bound)
    return acc


def simplify(x):
    """evaluate guards, if-terms and empty bases under the decisions in force"""
    x = enc(x)
    if isinstance(x, Const): return x
    if isinstance(x, Seq):
        out = []
        for p in x.parts:
            g = set(); dead = False
            for a, v in p.guard:
                d = decided(a)
                if d is None: g.add((a, v))
                elif d != v: dead = True
            if dead: continue
            g = frozenset(g)
            if isinstance(p, E):
                v = p.v
                if sym(v): v = unc(simplify(v))
                out.append(E(v, g))
            elif isinstance(p, For):
                if decided(le(p.base.len, 0)) is True: continue
                b = simplify(p.body)
                if not b.parts: continue
                out.append(For(p.k, p.base, b, g))
            else: out.append(p)
        return Seq(out)
    if x.op == "ite":
        d = decided(unc(x.args[0]))
        if d is not None: return simplify(x.args[1] if d else x.args[2])
    if not x.args: return x
    if isinstance(x, Lin):
        r = x.c
        for a, q in x.terms: r = add(r, scale(q, unc(simplify(a))))
        return enc(r)
    return enc(rebuild(x.op, [simplify(a) for a in x.args], x.kind))


def decided(c):
    if isinstance(c, bool): return c
    if c.op == "not":
        d = decided(c.args[0]); return None if d is None else not d
    if c.op == "and":
        ds = [decided(a) for a in c.args]
        return False if False in ds else None if None in ds else True
    if c.op in ("le0", "eq0"):
        t, q, i = lin_of(c.args[0])
        if not t: return q <= 0 if c.op == "le0" else q == 0
    k = c.key
    for s in SCOPES:
        for a, v in s.trail:
            if a.key == k: return v
    return infer(c)


def diff(a, b, where="result"):
    """None if a and b are equal in every case, else a description"""
    a, b = simplify(a), simplify(b)
    if a.key == b.key: return None
    # split on an undecided condition
    ats = [t for t in {**atoms_of(a, {}), **atoms_of(b, {})}.values() if decided(t) is None]
    if ats:
        ats.sort(key=lambda t: len(repr(t.key)))
        t = ats[0]
        for v in (True, False):
            s = Scope(None); s.trail = [[t, v]]
            SCOPES.append(s)
            try: r = diff(a, b, where)
            finally: SCOPES.pop()
            if r: return f"{r} [{'' if v else 'not '}{t!r}]"
        return None
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.parts) != len(b.parts): return f"{where}: {a!r} is not {b!r}"
        for j, (p, q) in enumerate(zip(a.parts, b.parts)):
            w = f"{where}[{j}]"
            if isinstance(p, E) and isinstance(q, E): r = diff(p.v, q.v, w)
            elif isinstance(p, For) and isinstance(q, For):
                if p.base.len.key != q.base.len.key: return f"{w}: loop over {p.base!r} instead of {q.base!r}"
                k = fresh()
                s = Scope(None); s.trail = [[le(p.base.len, 0), False]] if not isinstance(le(p.base.len, 0), bool) else []
                SCOPES.append(s)
                try: r = diff(subst(p.body, {p.k.key: k}), subst(q.body, {q.k.key: k}), w)
                finally: SCOPES.pop()
            else: return f"{w}: {p!r} is not {q!r}"
            if r: return r
        return None
    if isinstance(a, Tm) and isinstance(b, Tm):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.c == b.c and len(a.terms) == len(b.terms) and all(x[1] == y[1] for x, y in zip(a.terms, b.terms)):
                return _pair([x for x, _ in a.terms], [y for y, _ in b.terms], where, a, b)
        elif a.op == b.op and len(a.args) == len(b.args) and a.args:
            if a.op == "mul": return _pair(a.args, b.args, where, a, b)
            for x, y in zip(a.args, b.args):
                r = diff(x, y, where)
                if r: return r
            return None
    return f"{where}: {a!r} is not {b!r}"


def _pair(xs, ys, where, a, b):
    """some bijection of equal elements"""
    ys = list(ys)
    for x in xs:
        for j, y in enumerate(ys):
            if diff(x, y, where) is None: ys.pop(j); break
        else: return f"{where}: {a!r} is not {b!r}"
    return None


# ------------------------------------------------------------------ contracts
class SeqContract:
    """run() -> (label, result, specification)s on the shadow module, in every case"""
    def __init__(self, name, run, functions=(), limit=60):
        self.name = name; self.run = run; self.functions = functions; self.limit = limit
        self.bounded = None; self.sampled = None


def prove(c):
    """-> list of (label, problem or None, thresholds)"""
    out = []
    COUNT[0] = 0
    def one():
        r = c.run()
        res = []
        for label, got, want in r:
            p = diff(got, want) if not isinstance(want, types.FunctionType) else want(got)
            sizes = {}
            if p:
                for s in SCOPES:
                    for a, v in s.trail:
                        q = bound_atom(a)
                        if q is not None: sizes.setdefault(repr(q[0].args[0]), []).append((q[1], q[2], v))
            res.append((label, p, sizes, repr(lits(frozenset((a, v) for s in SCOPES for a, v in s.trail)))))
        return res
    for g, rs in run_all(None, one): out += rs
    return out


ASSUMED = ["sequence contracts (engine/seqs.py): the extraction drops decorators other than classmethod, staticmethod, property and dispatch, annotations, and the laziness of generators",
           "sequence contracts: functions of jax, jax.numpy, differt2d.geometry and the user's functions and path methods are free symbols determined by their arguments (no side effects); keys of a mapping are distinct",
           "sequence contracts: path candidates and get_location by their contracts (C21, C18); the compiled graph library by an assumed contract, compared with an independent enumeration in C21"]


def pick(sizes, name, default):
    """a size of the base `name` within the case that failed, as close to the default as possible"""
    lo, hi = 0, None
    for k, cs in sizes.items():
        if k == name or k.startswith("*") and k[1:] in name:
            for op, c, v in cs: lo, hi = narrow(lo, hi, (None, op, c), v)
    return max(lo, default if hi is None else min(hi, default))


def literals(hi=300):
    """the integers from 5 to `hi` that occur in the package, as sums, products, powers and shifts of literals: candidates for a size at which the code changes its behaviour"""
    import differt2d, pathlib
    found = set()
    ops = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Pow: lambda a, b: a ** b if 0 <= b < 12 else None, ast.LShift: lambda a, b: a << b if 0 <= b < 12 else None}
    def ev(n):
        if isinstance(n, ast.Constant) and type(n.value) is int: return n.value
        if isinstance(n, ast.BinOp) and type(n.op) in ops:
            a, b = ev(n.left), ev(n.right)
            if a is not None and b is not None and abs(a) < 1 << 16 and abs(b) < 1 << 16: return ops[type(n.op)](a, b)
    for f in sorted(pathlib.Path(differt2d.__file__).parent.glob("*.py")):
        try: t = ast.parse(f.read_text())
        except Exception: continue
        for n in ast.walk(t):
            v = ev(n) if isinstance(n, (ast.Constant, ast.BinOp)) else None
            if v is not None and 5 <= abs(v) <= hi: found.add(abs(v))
    return sorted(found)


def replay(runner, cname, native, outs, why):
    """an obligation that is not discharged: the real code is executed in the cases that failed, then at sizes just above every number written in the package"""
    import time, traceback
    seen = []
    t0 = time.time()
    stop = [False]
    def attempt(choose, label, text):
        used = {}
        def size(name, default):
            used[name] = choose(name, default)
            if used[name] > 400: raise Unsupported("size")
            return used[name]
        try: msg = native(cname, size)
        except Unsupported: msg = None
        except BaseException as e:                      # a panic of the compiled graph library is no Exception
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            import differt2d
            root = os.path.dirname(differt2d.__file__)
            inside = any(f.filename.startswith(root) for f in traceback.extract_tb(e.__traceback__))     # otherwise the harness failed, not the code
            msg = f"raises {type(e).__name__}: {str(e)[:300]}" if inside else None
        if used not in seen:
            seen.append(used)
            if msg:
                runner.add_violation({"contract": cname, "failed": [label], "inputs": dict(used), "outputs": msg, "verifier": f"not discharged: {text}"[:3000]}, True)
                stop[0] = True
        return used
    for label, p, sizes, case in outs:
        if len(seen) > 6: break
        attempt(lambda n, d: pick(sizes, n, d), label, f"in case {case}: {p}")
        if stop[0]: return
    label, text = (outs[0][0], f"in case {outs[0][3]}: {outs[0][1]}") if outs else ("contract", why)
    names = list(attempt(lambda n, d: d, label, text))
    for v in [c + 1 for c in literals()] + [24]:
        for n in names:
            if stop[0] or time.time() - t0 > 60 or time.time() - runner.t0 > 240: return
            attempt(lambda m, d: v if m == n else d, label, text)


def run(runner, contracts, native=None):
    """like symc.run: contracts out of reach or not discharged are recorded and the bounded contracts decide.  native(name, size) executes the real code on an input within the
    case that failed, size(base, default) giving its sizes: -> None or a description of the violation"""
    from . import verify as V
    import time, traceback
    try: contracts = list(contracts() if callable(contracts) else contracts)
    except Exception as e:
        runner.extra["sequence_contracts_not_applicable"] = f"{type(e).__name__}: {str(e)[:300]}"
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        return
    for a in ASSUMED:
        if a not in runner.extra_assumptions: runner.extra_assumptions.append(a)
    only = os.environ.get("VERIF_ONLY")
    mine = [c for k, c in enumerate(contracts) if (runner.count + k) % runner.shard[1] == runner.shard[0] and (not only or only in c.name)]
    runner.count += len(contracts)
    for c in mine:
        res = V.Result(c); runner.results.append(res); res.sym = True
        t0 = time.time()
        try:
            with V.limit(c.limit): outs = prove(c)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            res.error = f"not applicable: {type(e).__name__}: {str(e)[:200]}"
            if os.environ.get("VERIF_DEBUG"): print("   ", c.name, file=sys.stderr); traceback.print_exc()
            if native: replay(runner, c.name, native, [], f"{type(e).__name__}: {str(e)[:600]}")
            continue
        finally: SCOPES.clear()
        bad = {}
        labels = []
        for label, p, sizes, case in outs:
            if label not in labels: labels.append(label)
            if p and label not in bad: bad[label] = (p, sizes, case)
        for label in labels:
            ok = label not in bad
            res.obls.append({"label": label, "contract": c.name, "status": "proved" if ok else "undecided", "by": "sequence normal forms, all cases" if ok else "sampled only", "s": round((time.time() - t0) / len(labels), 3)})
            if os.environ.get("VERIF_DEBUG"): print("   ", c.name, label, "proved" if ok else bad[label], file=sys.stderr)
        if native and os.environ.get("VERIF_REPLAY"): replay(runner, c.name, native, [], "self-test of the replays")
        if bad:
            res.error = "not applicable: not discharged: " + ", ".join(bad)
            if native: replay(runner, c.name, native, [o for o in outs if o[1]], "")
