"""Mechanical extraction of a Python function whose loops run over sequences of symbolic length.

The source of the real function is read from /repo on every run and rewritten, node by node:

    for T in I: B          ->  (v..) = __loop__(lambda-lifted body with T bound and the assigned names v.. as state, I, (v..))
    [e for T in I]         ->  __comp__(lambda T: e, I)            (also generator expressions)
    [a, *b, c], (a, *b)    ->  __seq__(a, Star(b), c)
    x[i:j, k]              ->  __getitem__(x, (slice(i, j), k))
    len, range, enumerate, zip, sum, list, tuple, jnp  ->  versions that also take symbolic sequences

Everything else is untouched, and on ordinary sequences every replacement does exactly what Python does.  Dropped: the
decorators (jit and type checks).  On a symbolic sequence, __loop__ becomes one jax.lax.scan whose body is the rewritten
loop body: the interpreter then reasons about one arbitrary iteration.  Loops with break, continue, return or yield are
left alone (a symbolic sequence cannot be iterated, so the function is then reported out of reach)."""
import ast
import functools
import inspect
import textwrap
import types

import jax
import jax.numpy as jnp
import numpy as np

from .interp import Unsupported

DimExpr = type(jax.export.symbolic_shape("q")[0]) if hasattr(jax, "export") else None
if DimExpr is None:
    from jax import export as _e
    DimExpr = type(_e.symbolic_shape("q")[0])


def is_dim(n): return isinstance(n, DimExpr)


def at_least(a, b):
    """is a >= b for every value of the dimensions? (inconclusive counts as no)"""
    try: return bool(a >= b)
    except Exception: return False


class Idx:
    """loop index plus constant: an integer array that remembers its range"""
    def __init__(self, x, off, lo, hi):           # lo <= x + off <= hi
        self.x = x; self.off = off; self.lo = lo; self.hi = hi

    def shift(self, k): return Idx(self.x, self.off + k, self.lo + k, self.hi + k)
    def arr(self): return self.x + self.off if not (isinstance(self.off, int) and self.off == 0) else self.x
    def __jax_array__(self): return self.arr()
    def _bin(self, o, f):
        return f(self.arr(), o.arr() if isinstance(o, Idx) else o)
    def __add__(self, o): return self.shift(o) if isinstance(o, int) or is_dim(o) else self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, Idx) and o.x is self.x: return self.off - o.off
        return self.shift(-o) if isinstance(o, int) or is_dim(o) else self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return o - self.arr()
    def __mul__(self, o): return self.arr() * o
    __rmul__ = __mul__
    def __mod__(self, o): return self.arr() % o
    def __floordiv__(self, o): return self.arr() // o
    def __neg__(self): return -self.arr()
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __hash__(self): return id(self)
    def __index__(self): raise Unsupported("loop index used as a Python integer")
    def __bool__(self): raise Unsupported("loop index used as a condition")


def plain(x):
    return jax.tree_util.tree_map(lambda v: v.arr() if isinstance(v, Idx) else v, x, is_leaf=lambda v: isinstance(v, Idx))


class Seq:
    """a sequence of symbolic length; get(i: Idx-like) gives element i"""
    def __init__(self, n, get): self.n = n; self.get = get
    def __len__(self): raise Unsupported("length of a symbolic sequence used as a Python integer")
    def __iter__(self): raise Unsupported("iteration over a symbolic sequence")
    def __bool__(self):
        return at_least(self.n, 1) or _u("truth value of a possibly empty sequence")
    def __getitem__(self, i): return item(self, i)


def _u(m): raise Unsupported(m)


class Stacked(Seq):
    """objects stacked in a pytree whose leaves have the symbolic leading dimension"""
    def __init__(self, n, tree):
        self.tree = tree
        super().__init__(n, lambda i: jax.tree_util.tree_map(lambda x: take(x, i), tree))


class Cat:
    """a list display with starred parts of symbolic length: ('e', x) elements and ('s', sequence)"""
    def __init__(self, parts): self.parts = parts
    def __iter__(self): raise Unsupported("iteration over a symbolic list")
    def __len__(self): raise Unsupported("length of a symbolic list")
    @property
    def n(self): return sum((1 if k == "e" else x.n) for k, x in self.parts)
    def rows(self):
        """array of the elements"""
        out = []
        for k, x in self.parts:
            if k == "e": out.append(jnp.asarray(plain(x))[None])
            elif isinstance(x, Stacked): out.append(x.tree)
            else: out.append(jax.vmap(lambda i: x.get(Idx(i, 0, 0, x.n - 1)))(jnp.arange(x.n)))
        return jnp.concatenate([o.astype(jnp.result_type(*out)) for o in out], axis=0)
    def __getitem__(self, i): return take(self.rows(), i)


def take(x, i):
    """x[i] along the leading axis; in range, or out of reach"""
    n = x.shape[0]
    if isinstance(i, Idx):
        if not (at_least(i.lo, 0) and at_least(n, i.hi + 1)): raise Unsupported("index not provably in range")
        return jax.lax.dynamic_index_in_dim(x, i.arr(), 0, keepdims=False)
    if isinstance(i, int) or is_dim(i):
        if not at_least(i, 0): i = n + i
        if not (at_least(i, 0) and at_least(n, i + 1)): raise Unsupported("index not provably in range")
        return jax.lax.index_in_dim(x, i, 0, keepdims=False)
    return x[i]


def item(s, i):
    if isinstance(i, slice): raise Unsupported("slice of a symbolic sequence")
    if isinstance(i, (int, np.integer)) or is_dim(i):
        i = int(i) if not is_dim(i) else i
        j = i if at_least(i, 0) else s.n + i
        return s.get(j)
    return s.get(i)


def symbolic(x):
    return isinstance(x, (Seq, Cat)) or hasattr(x, "shape") and len(x.shape) > 0 and is_dim(x.shape[0]) or is_dim(x) or isinstance(x, Rng)


class Rng(Seq):
    def __init__(self, lo, hi):
        self.lo_, self.hi_ = lo, hi
        super().__init__(hi - lo, lambda i: i + lo)


def seq(x):
    """symbolic view of any sequence"""
    if isinstance(x, Seq): return x
    if isinstance(x, Cat): return Stacked(x.n, x.rows())
    if hasattr(x, "shape"): return Stacked(x.shape[0], x)
    raise Unsupported(f"sequence {type(x).__name__} next to a symbolic one")


class Star:
    def __init__(self, x): self.x = x


class Undefined:
    def __repr__(self): return "<not assigned before the loop>"


UNDEF = Undefined()


# ------------------------------------------------------------------ replacements
def r_len(x):
    if isinstance(x, (Seq, Cat)): return x.n
    if hasattr(x, "shape") and len(x.shape) and is_dim(x.shape[0]): return x.shape[0]
    return len(x)


def r_range(*a):
    if not any(is_dim(x) for x in a): return range(*a)
    if len(a) == 3: raise Unsupported("range with a step")
    return Rng(0, a[0]) if len(a) == 1 else Rng(*a)


def r_enumerate(x, start=0):
    if not symbolic(x): return enumerate(x, start)
    s = seq(x)
    return Seq(s.n, lambda i: (i + start, s.get(i)))


def r_zip(*xs, **k):
    if not any(symbolic(x) for x in xs): return zip(*xs, **k)
    ss = [seq(x) for x in xs]
    n = ss[0].n
    for s in ss[1:]:
        if not (s.n == n): raise Unsupported("zip of different symbolic lengths")
    return Seq(n, lambda i: tuple(s.get(i) for s in ss))


def r_list(x=()):
    return x if symbolic(x) else list(x)


def r_tuple(x=()):
    return x if symbolic(x) else tuple(x)


class Mapped(Seq):
    """[f(e) for e in s]"""
    def __init__(self, s, f):
        super().__init__(s.n, lambda i: f(s.get(i)))
        self.src = s; self.f = f


def r_comp(f, it):
    if not symbolic(it): return [f(x) for x in it]
    return Mapped(seq(it), f)


def r_sum(x, start=0):
    if not symbolic(x): return sum(x, start)
    s = seq(x)
    cell = []
    def probe(i):
        v = s.get(Idx(i, 0, 0, s.n - 1)); cell.append(v)
        return jnp.zeros(())
    jax.eval_shape(jax.vmap(probe), jax.ShapeDtypeStruct((s.n,), jnp.int32))
    v = cell[0]
    if isinstance(v, (int, np.integer)): return start + s.n * int(v)
    raise Unsupported("sum over a symbolic sequence")


def r_seq(kind, *parts):
    out = []; sym = False
    for p in parts:
        if isinstance(p, Star):
            if symbolic(p.x): out.append(("s", seq(p.x))); sym = True
            else: out.extend(("e", v) for v in p.x)
        else: out.append(("e", p))
    if sym: return Cat(out)
    return kind(v for _, v in out)


def _bounds(s, n):
    lo = 0 if s.start is None else s.start
    hi = n if s.stop is None else s.stop
    return lo, hi


def r_getitem(x, idx):
    if isinstance(x, (Seq, Cat)): return item(x, idx) if isinstance(x, Seq) else x[idx]
    if isinstance(x, AtSet): return x[idx]
    ix = idx if isinstance(idx, tuple) else (idx,)
    dyn = lambda v: isinstance(v, Idx)
    if not any(dyn(i) or isinstance(i, slice) and (dyn(i.start) or dyn(i.stop)) for i in ix): return x[idx]
    if not hasattr(x, "shape"): raise Unsupported("symbolic index into a Python object")
    ax = 0
    if len(ix) > len(x.shape): raise Unsupported("too many indices")
    for i in ix:
        if isinstance(i, slice) and i == slice(None): ax += 1; continue
        n = x.shape[ax]
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported("slice step")
            lo, hi = _bounds(i, n)
            if dyn(lo) and dyn(hi) and lo.x is hi.x:
                size = hi.off - lo.off
                if not (at_least(lo.lo, 0) and at_least(n, hi.hi) and at_least(size, 0)): raise Unsupported("slice not provably in range")
                x = jax.lax.dynamic_slice_in_dim(x, lo.arr(), size, ax); ax += 1; continue
            raise Unsupported("slice of symbolic size")
        if dyn(i):
            if not (at_least(i.lo, 0) and at_least(n, i.hi + 1)): raise Unsupported("index not provably in range")
            x = jax.lax.dynamic_index_in_dim(x, i.arr(), ax, keepdims=False); continue
        if isinstance(i, int):
            x = jax.lax.index_in_dim(x, i if i >= 0 else n + i, ax, keepdims=False); continue
        raise Unsupported("mixed symbolic index")
    return x


class AtSet:
    """x.at of an array with symbolic leading dimension"""
    def __init__(self, x): self.x = x
    def __getitem__(self, i):
        return types.SimpleNamespace(set=functools.partial(self._set, i))
    def _set(self, i, v):
        x = self.x; n = x.shape[0]
        if isinstance(i, Idx):
            if not (at_least(i.lo, 0) and at_least(n, i.hi + 1)): raise Unsupported("index not provably in range")
            j = i.arr()
        elif isinstance(i, int):
            j = i if i >= 0 else n + i
            if not (at_least(j, 0) and at_least(n, j + 1)): raise Unsupported("index not provably in range")
            j = j.dimension_as_value() if is_dim(j) else jnp.int32(j)
        else: raise Unsupported("index of an update")
        v = jnp.broadcast_to(jnp.asarray(v), x.shape[1:])
        return jax.lax.dynamic_update_index_in_dim(x, v.astype(x.dtype), j, 0)


def r_at(x):
    if hasattr(x, "shape") and len(x.shape) and is_dim(x.shape[0]): return AtSet(x)
    return x.at


def r_loop(body, it, state):
    """run body(state, element) over the iterable; state entries may be UNDEF"""
    if not symbolic(it) or isinstance(it, (int,)):
        for x in it: state = body(state, x)
        return state
    s = seq(it)
    live = [k for k, v in enumerate(state) if v is not UNDEF and is_state(v)]
    n = s.n
    # names that are bound before the loop but not arrays may not be changed by it
    def step(carry, i):
        st = list(state)
        for k, c in zip(live, carry): st[k] = c
        out = body(tuple(st), s.get(Idx(i, 0, 0, n - 1)))
        for k, (a, b) in enumerate(zip(state, out)):
            if k not in live and a is not UNDEF and b is not a: raise Unsupported("loop changes a variable that is not an array")
        return tuple(jnp.asarray(plain(out[k])).astype(c.dtype) for k, c in zip(live, carry)), None
    init = tuple(jnp.asarray(plain(state[k])) for k in live)
    # promote the state to the type of one iteration (as Python's rebinding would)
    outt = jax.eval_shape(lambda c, i: tuple(jnp.asarray(plain(v)) for v in _probe(body, s, state, live, c, i, n)), init, jax.ShapeDtypeStruct((), jnp.int32))
    for a, b in zip(init, outt):
        if a.shape != b.shape: raise Unsupported("loop changes the shape of its state")
    init = tuple(a.astype(jnp.result_type(a.dtype, b.dtype)) for a, b in zip(init, outt))
    final, _ = jax.lax.scan(step, init, jnp.arange(n, dtype=jnp.int32))
    res = [UNDEF if (v is UNDEF) else v for v in state]
    for k, c in zip(live, final): res[k] = c
    return tuple(res)


def _probe(body, s, state, live, carry, i, n):
    st = list(state)
    for k, c in zip(live, carry): st[k] = c
    out = body(tuple(st), s.get(Idx(i, 0, 0, n - 1)))
    return [out[k] for k in live]


def is_state(v):
    return isinstance(v, (int, float, bool, np.ndarray, np.generic)) or hasattr(v, "dtype") or isinstance(v, Idx)


class JnpProxy:
    """jax.numpy that also takes symbolic lists"""
    def __getattr__(self, k): return getattr(jnp, k)
    @staticmethod
    def _rows(xs, wrap):
        if not isinstance(xs, (Cat, Seq)): return None
        if isinstance(xs, Seq): xs = Cat([("s", xs)])
        return xs.rows()
    def vstack(self, xs, *a, **k):
        if isinstance(xs, Cat):
            if all(jnp.ndim(x) == 1 for q, x in xs.parts if q == "e"):
                r = xs.rows()
                if r.ndim == 2: return r
            raise Unsupported("vstack")
        if isinstance(xs, Seq): return self.vstack(Cat([("s", xs)]))
        return jnp.vstack(xs, *a, **k)
    def array(self, xs, *a, **k):
        r = self._rows(xs, None)
        return jnp.array(xs, *a, **k) if r is None else r
    def asarray(self, xs, *a, **k):
        r = self._rows(xs, None)
        return jnp.asarray(xs, *a, **k) if r is None else r
    def stack(self, xs, axis=0, *a, **k):
        r = self._rows(xs, None)
        return jnp.stack(xs, axis, *a, **k) if r is None else (r if axis == 0 else jnp.moveaxis(r, 0, axis))
    def logical_or(self, a, b): return jnp.logical_or(plain(a), plain(b))
    def logical_and(self, a, b): return jnp.logical_and(plain(a), plain(b))


# ------------------------------------------------------------------ rewriting
def assigned(body):
    names = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in names: names.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in names: names.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for s in body: V().visit(s)
    return names


def has_exit(body):
    class V(ast.NodeVisitor):
        r = False
        def visit_Return(self, n): self.r = True
        visit_Yield = visit_YieldFrom = visit_Break = visit_Continue = visit_Raise = visit_Return
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
    v = V()
    for s in body: v.visit(s)
    return v.r


class Rewrite(ast.NodeTransformer):
    def __init__(self): self.k = 0

    def visit_For(self, n):
        if n.orelse or has_exit(n.body):
            return self.generic_visit(n)
        names = assigned(n.body)
        n = self.generic_visit(n)
        self.k += 1
        f = f"__body_{self.k}"
        tup = "(" + "".join(x + ", " for x in names) + ")"
        src = f"def {f}(__state, __x):\n    {tup + ' = __state' if names else 'pass'}\n    return {tup}"
        fd = ast.parse(src).body[0]
        bind = ast.Assign(targets=[n.target], value=ast.Name("__x", ast.Load()))
        fd.body = [fd.body[0], bind] + n.body + [fd.body[1]]
        st = "(" + "".join(f"__scope.get({x!r}, __undef), " for x in names) + ")"
        pre = ast.parse("__scope = dict(locals())").body
        call = ast.parse(f"{tup if names else '__none'} = __loop({f}, __it, {st})").body[0]
        call.value.args[1] = n.iter
        out = [fd] + pre + [call]
        for x in out: ast.copy_location(x, n); ast.fix_missing_locations(x)
        return out

    def _comp(self, n):
        if len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async: return self.generic_visit(n)
        g = n.generators[0]
        n = self.generic_visit(n)
        g = n.generators[0]
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(e.id) for e in g.target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
            lam = ast.parse("lambda __t: __f(*__t)").body[0].value
            lam.body.func = inner
        else: return n
        return ast.copy_location(ast.Call(ast.Name("__comp", ast.Load()), [lam, g.iter], []), n)

    def visit_ListComp(self, n): return self._comp(n)
    def visit_GeneratorExp(self, n): return self._comp(n)

    def _display(self, n, kind):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in n.elts): return n
        args = [ast.Call(ast.Name("__star", ast.Load()), [e.value], []) if isinstance(e, ast.Starred) else e for e in n.elts]
        return ast.copy_location(ast.Call(ast.Name("__seq", ast.Load()), [ast.Name(kind, ast.Load())] + args, []), n)

    def visit_List(self, n): return self._display(n, "__plist")
    def visit_Tuple(self, n): return self._display(n, "__ptuple")

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load): return n
        return ast.copy_location(ast.Call(ast.Name("__getitem", ast.Load()), [n.value, self._index(n.slice)], []), n)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            nn = lambda v: v if v is not None else ast.Constant(None)
            return ast.Call(ast.Name("__slice", ast.Load()), [nn(s.lower), nn(s.upper), nn(s.step)], [])
        if isinstance(s, ast.Tuple): return ast.Tuple([self._index(e) for e in s.elts], ast.Load())
        return s

    def visit_Attribute(self, n):
        n = self.generic_visit(n)
        if n.attr == "at" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__at", ast.Load()), [n.value], []), n)
        return n

    def visit_FunctionDef(self, n):
        # annotations may mention names that are only meaningful to the type checker
        n.decorator_list = []
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs: a.annotation = None
        if n.args.vararg: n.args.vararg.annotation = None
        if n.args.kwarg: n.args.kwarg.annotation = None
        self.generic_visit_body(n)
        return n

    def generic_visit_body(self, n):
        new = []
        for s in n.body:
            r = self.visit(s)
            new.extend(r if isinstance(r, list) else [r])
        n.body = new
        n.args.defaults = [self.visit(d) for d in n.args.defaults]

    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        if n.value is None: return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_Import(self, n): return n


def unwrap(f):
    """the plain function below jit and type-checking wrappers"""
    seen = set()
    while True:
        if id(f) in seen: raise Unsupported("cannot find the source function")
        seen.add(id(f))
        if type(f).__name__ == "Partial" and hasattr(f, "func"): f = f.func
        elif isinstance(f, (classmethod, staticmethod)): f = f.__func__
        elif isinstance(f, types.MethodType): f = f.__func__
        elif hasattr(f, "__wrapped__"): f = f.__wrapped__
        elif hasattr(f, "_fun"): f = f._fun
        elif isinstance(f, types.FunctionType): return f
        else: raise Unsupported(f"not a plain function: {f!r}")


def extract(f, overrides=None):
    """the rewritten function, in its own module's namespace"""
    g = unwrap(f)
    if g.__closure__: raise Unsupported("closure")
    try: src = textwrap.dedent(inspect.getsource(g))
    except OSError as e: raise Unsupported(f"no source: {e}") from None
    tree = ast.parse(src)
    fd = tree.body[0]
    if not isinstance(fd, ast.FunctionDef): raise Unsupported("not a function definition")
    tree.body[0] = Rewrite().visit(fd)
    ast.fix_missing_locations(tree)
    ns = dict(g.__globals__)
    ns.update(len=r_len, range=r_range, enumerate=r_enumerate, zip=r_zip, sum=r_sum, list=r_list, tuple=r_tuple, __loop=r_loop, __comp=r_comp,
              __seq=r_seq, __star=Star, __plist=list, __ptuple=tuple, __getitem=r_getitem, __slice=slice, __undef=UNDEF, __at=r_at)
    if ns.get("jnp") is jnp: ns["jnp"] = JnpProxy()
    ns.update(overrides or {})
    exec(compile(tree, f"<extracted {g.__qualname__}>", "exec"), ns)
    out = ns[fd.name]
    out.__extracted__ = ast.unparse(tree)
    return out


def stack_contract(s, axis=0, is_leaf=None):
    """stack_leaves on a symbolic sequence of stacked objects: by its contract (C28), the stacked tree"""
    if isinstance(s, Stacked) and axis == 0: return s.tree
    if isinstance(s, Mapped) and axis == 0:
        return jax.vmap(lambda i: s.get(Idx(i, 0, 0, s.n - 1)))(jnp.arange(s.n))
    if symbolic(s): raise Unsupported("stacking")
    from differt2d.geometry import stack_leaves
    return stack_leaves(s, axis, is_leaf) if is_leaf is None else stack_leaves(s, axis=axis, is_leaf=is_leaf)
