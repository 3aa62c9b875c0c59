"""Contracts for every size: programs traced with symbolic dimensions, goals at free indices, inductions over recursors."""
import contextlib
import os
import sys
import time
import traceback
import types

import numpy as np
import jax
import jax.numpy as jnp
from jax import export

from .terms import *
from . import interp, solve, symsize
from . import verify as V
from .interp import F, Unsupported
from .symsize import A, FACTS, elem, Rec, force
from .extract import Stacked, Unsupported as _U


class S:
    """input with symbolic dimensions: shape entries are ints or dimension names (also 'n+1')"""
    def __init__(self, kind, *shape, pos=None): self.kind = kind; self.shape = shape; self.pos = pos


def sreal(*shape, pos=None): return S("real", *shape, pos=pos)
def sint(*shape): return S("int", *shape)
def sbool(*shape): return S("bool", *shape)


class SymContract:
    """fn(inputs, dims) -> outputs on the real code; proof(p) states the postconditions with p.goal/p.induct"""
    def __init__(self, name, dims, inputs, fn, proof, functions=(), mode=False, stubs=(), timeout=10.0, trace_limit=90, optional=True):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.bounded = None


class Proof:
    def __init__(self, c, a, o, dims):
        self.c = c; self.a = a; self.o = o; self.d = dims; self.hyps = []; self.goals = []
        self.recs = list(symsize.RECS)

    # -- access
    def val(self, x, *idx):
        e = self.el(x, *idx)
        return e.v if isinstance(e, F) else e

    def el(self, x, *idx):
        if isinstance(x, (F, T)): return x
        return elem(x, idx)

    def safe(self, x, i):
        """element i of a vector, some value when i is out of range"""
        i = lift(i)
        if FACTS.decide(conj(le(ZERO, i), lt(i, lift(x.shape[0])))) is TRUE: return self.val(x, i)
        if FACTS.decide(disj(lt(i, ZERO), le(lift(x.shape[0]), i))) is TRUE: return ZERO
        FACTS.push(i, lift(x.shape[0]) - 1 - i)
        try: return self.val(x, i)
        finally: FACTS.pop()

    def vec(self, x, *idx, n=2): return [self.val(x, *idx, j) for j in range(n)]

    def special(self, x, *idx):
        e = self.el(x, *idx)
        return disj(e.nan, e.pinf, e.ninf)

    def index(self, name, lo, hi):
        """a free integer lo <= i < hi"""
        lo, hi = lift(lo), lift(hi)
        i = var(name, "R", "nonneg" if FACTS.nonneg(lo) else None, True)
        FACTS.push(i - lo, hi - 1 - i)
        return i

    @contextlib.contextmanager
    def free(self, *specs):
        """free integers, in range inside the block only: goals outside do not assume the ranges to be non-empty"""
        FACTS.push()
        mark = len(FACTS.st)
        try:
            r = [self.index(*s) for s in specs]
            yield r[0] if len(r) == 1 else r
        finally:
            while len(FACTS.st) >= mark: FACTS.pop()

    def require(self, *ts): self.hyps.extend(lift(t) for t in ts)

    def range(self, *ts):
        """facts about indices as hypotheses"""
        return [le(ZERO, t) for t in FACTS.all()]

    # -- obligations
    def goal(self, label, g, hyps=(), cut=()):
        self.goals.append((label, conj(*self.range(), *self.hyps, *[lift(h) for h in hyps]), lift(g), tuple(cut)))

    def unfold(self, r, i):
        """the recursion equation of step i, as a hypothesis (i in range)"""
        i = lift(i)
        new, _ = r.step(i, r.at(r.taken(i)))
        cur = r.at(r.given(i))
        rng = FACTS.decide(conj(le(ZERO, i), lt(i, r.L)))
        eqs = []
        for j in range(r.nk):
            if j in r.closed: continue
            if not all(isinstance(d, int) for d in cur[j].shape): raise Unsupported("unfolding an array of symbolic size")
            for ix in np.ndindex(cur[j].shape):
                x, y = elem(cur[j], ix), elem(new[j], ix)
                eqs.append(eqF(x, y))
        return conj(implies(rng, conj(*eqs)), self.boundary(r, r.taken(i)))

    def body(self, v, k):
        """element k of the reduction whose value is the opaque term v"""
        if v not in symsize.BIG: raise Unsupported("not a reduction over a symbolic axis")
        kind, n, b, body = symsize.BIG[v]
        for t in topo([body]):
            f = symsize.FREE.get(t) if t.op == "v" else symsize.FREE.get(t.args[0].split("|")[0]) if t.op == "app" else None
            if f and b in f: raise Unsupported("nested reduction")
        return kind, subst(body, {b: lift(k)})

    def least(self, v, k):
        """the axiom of reductions at index k: argmin's element, the minimum or the maximum against element k; all/any against it"""
        kind, e = self.body(v, k)
        rng = FACTS.decide(conj(le(ZERO, lift(k)), lt(lift(k), symsize.BIG[v][1])))
        if kind == "argmin": r = le(self.body(v, v)[1], e)
        elif kind == "argmax": r = le(e, self.body(v, v)[1])
        elif kind == "min": r = le(v, e)
        elif kind == "max": r = le(e, v)
        elif kind == "and": r = implies(v, e)
        elif kind == "or": r = implies(e, v)
        else: raise Unsupported(kind)
        return implies(rng, r)

    def step(self, r, i):
        """(carry before, carry after) of step i; the former opaque, the latter in terms of it: by the recursion equation
        they are the carries at positions taken(i) and given(i)"""
        i = lift(i)
        if FACTS.decide(conj(le(ZERO, i), lt(i, r.L))) is not TRUE: raise Unsupported("step out of range")
        before = r.at(r.taken(i))
        return before, r.step(i, before)[0]

    def boundary(self, r, i):
        """the carry at position i is the initial one when i is the first position"""
        first = FACTS.decide(eq(i, r.L if r.reverse else ZERO))
        if first is FALSE or first is TRUE: return TRUE
        cur = r.at(i); eqs = []
        for j in range(r.nk):
            if j in r.closed or not all(isinstance(d, int) for d in cur[j].shape): continue
            for ix in np.ndindex(cur[j].shape): eqs.append(eqF(elem(cur[j], ix), elem(r.init[j], ix)))
        return implies(first, conj(*eqs))

    def induct(self, label, recs, inv, hyps=(), cut=None, at=None, inner=None):
        """inv(i, [carry of each rec]) holds at every position: obligations for the first position and one arbitrary step
        (three obligations when `at` is given: before, at and after that index).
        inner(what, i, pre, recursors): hypotheses about the loops inside one step, proved by further inductions.
        Returns inst(i): the invariant at position i, as a hypothesis (i in range)."""
        recs = recs if isinstance(recs, (list, tuple)) else [recs]
        L = recs[0].L; rev = recs[0].reverse
        for r in recs[1:]:
            if FACTS.decide(eq(r.L, L)) is not TRUE or r.reverse != rev: raise Unsupported("inductions over different ranges")
        start = L if rev else ZERO
        self.goal(f"{label}: base", inv(start, [r.init for r in recs]), [h for h in hyps if not callable(h)])
        gi = var(f"#s{recs[0].depth}", "R", "nonneg", True)
        cases = [("step", gi, ())]
        if at is not None: cases = [("step before", gi, (lift(at) - gi - 1,)), ("step", lift(at), ()), ("step after", gi, (gi - lift(at) - 1,))]
        for what, i, facts in cases:
            FACTS.push(i, L - 1 - i, *facts)
            try:
                before = []
                for q, r in enumerate(recs):
                    d = r.depth
                    r.depth = f"{d}_{q}"
                    try: g = r.generic()
                    finally: r.depth = d
                    for j, f in r.closed.items(): g[j] = symsize.box(f(r.taken(i)))
                    before.append(g)
                mark = len(symsize.RECS)
                after = [r.step(i, g)[0] for r, g in zip(recs, before)]
                nested = symsize.RECS[mark:]
                pre = inv(recs[0].taken(i), before)
                more = inner(what, i, pre, nested) if inner else []
                post = inv(recs[0].given(i), after)
                self.goal(f"{label}: {what}", post, [pre] + more + [h(i) if callable(h) else h for h in hyps], cut=cut(i, before) if cut else ())
            finally: FACTS.pop()
        def inst(i):
            i = lift(i)
            rng = FACTS.decide(conj(le(ZERO, i), le(i, L)))
            return implies(rng, inv(i, [r.at(i) for r in recs]))
        return inst


def eqF(x, y):
    if not isinstance(x, F): return eq(x, y)
    if x.finite and y.finite: return eq(x.v, y.v)
    return conj(iff(x.nan, y.nan), iff(x.pinf, y.pinf), iff(x.ninf, y.ninf), disj(x.special, eq(x.v, y.v)))


def _prove(phi):
    r, _, _ = solve.check_unsat(phi, 6.0, True)
    return r == "unsat"


def trace(c):
    dims = ", ".join(c.dims)
    cons = [f"{d} >= {lb}" for d, lb in c.dims.items()]
    if dims:
        sy = export.symbolic_shape(dims, constraints=cons)
        sd = dict(zip(c.dims, sy))
    else: sd = {}
    tv = {d: var(d, "R", "pos" if lb >= 1 else "nonneg", True) for d, lb in c.dims.items()}
    symsize.reset(tv, [tv[d] - lb for d, lb in c.dims.items()])
    symsize.PROVE[0] = _prove
    def size(s): return s if isinstance(s, int) else eval(s, {}, dict(sd))
    names = list(c.inputs)
    specs = []
    for n in names:
        s = c.inputs[n]
        dt = {"real": jnp.float32, "int": jnp.int32, "bool": jnp.bool_}[s.kind]
        specs.append(jax.ShapeDtypeStruct(tuple(size(x) for x in s.shape), dt))
    tree = [None]
    def flat(*xs):
        out = c.fn(types.SimpleNamespace(**dict(zip(names, xs))), types.SimpleNamespace(**sd))
        leaves, td = jax.tree_util.tree_flatten(out)
        tree[0] = td
        return [jnp.asarray(l) for l in leaves]
    with V.global_mode(c.mode, c.stubs):
        jax.clear_caches()
        jx = jax.jit(flat).trace(*specs).jaxpr
    ins = {}
    for n, sp in zip(names, specs):
        s = c.inputs[n]
        k = {"real": "F", "int": "I", "bool": "B"}[s.kind]
        sh = symsize.shape_of(sp.shape)
        def at(ix, n=n, k=k, s=s): return symsize.scalar(("nn:" if s.pos else "") + n, ix, k, True) if any(not isinstance(q, int) for q in sh) else _plain(n, ix, s)
        ins[n] = symsize.arr(sh, at)
    outs = symsize.eval_closed(jx, [ins[n] for n in names])
    o = jax.tree_util.tree_unflatten(tree[0], [_B(x) for x in outs])
    o = jax.tree_util.tree_map(lambda b: b.x, o, is_leaf=lambda b: isinstance(b, _B))
    return Proof(c, types.SimpleNamespace(**ins), o, types.SimpleNamespace(**tv))


class _B:
    def __init__(self, x): self.x = x


def _plain(n, ix, s):
    nm = n + "".join(f"[{interp.concrete_int(i)}]" for i in ix)
    if s.kind == "bool": return var(nm, "B")
    if s.kind == "int": return var(nm, "R", None, True)
    return F(var(nm, "R", s.pos))


def generate(c):
    """-> list of (label, hypothesis, goal, cut)"""
    p = trace(c)
    c.proof(p)
    if not p.goals: raise Unsupported("no goal")
    return p.goals


def run(runner, contracts):
    """prove the contracts of this shard; a contract out of reach or not discharged is recorded, and the bounded ones decide"""
    try: contracts = list(contracts() if callable(contracts) else contracts)
    except Exception as e:
        runner.extra["symbolic_sizes_not_applicable"] = f"{type(e).__name__}: {str(e)[:300]}"
        return
    only = os.environ.get("VERIF_ONLY")
    mine = [c for k, c in enumerate(contracts) if (runner.count + k) % runner.shard[1] == runner.shard[0] and (not only or only in c.name)]
    runner.count += len(contracts)
    for c in mine:
        res = V.Result(c); runner.results.append(res)
        if any(q for _, q in runner.violations) and time.time() - runner.t0 > 60: res.error = "not applicable: skipped after a confirmed violation"; continue
        res.sym = True
        try:
            with V.limit(c.trace_limit):
                goals = generate(c)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            res.error = f"not applicable: {type(e).__name__}: {str(e)[:200]}"
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            continue
        finally:
            symsize.PROVE[0] = None
        jobs, owners = [], []
        vacuity = os.environ.get("VERIF_VACUITY"); seen = set()
        for label, hyp, g, cut in goals:
            ob = {"label": label, "contract": c.name, "status": None, "by": None}
            res.obls.append(ob)
            phi = conj(hyp, neg(g))
            if vacuity and hyp is FALSE: print("    CONTRADICTORY hypotheses:", c.name, "|", label, file=sys.stderr)
            if phi is FALSE or g is TRUE:
                ob["status"] = "proved"; ob["by"] = "canonical term identity"; continue
            if vacuity and hyp is not TRUE and hyp not in seen:
                seen.add(hyp)
                if solve.check_unsat(hyp, 2.0, False)[0] == "unsat": print("    CONTRADICTORY hypotheses:", c.name, "|", label, file=sys.stderr)
            if cut: phi = (solve.generalize(phi, list(cut)), phi)
            jobs.append((phi, c.timeout if runner.tier == "quick" else 4 * c.timeout, True)); owners.append((ob, hyp))
        outs = V.run_jobs(jobs, 8 if runner.shard[1] == 1 else 3)
        for (ob, _), (v, m, w, dt) in zip(owners, outs):
            ob["s"] = round(dt, 3)
            if os.environ.get("VERIF_DEBUG"): print("   ", c.name, ob["label"], v, w, round(dt, 2), file=sys.stderr)
            ob["status"], ob["by"] = ("proved", w) if v == "unsat" else ("undecided", f"{v}: {w}")
        if any(o["status"] != "proved" for o in res.obls):
            res.error = "not applicable: not discharged: " + ", ".join(o["label"] for o in res.obls if o["status"] != "proved")
            for o in res.obls:
                if o["status"] != "proved": o["by"] = "sampled only"
