"""Contracts over JAX programs: tracing, obligations, replay, evidence."""
import contextlib
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import types
import zlib

import numpy as np
import jax
import jax.numpy as jnp

from .terms import *
from . import interp, solve, evalt
from .interp import F, Unsupported, emap

SEED = int(os.environ.get("VERIF_SEED", "1"))


class StructViolation(Exception):
    """Raised by a harness when a concrete (non-array) part of a result is wrong."""


class OutOfReach(Exception):
    """Raised by a modular harness when the code no longer has the shape its callee stubs assume: the contract
    is then not applicable (noted, nothing is claimed by it) and the bounded contracts of the property decide."""


# ------------------------------------------------------------------ inputs
class In:
    def __init__(self, kind, shape=(), pos=None, lo=None, hi=None, pool=None):
        self.kind = kind; self.shape = tuple(shape); self.pos = pos; self.lo = lo; self.hi = hi; self.pool = pool


def real(*shape, pos=None, pool=None): return In("real", shape, pos=pos, pool=pool)
def posreal(*shape, pool=None): return In("real", shape, pos="pos", pool=pool)
def ext(*shape): return In("ext", shape)          # finite, +-inf or NaN
def boolean(*shape): return In("bool", shape)
def integer(*shape, lo=0, hi=3): return In("int", shape, lo=lo, hi=hi)
def key(): return In("key", (2,))


def build_sym(name, s, hyps):
    out = np.empty(s.shape, dtype=object)
    if s.kind == "key":
        k = var(name, "K")
        for j in range(2): out[j] = app(f"keyword{j}", k)
        return out
    for i in np.ndindex(s.shape):
        n = name + "".join(f"[{j}]" for j in i)
        if s.kind == "real": out[i] = F(var(n, "R", s.pos))
        elif s.kind == "ext":
            nan, p, m = (var(f"{n}:{q}", "B") for q in ("nan", "+inf", "-inf"))
            hyps.append(conj(neg(conj(nan, p)), neg(conj(nan, m)), neg(conj(p, m))))
            out[i] = F(var(n), nan, p, m)
        elif s.kind == "bool": out[i] = var(n, "B")
        elif s.kind == "int":
            out[i] = var(n, "R", None, True)
            hyps.append(conj(le(const(s.lo), out[i]), le(out[i], const(s.hi))))
    return out


def example(s):
    if s.kind in ("real", "ext"): return jnp.ones(s.shape) if s.pos else jnp.zeros(s.shape)
    if s.kind == "bool": return jnp.zeros(s.shape, bool)
    if s.kind == "int": return jnp.zeros(s.shape, jnp.int32)
    return jax.random.PRNGKey(0)


def sample_inputs(specs, rng, n):
    """dict name -> numpy array (n, *shape)"""
    out = {}
    lattice = np.array([0.0, 0.0, 0.25, 0.5, 0.5, 0.75, 1.0, 1.0, -0.25, -0.5, -1.0, 2.0, -2.0, 1.5])
    coarse = np.array([0.0, 1.0, -1.0, 2.0, 0.5])
    mode = rng.integers(0, 7, size=n)
    big = np.array([1.0, 1.0, 1.0, 16.0, 1024.0, 2.0 ** -6])
    sc = big[rng.integers(0, len(big), size=n)]
    for nm, s in specs.items():
        sh = (n,) + s.shape
        md = mode.reshape((n,) + (1,) * len(s.shape)); scl = sc.reshape(md.shape)
        if s.kind in ("real", "ext"):
            a = lattice[rng.integers(0, len(lattice), size=sh)]
            b = coarse[rng.integers(0, len(coarse), size=sh)]
            c = np.round(rng.normal(size=sh) * 64) / 64
            d = rng.integers(0, 65, size=sh) / 64.0
            f = np.round(rng.normal(size=sh) * 2 ** 18) / 2 ** 18
            v = np.where(md == 0, a, np.where(md == 1, b, np.where(md == 2, c, np.where(md == 3, d, np.where(md == 4, a * scl, np.where(md == 5, c * scl, f))))))
            if s.pool is not None:
                p = np.asarray(s.pool, float)
                v = p[rng.integers(0, len(p), size=sh)]
            if s.pos == "pos": v = np.where(np.abs(v) == 0, 1.0, np.abs(v))
            if s.pos == "nonneg": v = np.abs(v)
            if s.kind == "ext":
                q = rng.integers(0, 6, size=sh)
                v = np.where(q == 0, np.inf, np.where(q == 1, -np.inf, np.where(q == 2, np.nan, v)))
            out[nm] = v
        elif s.kind == "bool": out[nm] = rng.integers(0, 2, size=sh).astype(bool)
        elif s.kind == "int": out[nm] = rng.integers(s.lo, s.hi + 1, size=sh)
        else: out[nm] = rng.integers(0, 2 ** 31, size=sh).astype(np.uint32)
    return out


def harvest(roots):
    """magnitudes of the numeric constants of the terms"""
    ks = set()
    for t in topo(roots):
        if t.op == "c" and t.sort == "R": ks.add(abs(t.args[0]))
        elif t.op == "add":
            k = t.args[0]
            for _, q in t.args[1]:
                ks.add(abs(q))
                if k: ks.add(abs(k / q))
    ks = sorted(float(k) for k in ks if k and Fr(1, 10 ** 9) <= k <= 10 ** 9)
    return ks if len(ks) <= 40 else ks[:20] + ks[-20:]


def sample_around(specs, vals, ks, rng, n):
    """vals with some reals replaced by values at the scale of the given constants, and some samples scaled as a whole"""
    ks = np.array(ks or [1.0])
    out = {}
    how = rng.integers(0, 3, size=n)
    whole = 10.0 ** rng.integers(-4, 5, size=n)
    pow2 = 2.0 ** rng.integers(-16, 17, size=n)
    for nm, s in specs.items():
        v = vals[nm]
        if s.kind not in ("real", "ext") or s.pool is not None and s.pos is None:
            out[nm] = v; continue
        sh = v.shape; ex = (n,) + (1,) * (v.ndim - 1)
        k = ks[rng.integers(0, len(ks), size=sh)]
        k = np.where(rng.integers(0, 3, size=sh) == 0, 1.0 / k, k)
        k = k * np.array([1, 1, -1, 2, .5, 4, .25, -2])[rng.integers(0, 8, size=sh)]
        w = np.where(rng.integers(0, 2, size=sh) == 0, k, v)
        u = np.where(how.reshape(ex) == 0, w, v * np.where(how == 1, whole, pow2).reshape(ex))
        if s.pos == "pos": u = np.where(np.abs(u) == 0, 1.0, np.abs(u))
        if s.pos == "nonneg": u = np.abs(u)
        out[nm] = np.where(np.isfinite(v), u, v)
    return out


def term_env(specs, vals, vec=True):
    """terms -> values; vals: dict name -> array ((n,)+shape when vec)."""
    env = {}
    for nm, s in specs.items():
        v = vals[nm]
        if s.kind == "key":
            env[var(nm, "K")] = (v[..., 0].astype(float) / 2 ** 32)
            continue
        for i in np.ndindex(s.shape):
            n = nm + "".join(f"[{j}]" for j in i)
            x = v[(slice(None),) + i] if vec else v[i]
            if s.kind == "real": env[var(n, "R", s.pos)] = x
            elif s.kind == "ext":
                env[var(n)] = np.where(np.isfinite(x), x, 0.0)
                env[var(f"{n}:nan", "B")] = np.isnan(x); env[var(f"{n}:+inf", "B")] = np.isposinf(x); env[var(f"{n}:-inf", "B")] = np.isneginf(x)
            elif s.kind == "bool": env[var(n, "B")] = x
            else: env[var(n, "R", None, True)] = x
    return env


def vals_from_model(specs, model):
    out = {}
    for nm, s in specs.items():
        if s.kind == "key":
            out[nm] = np.array([0, 42], np.uint32); continue
        a = np.zeros(s.shape, dtype={"real": float, "ext": float, "bool": bool, "int": int}[s.kind])
        for i in np.ndindex(s.shape):
            n = nm + "".join(f"[{j}]" for j in i)
            if s.kind == "real":
                x = float(model.get(var(n, "R", s.pos), 1 if s.pos else 0)); a[i] = x
            elif s.kind == "ext":
                x = float(model.get(var(n), 0))
                if model.get(var(f"{n}:nan", "B")): x = math.nan
                if model.get(var(f"{n}:+inf", "B")): x = math.inf
                if model.get(var(f"{n}:-inf", "B")): x = -math.inf
                a[i] = x
            elif s.kind == "bool": a[i] = bool(model.get(var(n, "B"), False))
            else: a[i] = int(model.get(var(n, "R", None, True), s.lo))
        out[nm] = a
    return out


def to_jax(specs, vals):
    ns = types.SimpleNamespace()
    for nm, s in specs.items():
        v = vals[nm]
        if s.kind in ("real", "ext"): v = jnp.asarray(np.asarray(v, float))
        elif s.kind == "int": v = jnp.asarray(np.asarray(v, np.int32))
        elif s.kind == "key": v = jnp.asarray(np.asarray(v, np.uint32))
        else: v = jnp.asarray(np.asarray(v, bool))
        setattr(ns, nm, v)
    return ns


class NS:
    """attribute view of a dict of object arrays; scalars unwrapped"""
    def __init__(self, d): self.__dict__.update(d)


def unwrap(a, raw):
    if raw: return a[()] if a.shape == () else a
    b = emap(lambda x: x.v if isinstance(x, F) else x, a)
    return b[()] if b.shape == () else b


# ------------------------------------------------------------------ global configuration
_CUR = [None]
NATIVE = [False]        # True while a postcondition is evaluated on concrete outputs


def configure(cfg):
    """cfg: (approx_global, stub key). Clear JAX caches when it changes."""
    if _CUR[0] != cfg:
        jax.clear_caches()
        _CUR[0] = cfg


@contextlib.contextmanager
def global_mode(value, stubs=()):
    import differt2d.logic as L
    old = L.ENABLE_APPROX
    configure((value, tuple(sorted(stubs))))
    L.ENABLE_APPROX = value
    try:
        with contextlib.ExitStack() as st:
            from . import stubs as S
            for s in stubs: st.enter_context(S.installed(s))
            yield
    finally:
        L.ENABLE_APPROX = old


class TooSlow(BaseException): pass


@contextlib.contextmanager
def limit(seconds):
    import signal
    import threading
    if threading.current_thread() is not threading.main_thread():
        yield; return
    fired = []
    def go(*_):
        fired.append(1); raise TooSlow(f"symbolic evaluation took more than {seconds} s")
    old = signal.signal(signal.SIGALRM, go)
    signal.alarm(int(seconds))
    try: yield
    except TooSlow as e: raise Unsupported(str(e)) from None
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, name, inputs, fn, ensures, requires=None, functions=(), bounded=None, mode=False,
                 stubs=(), raw=False, finite=True, gen=None, timeout=8.0, samples=600, native=True, tol=1e-6,
                 native_samples=24, note=None, known=None, static=None, cut=None, optional=False, trace_limit=60, eager=False):
        self.__dict__.update(locals()); del self.__dict__["self"]


class Result:
    def __init__(self, c): self.c = c; self.obls = []; self.violation = None; self.notes = []; self.native_runs = 0; self.error = None


def trace(c, stubs=None):
    """-> (input object arrays, hyps, output object arrays, treedef)"""
    hyps = []
    sym = {n: build_sym(n, s, hyps) for n, s in c.inputs.items()}
    names = list(c.inputs)
    tree = [None]
    def flat(*xs):
        ns = types.SimpleNamespace(**dict(zip(names, xs)))
        out = c.fn(ns)
        leaves, td = jax.tree_util.tree_flatten(out)
        tree[0] = td
        return [jnp.asarray(l) for l in leaves]
    with global_mode(c.mode, c.stubs if stubs is None else stubs):
        cj = jax.make_jaxpr(flat)(*[example(c.inputs[n]) for n in names])
    interp.CTX.refute = solve.eager_refute if c.eager else None
    try: outs = interp.eval_closed(cj, [sym[n] for n in names])
    finally: interp.CTX.refute = None
    return sym, hyps, outs, tree[0]


def make_goals(c, sym, outs, td):
    a = NS({n: unwrap(v, False) if not (c.raw and c.inputs[n].kind == "ext") else unwrap(v, True) for n, v in sym.items()})
    o = jax.tree_util.tree_unflatten(td, [_Box(unwrap(x, c.raw)) for x in outs])
    o = jax.tree_util.tree_map(lambda b: b.x, o, is_leaf=lambda b: isinstance(b, _Box))
    req = []
    if c.requires: req = list(c.requires(a))
    ens = c.ensures(a, o) if c.ensures else {}
    return a, req, ens


class _Box:
    def __init__(self, x): self.x = x


def run_native(c, vals, x64):
    from jax.experimental import enable_x64
    ctx = enable_x64() if x64 else contextlib.nullcontext()
    with ctx:
        with global_mode(c.mode):
            out = c.fn(to_jax(c.inputs, vals))
            leaves, td = jax.tree_util.tree_flatten(out)
            return [np.asarray(l) for l in leaves], td


def judge(c, vals, nat, td, tol):
    """3-valued evaluation of requires/ensures on native results."""
    env = {}
    hy = []
    sym = {n: build_sym(n, s, hy) for n, s in c.inputs.items()}
    tv = term_env(c.inputs, {n: np.asarray(v)[None] for n, v in vals.items()})
    for t, x in tv.items():
        x = np.asarray(x).reshape(-1)[0]
        env[t] = bool(x) if t.sort == "B" else (float(x), 0.0)
    outs = []
    for j, x in enumerate(nat):
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            n = f"out{j}" + "".join(f"[{q}]" for q in i)
            v = x[i]
            if x.dtype.kind == "b":
                o[i] = TRUE if v else FALSE
            elif x.dtype.kind in "iu": o[i] = const(int(v))
            else:
                fv = float(v)
                if math.isfinite(fv):
                    t = var(n); env[t] = (fv, tol * (1 + abs(fv))); o[i] = F(t)
                else: o[i] = interp.f_lit(fv)
        outs.append(o)
    NATIVE[0] = True
    try: a, req, ens = make_goals(c, sym, outs, td)
    finally: NATIVE[0] = False
    for r in req + hy:
        if evalt.eval3(lift(r), env) is not True: return "skip", {}
    bad = {}
    for k, g in ens.items():
        r = evalt.eval3(lift(g), env)
        bad[k] = r
    if c.finite and not c.raw:
        for j, x in enumerate(nat):
            if x.dtype.kind == "f" and not np.isfinite(x).all(): bad["finite"] = False
    if any(v is False for v in bad.values()): return "violated", bad
    if any(v is None for v in bad.values()): return "unclear", bad
    return "ok", bad


def native_check(c, vals, res, both=True):
    """Run the real code on one input; returns a violation record or None."""
    last = None
    for x64 in (True, False) if both else (True,):
        tol = c.tol if x64 else max(c.tol, 2e-3)
        try:
            nat, td = run_native(c, vals, x64)
        except StructViolation as e:
            return {"inputs": jsonable(vals), "x64": x64, "failed": [str(e)], "outputs": None}, "violated"
        except Exception as e:
            return {"inputs": jsonable(vals), "x64": x64, "failed": [f"raises {type(e).__name__}: {str(e)[:300]}"], "outputs": None}, "raised"
        res.native_runs += 1
        v, bad = judge(c, vals, nat, td, tol)
        last = v
        if v == "skip": return None, v
        if v == "violated":
            return {"inputs": jsonable(vals), "x64": x64, "failed": [k for k, b in bad.items() if b is False],
                    "outputs": [jsonable(x) for x in nat]}, v
    return None, last


def jsonable(x):
    if isinstance(x, dict): return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, np.ndarray): return x.tolist()
    return x


# ------------------------------------------------------------------ running
_JOBS = []
_END = [float("inf")]      # no solver call starts after this time


def _work(i):
    phi, timeout, hard = _JOBS[i]
    t0 = time.time()
    solve.STATS.update(queries=0, solver_s=0.0, by={})
    left = _END[0] - t0
    if left < 5: return i, "unknown", None, "time budget", dict(solve.STATS), 0.0
    try:
      with limit(min(40 + 6 * timeout, left)):
        r = None
        if isinstance(phi, tuple):
            for alt in phi[:-1]:
                r, m, w = solve.check_unsat(alt, timeout, hard)
                if r == "unsat": w = "cut + " + w; break
            phi = phi[-1]
        if r != "unsat": r, m, w = solve.check_unsat(phi, timeout, hard)
    except Exception as e:
        r, m, w = "unknown", None, f"{type(e).__name__}: {e}"
    mm = None
    if m is not None:
        mm = [(t.args, t.sort, str(v) if not isinstance(v, bool) else v) for t, v in m.items()]
    return i, r, mm, w, dict(solve.STATS), time.time() - t0


def run_jobs(jobs, nproc=8):
    """jobs: list of (phi, timeout, hard).  Forked workers (terms are inherited)."""
    global _JOBS
    _JOBS = jobs
    if not jobs: return []
    out = [None] * len(jobs)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(nproc, len(jobs))) as pool:
        for r in pool.imap_unordered(_work, range(len(jobs))):
            i, v, mm, w, st, dt = r
            with solve._LOCK:
                solve.STATS["queries"] += st["queries"]; solve.STATS["solver_s"] += st["solver_s"]
                for k, n in st["by"].items(): solve.STATS["by"][k] = solve.STATS["by"].get(k, 0) + n
            m = None
            if mm is not None:
                m = {}
                for args, sort, val in mm:
                    m[mk("v", args, sort)] = val if isinstance(val, bool) else Fr(val)
            out[i] = (v, m, w, dt)
    return out


def _approx_only(phi):
    """apps whose axioms are incomplete make SMT models unreliable"""
    return any(t.op == "app" and t.args[0] not in ("sqrt",) for t in topo([phi]))


class Runner:
    def __init__(self, prop, tier, shard=(0, 1), out=None):
        self.prop = prop; self.tier = tier; self.results = []; self.extra_assumptions = []
        self.shard = shard; self.out = out; self.count = 0
        self.t0 = time.time(); _END[0] = self.t0 + 480 if tier == "quick" else float("inf"); self.violations = []; self.known = []; self.manual = []; self.samples = []
        self.extra = {}
        self.root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    # -- obligations decided by concrete/structural means -------------------
    @property
    def first(self): return self.shard[0] == 0

    def mine(self, k):
        """distribute work that is not a Contract over the shards"""
        return k % self.shard[1] == self.shard[0]

    def manual_obligation(self, contract, label, ok, how, detail=None, bounded=None, inputs=None):
        self.manual.append({"contract": contract, "label": label, "ok": bool(ok), "how": how, "bounded": bounded})
        if not ok:
            self.add_violation({"contract": contract, "failed": [label], "detail": detail, "inputs": inputs}, replayed=True)

    def add_violation(self, rec, replayed):
        self.violations.append((rec, replayed))
        if replayed and self.out:
            import pickle
            d = self.dump(); d["args"] = ("other", (), None)
            with open(self.out + ".tmp", "wb") as f: pickle.dump(d, f)
            os.replace(self.out + ".tmp", self.out + ".viol")

    def run(self, contracts):
        jobs = []; owners = []
        contracts = list(contracts)
        names = [c.name for c in contracts]
        assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
        only = os.environ.get("VERIF_ONLY")
        mine = [c for k, c in enumerate(contracts) if (self.count + k) % self.shard[1] == self.shard[0] and (not only or only in c.name)]
        self.count += len(contracts)
        contracts = sorted(mine, key=lambda c: (bool(c.mode), tuple(c.stubs)))
        budget = float(os.environ.get("VERIF_BUDGET", "420" if self.tier == "quick" else "14400"))
        for c in contracts:
            spent = time.time() - self.t0
            if any(q for _, q in self.violations) and spent > 90: break           # a confirmed violation: the rest would only repeat it
            if spent > budget:
                self.add_violation({"contract": c.name, "failed": ["obligations not generated within the time budget"], "inputs": None, "outputs": None}, False); break
            res = Result(c); self.results.append(res)
            rng = np.random.default_rng(SEED * 1000003 + zlib.crc32(c.name.encode()))
            try:
                with limit(c.trace_limit):
                    sym, hyps, outs, td = trace(c)
                    a, req, ens = make_goals(c, sym, outs, td)
            except StructViolation as e:
                res.error = f"structure: {e}"
                res.fallback = True
                self._native_only(c, res, rng, expect=str(e)); continue
            except OutOfReach as e:
                res.error = f"not applicable: {e}"; continue
            except Exception as e:
                res.error = f"{type(e).__name__}: {str(e)[:300]}"
                if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
                self._native_only(c, res, rng); continue
            pre = conj(*[lift(x) for x in hyps + req])
            goals = {k: lift(g) for k, g in ens.items()}
            if c.finite and not c.raw:
                for j, o in enumerate(outs):
                    sp = [x.special for x in o.reshape(-1) if isinstance(x, F)]
                    if sp: goals[f"finite[{j}]"] = neg(disj(*sp))
            # numeric falsification + reachability of the precondition
            n = c.samples
            vals = sample_inputs(c.inputs, rng, n)
            if c.gen:
                for s in range(n):
                    ov = c.gen(rng, s) or {}
                    for k, v in ov.items(): vals[k][s] = v
            keys = list(goals)
            found, prem = self._falsify(c, res, pre, goals, keys, vals, rng)
            res.pre_ok = np.nonzero(prem)[0]
            res.vals = vals
            if not found and goals:
                # a second batch around the constants that occur in the traced code
                ks = harvest([pre] + list(goals.values()))
                r2 = np.random.default_rng(SEED * 1000003 + zlib.crc32(c.name.encode()) + 17)
                found, _ = self._falsify(c, res, pre, goals, keys, sample_around(c.inputs, vals, ks, r2, n), r2)
            if found:
                res.violation = found; self.add_violation(found, True)
            if not len(res.pre_ok):
                jobs.append((pre, 10.0, False)); owners.append((res, "__pre__", None))
            # native conformance of the interpreted semantics
            if not found and c.native:
                for s in res.pre_ok[:1 if self.tier == "quick" else 4]:
                    one = {m: v[s] for m, v in vals.items()}
                    rec, why = native_check(c, one, res, both=self.tier != "quick")
                    if rec:
                        rec["contract"] = c.name; res.violation = rec; self.add_violation(rec, True); break
            for k in keys:
                ob = {"label": k, "contract": c.name, "status": None, "by": None}
                res.obls.append(ob)
                if res.violation and k in (res.violation.get("failed") or []):
                    ob["status"] = "refuted"; continue
                phi = conj(pre, neg(goals[k]))
                if phi is FALSE:
                    ob["status"] = "proved"; ob["by"] = "canonical term identity"; continue
                if c.optional == "sampled":
                    ob["status"] = "undecided"; ob["by"] = "sampled only"; continue
                if c.cut:
                    ph2 = solve.generalize(phi, c.cut(a, self._outs(td, outs, c), k))
                    if ph2 is FALSE:
                        ob["status"] = "proved"; ob["by"] = "canonical term identity"; continue
                    phi = (ph2, phi)
                jobs.append((phi, c.timeout if self.tier == "quick" else 4 * c.timeout, True)); owners.append((res, ob, phi))
        if any(q for _, q in self.violations) and time.time() - self.t0 > 30: jobs, owners = [], []
        outs = run_jobs(jobs, 8 if self.shard[1] == 1 else 3)
        for (res, ob, phi), (v, m, w, dt) in zip(owners, outs):
            c = res.c
            if ob == "__pre__":
                res.notes.append(f"precondition reachability: {v} ({w})")
                res.pre_smt = v
                if v == "unsat": res.error = "VACUOUS: precondition unsatisfiable"
                continue
            if os.environ.get("VERIF_DEBUG"): print("   ", c.name, ob["label"], v, w, round(dt, 2), file=sys.stderr)
            ob["s"] = round(dt, 3)
            if v == "unsat":
                ob["status"] = "proved"; ob["by"] = w
            elif v in ("sat", "sat?") and not res.violation:
                rec = None; why = None
                if m:
                    one = vals_from_model(c.inputs, m)
                    if v == "sat?":
                        pass
                    rec, why = native_check(c, one, res)
                if rec is None:
                    rec, why2 = self._search(c, res, ob["label"])
                if rec:
                    rec["contract"] = c.name; res.violation = rec; ob["status"] = "refuted"
                    self.add_violation(rec, True)
                elif v == "sat" and not _approx_only(phi[-1] if isinstance(phi, tuple) else phi) and why != "ok":
                    ob["status"] = "refuted"
                    rec = {"contract": c.name, "failed": [ob["label"]], "inputs": jsonable(vals_from_model(c.inputs, m or {})),
                           "solver": f"{w}: sat", "outputs": None}
                    res.violation = rec; self.add_violation(rec, False)
                else:
                    ob["status"] = "undecided"; ob["by"] = f"model not confirmed ({why})"
            elif v in ("sat", "sat?"):
                ob["status"] = "refuted"
            else:
                ob["status"] = "undecided"; ob["by"] = w
        # undecided obligations: a second attempt with more time, then bounded native exploration
        und = [(res, ob, phi) for (res, ob, phi) in owners if ob != "__pre__" and ob["status"] == "undecided" and not res.violation]
        for res in {id(x): x for x, _, _ in und}.values():
            if not res.c.native or res.violation: continue
            rec, why = self._search(res.c, res, None)
            if rec: rec["contract"] = res.c.name; res.violation = rec; self.add_violation(rec, True)
        if und and not self.violations:
            for (res, ob, phi), (v, m, w, dt) in zip(und[:6], run_jobs([(phi, 4 * res.c.timeout, True) for res, ob, phi in und[:6]], 3)):
                if v == "unsat": ob["status"] = "proved"; ob["by"] = w + " (second attempt)"
                ob["s"] = round(ob.get("s", 0) + dt, 3)
        for res in self.results:
            bad = [o for o in res.obls if o["status"] == "undecided"]
            if not bad or res.violation: continue
            if res.c.native and not getattr(res, "searched", False):
                rec, why = self._search(res.c, res, None)
                if rec:
                    rec["contract"] = res.c.name; res.violation = rec; self.add_violation(rec, True); continue
            if not res.c.optional:
                rec = {"contract": res.c.name, "failed": [o["label"] for o in bad], "inputs": None, "outputs": None,
                       "verifier": [f"{o['label']}: not discharged ({o['by']})" for o in bad]}
                res.violation = rec; self.add_violation(rec, False)

    def _falsify(self, c, res, pre, goals, keys, vals, rng):
        n = c.samples
        env = term_env(c.inputs, vals)
        try:
            ev = evalt.eval_np([pre] + [goals[k] for k in keys], env)
            prem = np.broadcast_to(np.asarray(ev[0], bool), (n,))
            gv = {k: np.broadcast_to(np.asarray(g, bool), (n,)) for k, g in zip(keys, ev[1:])}
        except Exception as e:
            res.notes.append(f"numeric evaluation failed: {e}")
            return None, np.zeros(n, bool)
        for k in keys:
            cand = np.nonzero(prem & ~gv[k])[0]
            if not len(cand): continue
            phi = conj(pre, neg(goals[k]))
            tried = 0
            for s in cand[rng.permutation(len(cand))[:30]]:
                one = {m: v[s] for m, v in vals.items()}
                e1 = {t: (bool(np.asarray(x).reshape(-1)[s] if np.ndim(x) else x) if t.sort == "B" else (float(x[s]), 0.0)) for t, x in env.items()}
                if evalt.eval3(phi, e1) is not True: continue
                tried += 1
                rec, why = native_check(c, one, res)
                if rec:
                    rec["contract"] = c.name
                    return rec, prem
                if tried >= 8: break
        return None, prem

    @staticmethod
    def _outs(td, outs, c):
        o = jax.tree_util.tree_unflatten(td, [_Box(unwrap(x, c.raw)) for x in outs])
        return jax.tree_util.tree_map(lambda b: b.x, o, is_leaf=lambda b: isinstance(b, _Box))

    def _search(self, c, res, label):
        rng = np.random.default_rng(SEED * 7919 + zlib.crc32(c.name.encode()))
        res.searched = True
        n = c.native_samples if self.tier == "quick" else 5 * c.native_samples
        idx = list(getattr(res, "pre_ok", []))[2:2 + n]
        for s in idx:
            one = {m: v[s] for m, v in res.vals.items()}
            rec, why = native_check(c, one, res)
            if rec: return rec, why
        return None, None

    def _native_only(self, c, res, rng, expect=None):
        """The function could not be brought within reach: bounded exploration of the real code."""
        res.obls.append({"label": "all", "contract": c.name, "status": "undecided", "by": res.error})
        n = c.native_samples * 3
        vals = sample_inputs(c.inputs, rng, n)
        if c.gen:
            for s in range(n):
                for k, v in (c.gen(rng, s) or {}).items(): vals[k][s] = v
        done = 0; raised = 0
        # evaluate the precondition symbolically first
        hyps = []
        sym = {nm: build_sym(nm, s, hyps) for nm, s in c.inputs.items()}
        a = NS({nm: unwrap(v, c.raw and c.inputs[nm].kind == "ext") for nm, v in sym.items()})
        pre = conj(*[lift(x) for x in hyps + (list(c.requires(a)) if c.requires else [])])
        ok = np.broadcast_to(np.asarray(evalt.eval_np([pre], term_env(c.inputs, vals))[0], bool), (n,))
        for s in np.nonzero(ok)[0]:
            one = {m: v[s] for m, v in vals.items()}
            rec, why = native_check(c, one, res)
            if rec:
                rec["contract"] = c.name; res.violation = rec; res.obls[-1]["status"] = "refuted"
                self.add_violation(rec, True); return
            done += 1
            if done >= c.native_samples: break
        if done == 0: res.notes.append("no admissible sample")

    # -- report --------------------------------------------------------------
    def dump(self):
        return {"contracts": [{"name": r.c.name, "bounded": r.c.bounded, "functions": list(r.c.functions), "error": r.error, "notes": r.notes,
                               "native": r.native_runs, "reached": bool(len(getattr(r, "pre_ok", [])) or getattr(r, "pre_smt", "") == "sat"),
                               "obls": r.obls} for r in self.results],
                "manual": self.manual, "violations": self.violations, "known": self.known, "extra": self.extra,
                "assumptions": self.extra_assumptions, "stats": {**solve.STATS}}

    def finish(self, level="proof", trusted=(), explanation=None):
        d = self.dump()
        d["args"] = (level, tuple(trusted), explanation)
        if self.out:
            import pickle
            with open(self.out, "wb") as f: pickle.dump(d, f)
            return 0
        from . import report
        return report.report(self.prop, self.tier, [d], self.t0)


