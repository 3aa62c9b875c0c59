"""Numeric evaluation of terms: vectorised floats, and 3-valued with error bounds."""
import math
import zlib
import numpy as np
from .terms import *


import functools


@functools.lru_cache(maxsize=4096)
def uf_weights(name, n):
    rng = np.random.RandomState(zlib.crc32(name.encode()) & 0x7FFFFFFF)
    w = rng.randint(-8, 9, size=n) / 8.0
    w = np.where(w == 0, 0.375, w)
    q = rng.randint(-4, 5, size=(n, n)) / 32.0
    b = rng.randint(-8, 9) / 16.0 + 0.03125
    return b, w, q


def uf_value(name, args):
    """Concrete interpretation of an uninterpreted real function (polynomial)."""
    n = len(args)
    base, _, dpart = name.partition("@d")
    if base == "act":                           # an activation function: strictly increasing, 1/2 at 0
        x, al = args
        z = al * x
        q = 1.0 + abs(z)
        if dpart: return 0.5 * (al if dpart == "0" else x) / (q * q)
        return 0.5 + 0.5 * z / q
    soft = "|soft|" in base
    if soft and not dpart:
        g = uf_value(base.partition("|soft|")[0] + "|exact|", args)
        return 0.5 + 0.5 * g / (1.0 + abs(g))
    if "|exact|" in base: base = base.partition("|exact|")[0] + "|exact|"
    b, w, q = uf_weights(base, n)
    if dpart:                                   # partial derivative
        i = int(dpart)
        r = w[i]
        for j in range(n):
            r = r + (q[i, j] + q[j, i]) * args[j]
        return r
    r = b
    for i in range(n):
        r = r + w[i] * args[i]
        for j in range(n):
            r = r + q[i, j] * args[i] * args[j]
    return r


def _u01(name, args):
    h = 0.0
    for i, a in enumerate(args):
        h = h + (i + 1) * 0.754877 * np.asarray(a, float)
    h = h + (zlib.crc32(name.encode()) % 9973) / 9973.0
    return h - np.floor(h)


def rounding(f, x):
    x = np.asarray(x, float)
    if f == "round:even": return np.rint(x)
    if f == "round:away": return np.sign(x) * np.floor(np.abs(x) + 0.5)
    if f == "narrow:float16": return x.astype(np.float16).astype(float)
    import ml_dtypes
    return x.astype(getattr(ml_dtypes, f.split(":")[1])).astype(float)


def eval_np(roots, env):
    """env: var term -> numpy float/bool arrays.  Returns list of arrays."""
    m = {}
    with np.errstate(all="ignore"):
        for t in topo(roots):
            op = t.op
            if op == "c":
                m[t] = t.args[0] if t.sort == "B" else float(t.args[0])
            elif op == "v":
                m[t] = env[t]
            elif op == "add":
                r = float(t.args[0])
                for x, c in t.args[1]:
                    r = r + float(c) * m[x]
                m[t] = r
            elif op == "mul":
                r = 1.0
                for x, e in t.args:
                    v = np.asarray(m[x], float)
                    if e < 0:
                        v = np.where(v == 0, 0.0, 1.0 / np.where(v == 0, 1.0, v)) ** (-e)
                    else:
                        v = v ** e
                    r = r * v
                m[t] = r
            elif op == "inv":
                v = np.asarray(m[t.args[0]], float)
                m[t] = np.where(v == 0, 0.0, 1.0 / np.where(v == 0, 1.0, v))
            elif op == "id":
                m[t] = m[t.args[0]]
            elif op == "ite":
                c, a, b = (m[x] for x in t.args)
                m[t] = np.where(c, a, b)
            elif op == "lt0":
                m[t] = m[t.args[0]] < 0
            elif op == "eq0":
                m[t] = np.asarray(m[t.args[0]]) == 0
            elif op == "not":
                m[t] = np.logical_not(m[t.args[0]])
            elif op == "and":
                r = True
                for x in t.args: r = np.logical_and(r, m[x])
                m[t] = r
            elif op == "or":
                r = False
                for x in t.args: r = np.logical_or(r, m[x])
                m[t] = r
            elif op == "app":
                m[t] = _app_np(t, m)
            else:
                raise ValueError(op)
    return [m[r] for r in roots]


def _app_np(t, m):
    f = t.args[0]
    a = [m[x] for x in t.args[1:] if isinstance(x, T)]
    if f == "sqrt": return np.sqrt(np.abs(a[0]))
    if f == "exp": return np.exp(np.minimum(a[0], 700.0))
    if f == "sin": return np.sin(a[0])
    if f == "cos": return np.cos(a[0])
    if f == "floor": return np.floor(a[0])
    if f.startswith(("narrow:", "round:")): return rounding(f, a[0])
    if f.startswith("u01"): return _u01(f, a)
    r = uf_value(f, [np.where(x, 1.0, 0.0) if np.asarray(x).dtype == bool else x for x in a])
    if t.sort == "B": return np.asarray(r) > 0
    if f.startswith("nn:"): return np.abs(r)
    return r


class V:
    """value with absolute error bound"""
    __slots__ = ("v", "e")
    def __init__(s, v, e=0.0): s.v = v; s.e = e


def eval3(root, env, rel=1e-15):
    """3-valued (True/False/None) evaluation.  env: var term -> (value, abs err)."""
    m = {}
    for t in topo([root]):
        op = t.op
        if op == "c":
            m[t] = t.args[0] if t.sort == "B" else V(float(t.args[0]))
        elif op == "v":
            x = env[t]
            if t.sort == "B": m[t] = x
            else: m[t] = V(float(x[0]), float(x[1]))
        elif op == "add":
            v = float(t.args[0]); e = 0.0; s = abs(v)
            for x, c in t.args[1]:
                v += float(c) * m[x].v; e += abs(float(c)) * m[x].e; s += abs(float(c) * m[x].v)
            m[t] = V(v, e + rel * s)
        elif op in ("mul", "inv", "id"):
            r = V(1.0)
            its = t.args if op == "mul" else ((t.args[0], -1 if op == "inv" else 1),)
            for x, ex in its:
                b = m[x]
                for _ in range(abs(ex)):
                    if ex > 0:
                        r = V(r.v * b.v, abs(r.v) * b.e + abs(b.v) * r.e + r.e * b.e + rel * abs(r.v * b.v))
                    elif abs(b.v) <= b.e:
                        if b.v == 0 and b.e == 0: r = V(0.0, 0.0)
                        else: r = V(0.0, math.inf)
                    else:
                        q = r.v / b.v
                        lo = abs(b.v) - b.e
                        r = V(q, (r.e + abs(q) * b.e) / lo + rel * abs(q))
            if r.e != r.e: r = V(0.0, math.inf)
            m[t] = r
        elif op == "ite":
            c, a, b = (m[x] for x in t.args)
            if c is True: m[t] = a
            elif c is False: m[t] = b
            elif isinstance(a, V):
                m[t] = V(a.v, max(abs(a.v - b.v) + b.e, a.e))
            else: m[t] = None
        elif op == "lt0":
            x = m[t.args[0]]
            if math.isnan(x.v): m[t] = None
            else: m[t] = True if x.v < -x.e else (False if x.v >= x.e and (x.e > 0 or x.v >= 0) and x.v >= 0 else None)
            if x.e > 0 and abs(x.v) <= x.e: m[t] = None
        elif op == "eq0":
            x = m[t.args[0]]
            m[t] = None if (math.isnan(x.v) or (x.e > 0 and abs(x.v) <= x.e)) else x.v == 0
        elif op == "not":
            x = m[t.args[0]]; m[t] = None if x is None else not x
        elif op == "and":
            xs = [m[x] for x in t.args]
            m[t] = False if False in xs else (None if None in xs else True)
        elif op == "or":
            xs = [m[x] for x in t.args]
            m[t] = True if True in xs else (None if None in xs else False)
        elif op == "app":
            f = t.args[0]
            a = [m[x] for x in t.args[1:] if isinstance(x, T)]
            if f == "sqrt":
                x = a[0]; s = math.sqrt(abs(x.v))
                m[t] = V(s, (x.e / s if s * s > x.e else math.sqrt(2 * x.e)) + rel * s)
            elif f == "exp":
                x = a[0]; s = math.exp(min(x.v, 700.0)); m[t] = V(s, s * (math.expm1(min(x.e, 50.0))) + rel * s)
            elif f in ("sin", "cos"):
                x = a[0]; m[t] = V(getattr(math, f)(x.v), x.e + rel)
            else:
                vals = [(1.0 if x else 0.0) if isinstance(x, bool) else (x.v if x is not None else math.nan) for x in a]
                er = sum(0.0 if isinstance(x, bool) else (x.e if x is not None else math.inf) for x in a)
                if f.startswith(("narrow:", "round:")):
                    r = float(rounding(f, vals[0])); lo, hi = float(rounding(f, vals[0] - er)), float(rounding(f, vals[0] + er)); m[t] = V(r, hi - lo); continue
                if f == "floor":
                    r = math.floor(vals[0]); m[t] = V(r, 0.0 if math.floor(vals[0] - er) == math.floor(vals[0] + er) else 1.0); continue
                r = _u01(f, vals) if f.startswith("u01") else uf_value(f, vals)
                r = float(r)
                if f.startswith("nn:"): r = abs(r)
                big = 1.0 + max([abs(v) for v in vals] or [0.0])
                er2 = er * 4 * big + 1e-12 * big * big
                if t.sort == "B":
                    m[t] = None if abs(r) <= er2 else r > 0
                else:
                    m[t] = V(r, er2)
        else:
            raise ValueError(op)
    return m[root]
