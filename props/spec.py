"""Specification functions (mathematical), over terms."""
from engine.terms import *

HALF = const(Fr(1, 2))


def vec(x): return [x[0], x[1]]
def sub2(a, b): return [a[0] - b[0], a[1] - b[1]]
def add2(a, b): return [a[0] + b[0], a[1] + b[1]]
def sc2(k, a): return [k * a[0], k * a[1]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1]
def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def norm2(a): return dot(a, a)
def norm(a): return sqrt(norm2(a))
def eqv(a, b): return conj(*[eq(x, y) for x, y in zip(a, b)])
def nonzero(a): return neg(conj(eq(a[0], 0), eq(a[1], 0)))


def org(w): return [w[0, 0], w[0, 1]]
def dst(w): return [w[1, 0], w[1, 1]]
def tvec(w): return sub2(dst(w), org(w))


def hard(x, alpha): return maxt(ZERO, mint(ONE, (alpha * x + 3) / 6))
def logistic(x, alpha): return ONE / (ONE + exp(-(alpha * x)))


class Exact:
    """truth algebra of exact mode"""
    exact = True
    @staticmethod
    def gt(a, b): return lt(b, a)
    @staticmethod
    def ge(a, b): return le(b, a)
    @staticmethod
    def lt(a, b): return lt(a, b)
    @staticmethod
    def le(a, b): return le(a, b)
    @staticmethod
    def and_(*x): return conj(*x)
    @staticmethod
    def or_(*x): return disj(*x)
    @staticmethod
    def not_(x): return neg(x)
    true = TRUE; false = FALSE


class Soft:
    exact = False
    def __init__(self, act): self.act = act
    def gt(self, a, b): return self.act(a - b)
    def ge(self, a, b): return self.act(a - b)
    def lt(self, a, b): return self.act(b - a)
    def le(self, a, b): return self.act(b - a)
    def and_(self, *x):
        r = x[0]
        for y in x[1:]: r = mint(r, y)
        return r
    def or_(self, *x):
        r = x[0]
        for y in x[1:]: r = maxt(r, y)
        return r
    def not_(self, x): return ONE - x
    true = ONE; false = ZERO


def seg_parts(P1, P2, P3, P4):
    u, v, w = sub2(P2, P1), sub2(P4, P3), sub2(P3, P1)
    den = cross(u, v)
    return den, cross(w, v) / den, cross(w, u) / den


def segs(alg, P1, P2, P3, P4, tol):
    """crossing of supporting lines with parameters in [-tol, 1+tol]; parallel -> false"""
    den, s, t = seg_parts(P1, P2, P3, P4)
    inside = alg.and_(alg.ge(s, -tol), alg.le(s, 1 + tol), alg.ge(t, -tol), alg.le(t, 1 + tol))
    return ite(eq(den, 0), alg.false, inside) if alg.exact else ite(eq(den, 0), ZERO, inside)


def wall_param(w, p):
    t = tvec(w)
    return dot(sub2(p, org(w)), t) / norm2(t)


def contains(alg, s): return alg.and_(alg.ge(s, ZERO), alg.le(s, ONE))


def wall_hits(alg, w, a, b, patch, tol=Fr(5, 1000)):
    t = tvec(w)
    return segs(alg, sub2(org(w), sc2(patch, t)), add2(dst(w), sc2(patch, t)), a, b, const(tol))


def normal(w):
    t = tvec(w)
    l = norm(t)
    return [t[1] / l, -(t[0] / l)]


def mirror(w, p):
    """projection form: p' = 2*proj(p) - p"""
    t = tvec(w)
    s = wall_param(w, p)
    q = add2(org(w), sc2(s, t))
    return sub2(sc2(const(2), q), p)


def unit(v):
    l = norm(v)
    return [v[0] / l, v[1] / l]


def reflect_dir(w, d):
    """mirror direction d across the direction of w (no square roots)"""
    t = tvec(w)
    k = 2 * dot(d, t) / norm2(t)
    return sub2(sc2(k, t), d)


def residual(w, a, b, c):
    i, r = unit(sub2(b, a)), unit(sub2(c, b))
    e = sub2(r, reflect_dir(w, i))
    return norm2(e)
