"""Discharging obligations: canonicalisation, numeric falsification, SMT portfolio."""
import os
import subprocess
import sys
import tempfile
import threading
import time
import shutil
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from .terms import *
from . import evalt

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

Z3 = shutil.which("z3-new") or shutil.which("z3")
Z3OLD = shutil.which("z3")
CVC5 = shutil.which("cvc5")
STATS = {"queries": 0, "solver_s": 0.0, "by": {}}
_LOCK = threading.Lock()


def _count(k, dt):
    with _LOCK:
        STATS["queries"] += 1
        STATS["solver_s"] += dt
        STATS["by"][k] = STATS["by"].get(k, 0) + 1


# ------------------------------------------------------------------ rational canonical forms
class _Rat:
    """Canonical rational functions over opaque atoms, modulo sqrt(x)^2 = x.

    Sound only where every denominator is nonzero (the caller splits on that)."""

    def __init__(self, max_terms=4000):
        self.atoms = []
        self.idx = {}
        self.max = max_terms

    def collect(self, t, seen):
        st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in ("add", "mul"):
                st.extend(children(x))
            elif x.op in ("inv", "id"):
                st.append(x.args[0])
            elif x.op == "c":
                pass
            else:
                if x.op == "app" and x.args[0] == "sqrt" and is_nonneg(x.args[1]):
                    st.append(x.args[1])
                if x.op == "app" and x.args[0] == "sin": st.append(app("cos", x.args[1]))
                if x not in self.idx:
                    self.idx[x] = len(self.atoms); self.atoms.append(x)

    def setup(self, ts):
        from sympy import QQ
        from sympy.polys.rings import ring
        seen = set()
        for t in ts: self.collect(t, seen)
        # sqrt atoms first (highest), newest first so nested ones reduce outwards-in
        order = sorted(self.atoms, key=lambda x: (0 if x.op == "app" and x.args[0] == "sqrt" else 1, -x.id))
        self.atoms = order or [ONE]
        names = [f"a{i}" for i in range(len(self.atoms))]
        self.R, *g = ring(names, QQ)
        if isinstance(g[0], (list, tuple)): g = list(g[0])
        self.g = {x: y for x, y in zip(self.atoms, g)}
        self.QQ = QQ
        self.memo = {}
        self.sq = {}
        for i, x in enumerate(self.atoms):
            if x.op == "app" and x.args[0] == "sqrt" and is_nonneg(x.args[1]):
                self.sq[i] = None
            elif x.op == "app" and x.args[0] == "sin": self.sq[i] = app("cos", x.args[1])

    def chk(self, p):
        if len(p) > self.max: raise OverflowError
        return p

    def rat(self, t):
        m = self.memo
        if t in m: return m[t]
        R = self.R
        if t.op == "c":
            v = t.args[0]; r = (R(self.QQ(v.numerator, v.denominator)), R(1))
        elif t.op == "add":
            n = R(self.QQ(t.args[0].numerator, t.args[0].denominator)); d = R(1)
            for x, c in t.args[1]:
                xn, xd = self.rat(x)
                xn = xn * self.QQ(c.numerator, c.denominator)
                if xd == d: n = n + xn
                else:
                    g = d.gcd(xd) if not (d.is_ground or xd.is_ground) else R(1)
                    d1, x1 = d.exquo(g) if not g.is_ground else d, xd.exquo(g) if not g.is_ground else xd
                    n = self.chk(n * x1 + xn * d1); d = self.chk(d * x1)
            r = self.red(n, d)
        elif t.op == "mul":
            n = R(1); d = R(1)
            for x, e in t.args:
                xn, xd = self.rat(x)
                if e < 0: xn, xd = xd, xn; e = -e
                for _ in range(e):
                    n = self.chk(n * xn); d = self.chk(d * xd)
                    n, d = self.red(n, d)
            r = self.red(n, d)
        elif t.op == "inv":
            n, d = self.rat(t.args[0]); r = (d, n)
        elif t.op == "id":
            r = self.rat(t.args[0])
        else:
            r = (self.g[t], R(1))
        m[t] = r
        return r

    def red(self, n, d):
        n, k1 = self.redsq(n)
        d, k2 = self.redsq(d)
        n = self.chk(n * k2); d = self.chk(d * k1)
        if not n: return n, self.R(1)
        if not d.is_ground:
            n, d = n.cancel(d)
            if d.LC < 0: n, d = -n, -d
        return n, d

    def redsq(self, p):
        """Reduce sqrt powers: returns (p', k) with p = p'/k."""
        k = self.R(1)
        for i in self.sq:
            if i >= self.R.ngens: continue
            deg = max((m[i] for m in p.itermonoms()), default=0) if p else 0
            if deg < 2: continue
            R = self.R
            if self.sq[i] is not None: sn, sd = R(1) - self.g[self.sq[i]] ** 2, R(1)        # sin^2 = 1 - cos^2
            else: sn, sd = self.rat(self.atoms[i].args[1])
            coefs = {}
            for m, c in p.iterterms():
                e = m[i]; mm = list(m); mm[i] = e % 2
                coefs.setdefault(e // 2, []).append((tuple(mm), c))
            h = max(coefs)
            q = R(0)
            for e, lst in coefs.items():
                q = self.chk(q + R.from_terms(lst) * sn ** e * sd ** (h - e))
            p = q
            if not sd.is_ground: k = k * sd ** h
            elif sd != 1: p = p * R(1); k = k * sd ** h
        return p, k

    def to_term(self, p):
        out = []
        for m, c in p.terms():
            fs = [powi(self.atoms[i], e) for i, e in enumerate(m) if e]
            out.append(scale(Fr(int(c.numerator), int(c.denominator)), mul(*fs) if fs else ONE))
        return add(*out) if out else ZERO


def canon_real(t):
    if t.op in ("c", "v"): return t
    r = _Rat(); r.setup([t])
    try:
        n, d = r.rat(t)
    except OverflowError:
        return t
    if d.is_ground:
        c = d.LC
        return scale(1 / Fr(int(c.numerator), int(c.denominator)), r.to_term(n))
    return div(r.to_term(n), r.to_term(d))


def _poly_factors(p):
    try:
        c, fs = p.factor_list()
        return c, fs
    except Exception:
        return None


def canon_atom(op, t):
    """lt0/eq0 of a rational function, as a boolean over canonical factors."""
    r = _Rat(); r.setup([t])
    try:
        n, d = r.rat(t)
    except OverflowError:
        return None
    if not n: return TRUE if op == "eq0" else FALSE
    if op == "eq0":
        fs = _poly_factors(n) if len(n) <= 60 and len(r.atoms) <= 14 else None
        if fs is None: return eq0(r.to_term(n))
        return disj(*[eq0(r.to_term(f)) for f, e in fs[1]]) if fs[1] else FALSE
    p = n * d if not d.is_ground else n * d.LC
    try:
        r.chk(p)
        p, k = r.redsq(p)
    except OverflowError:
        return None
    kt = r.to_term(k)
    if not is_pos(kt) and k != 1: return None
    fs = _poly_factors(p) if len(p) <= 60 and len(r.atoms) <= 14 else None
    if fs is None: return lt0(r.to_term(p))
    c, fl = fs
    odd = [r.to_term(f) for f, e in fl if e % 2]
    even = [r.to_term(f) for f, e in fl if e % 2 == 0]
    s = const(1 if c > 0 else -1)
    return conj(lt0(mul(s, *odd)), *[neg(eq0(x)) for x in even])


def canon_sqrt(t):
    """sqrt(n/d) -> |f1|...|fk| sqrt(rest) / |d|, over canonical factors."""
    if t.op in ("c", "v"): return sqrt(t)
    r = _Rat(); r.setup([t])
    try:
        n, d = r.rat(t)
        if not n: return ZERO
        p = n * d if not d.is_ground else n
        r.chk(p)
        fs = _poly_factors(p) if len(p) <= 80 and len(r.atoms) <= 14 else None
    except OverflowError:
        return sqrt(t)
    if fs is None:
        return sqrt(canon_real(t))
    c, fl = fs
    c = Fr(int(c.numerator), int(c.denominator))
    if d.is_ground: c = c / Fr(int(d.LC.numerator), int(d.LC.denominator))
    out = []; rest = []
    for f, e in fl:
        ft = r.to_term(f)
        if e // 2: out.append(powi(ft if is_pos(ft) or is_nonneg(ft) else scale(-1, ft) if is_pos(scale(-1, ft)) else abst(ft), e // 2))
        if e % 2: rest.append(ft)
    if c < 0:
        c = -c
        if not rest: return sqrt(t)
        rest[0] = scale(-1, rest[0])
    if len(rest) > 1:                       # sqrt(a b) = sqrt(a) sqrt(b) for a >= 0
        pos = [f for f in rest if is_nonneg(f)]
        out += [sqrt(f) for f in pos]; rest = [f for f in rest if not is_nonneg(f)]
    inner = mul(*rest) if rest else ONE
    if len(rest) == 1 and d.is_ground and is_nonneg(t): mark_nonneg(inner)
    res = mul(sqrt(const(c)), *out, sqrt(inner) if rest else ONE)
    if not d.is_ground:
        dt = r.to_term(d)
        res = div(res, dt if is_pos(dt) else abst(dt))
    return res


def canon(t):
    """Bottom-up canonicalisation of every real subterm under ite/app/atoms."""
    m = {}
    for x in topo([t]):
        if x.op in ("lt0", "eq0"):
            y = rebuild(x, m)
            if y.op in ("lt0", "eq0"):
                z = canon_atom(y.op, y.args[0])
                m[x] = y if z is None else z
            else: m[x] = y
        elif x.op in ("ite", "app") and any(isinstance(a, T) and a.sort == "R" for a in x.args):
            if x.op == "app" and x.args[0] == "sqrt":
                m[x] = canon_sqrt(m[x.args[1]])
                continue
            mm = dict(m)
            for a in x.args:
                if isinstance(a, T) and a.sort == "R": mm[a] = canon_real(m[a])
            m[x] = rebuild(x, mm)
        else:
            m[x] = rebuild(x, m) if children(x) else x
    return m[t]


def _is_poly(t, memo):
    r = memo.get(t)
    if r is None:
        r = t.op in ("c", "v") or (t.op == "add" and all(_is_poly(x, memo) for x, _ in t.args[1])) or (t.op == "mul" and all(e > 0 and _is_poly(x, memo) for x, e in t.args))
        memo[t] = r
    return r


def _factored(t, small=60):
    """A polynomial term as the product of its factors [(term, exponent)] and a constant, or None."""
    if size(t) > small: return None
    r = _Rat(); r.setup([t])
    try:
        n, d = r.rat(t)
        if not d.is_ground or not n or len(n) > 60 or len(r.atoms) > 14: return None
    except OverflowError:
        return None
    fs = _poly_factors(n)
    if fs is None: return None
    return [(r.to_term(f), e) for f, e in fs[1]], scale(1 / Fr(int(d.LC.numerator), int(d.LC.denominator)), const(Fr(int(fs[0].numerator), int(fs[0].denominator))))


def canon_poly_atoms(t):
    """Factor polynomial equalities, vanishing vectors and denominators (valid without any case distinction), so that
    equivalent tests become one atom."""
    m = {}; memo = {}; fm = {}
    def fac(x):
        if x not in fm: fm[x] = _factored(x)
        return fm[x]
    for x in topo([t]):
        if x.op == "mul" and any(e < 0 and b.op not in ("v", "c") for b, e in x.args):
            parts = []
            for b, e in x.args:
                f = fac(m[b]) if e < 0 and m[b].op not in ("v", "c") and _is_poly(m[b], memo) else None
                parts.append(powi(m[b], e) if f is None else mul(powi(f[1], e), *[powi(g, e * k) for g, k in f[0]]))
            m[x] = mul(*parts)
        elif x.op == "inv" and _is_poly(m[x.args[0]], memo) and m[x.args[0]].op not in ("v", "c") and fac(m[x.args[0]]):
            f = fac(m[x.args[0]])
            m[x] = mul(powi(f[1], -1), *[powi(g, -k) for g, k in f[0]])
        elif x.op == "ite" and x.sort == "R" or x.op == "app" and x.args[0] == "sqrt":
            mm = dict(m)
            for a in x.args:
                if isinstance(a, T) and a.sort == "R" and m[a].op == "add" and _is_poly(m[a], memo):
                    f = fac(m[a])
                    if f: mm[a] = mul(f[1], *[powi(g, k) for g, k in f[0]])
            m[x] = rebuild(x, mm)
        else: m[x] = rebuild(x, m) if children(x) else x
        y = m[x]
        if y.op == "eq0" and y.args[0].op != "v" and _is_poly(y.args[0], memo):
            f = fac(y.args[0])
            if f: m[x] = disj(*[eq0(g) for g, k in f[0]])
        elif y.op == "and":
            e = [z for z in y.args if z.op == "eq0" and _is_poly(z.args[0], memo)]
            if len(e) == 2 and not all(z.args[0].op == "v" for z in e):
                f = fac(add(mul(e[0].args[0], e[0].args[0]), mul(e[1].args[0], e[1].args[0])))
                if f and len(f[0]) > 1: m[x] = conj(*[z for z in y.args if z not in e], disj(*[eq0(g) for g, k in f[0]]))
    return m[t]


# ------------------------------------------------------------------ SMT
def _fr(v):
    v = Fr(v)
    s = f"{abs(v.numerator)}.0" if v.denominator == 1 else f"(/ {abs(v.numerator)}.0 {v.denominator}.0)"
    return f"(- {s})" if v < 0 else s


def to_smt(phi, extra_axioms=True, want_model=False):
    names = {}
    decl = []; defs = []; ax = []
    apps = {}
    varmap = {}
    for t in topo([phi]):
        op = t.op
        i = t.id
        if op == "c":
            names[t] = ("true" if t.args[0] else "false") if t.sort == "B" else _fr(t.args[0])
        elif op == "v":
            n = f"v{i}"; names[t] = n; varmap[n] = t
            if t.sort == "B": decl.append(f"(declare-const {n} Bool)")
            elif t.args[2]:
                decl.append(f"(declare-const {n}i Int)"); names[t] = f"(to_real {n}i)"
                varmap.pop(n); varmap[n + "i"] = t
            else: decl.append(f"(declare-const {n} Real)")
            if t.args[1] == "pos": ax.append(f"(> {names[t]} 0.0)")
            if t.args[1] == "nonneg": ax.append(f"(>= {names[t]} 0.0)")
        elif op == "add":
            ps = [_fr(t.args[0])] if t.args[0] != 0 else []
            for x, c in t.args[1]:
                ps.append(names[x] if c == 1 else f"(* {_fr(c)} {names[x]})")
            e = ps[0] if len(ps) == 1 else "(+ " + " ".join(ps) + ")"
            defs.append(f"(define-fun t{i} () Real {e})"); names[t] = f"t{i}"
        elif op == "mul":
            ps = []
            for x, e in t.args:
                b = names[x]
                if e < 0:
                    key = ("inv", x)
                    if key not in names:
                        q = f"q{x.id}"; decl_late = f"(declare-const {q} Real)"
                        defs.append(decl_late)
                        if is_pos(x) : ax.append(f"(= (* {q} {b}) 1.0)"); ax.append(f"(> {q} 0.0)")
                        else: ax.append(f"(ite (= {b} 0.0) (= {q} 0.0) (= (* {q} {b}) 1.0))")
                        names[key] = q
                    b = names[key]; e = -e
                ps.extend([b] * e)
            e = ps[0] if len(ps) == 1 else "(* " + " ".join(ps) + ")"
            defs.append(f"(define-fun t{i} () Real {e})"); names[t] = f"t{i}"
        elif op == "inv":
            x = t.args[0]; b = names[x]
            key = ("inv", x)
            if key not in names:
                q = f"q{x.id}"; defs.append(f"(declare-const {q} Real)")
                ax.append(f"(ite (= {b} 0.0) (= {q} 0.0) (= (* {q} {b}) 1.0))"); names[key] = q
            names[t] = names[key]
        elif op == "id":
            names[t] = names[t.args[0]]
        elif op == "ite":
            c, a, b = (names[x] for x in t.args)
            defs.append(f"(define-fun t{i} () Real (ite {c} {a} {b}))"); names[t] = f"t{i}"
        elif op == "lt0":
            defs.append(f"(define-fun b{i} () Bool (< {names[t.args[0]]} 0.0))"); names[t] = f"b{i}"
        elif op == "eq0":
            defs.append(f"(define-fun b{i} () Bool (= {names[t.args[0]]} 0.0))"); names[t] = f"b{i}"
        elif op == "not":
            names[t] = f"(not {names[t.args[0]]})"
        elif op in ("and", "or"):
            defs.append(f"(define-fun b{i} () Bool ({op} " + " ".join(names[x] for x in t.args) + "))"); names[t] = f"b{i}"
        elif op == "app":
            f = t.args[0]
            a = [names[x] for x in t.args[1:] if isinstance(x, T) and x.sort != "K"]
            n = f"f{i}"
            if t.sort == "K":
                names[t] = n; continue
            defs.append(f"(declare-const {n} {'Bool' if t.sort == 'B' else 'Real'})"); names[t] = n
            if f == "sqrt":
                ax.append(f"(>= {n} 0.0)")
                if is_nonneg(t.args[1]): ax.append(f"(= (* {n} {n}) {a[0]})")
                else: ax.append(f"(= (* {n} {n}) (ite (>= {a[0]} 0.0) {a[0]} (- {a[0]})))")
            elif f == "exp":
                ax.append(f"(> {n} 0.0)")
                ax.append(f"(=> (= {a[0]} 0.0) (= {n} 1.0))")
                ax.append(f"(=> (< {a[0]} 0.0) (< {n} 1.0))"); ax.append(f"(=> (> {a[0]} 0.0) (> {n} 1.0))")
            elif f.startswith("u01"):
                ax.append(f"(and (<= 0.0 {n}) (< {n} 1.0))")
            elif f.startswith("nn:"):
                ax.append(f"(<= 0.0 {n})")
            elif f == "floor":
                decl.append(f"(declare-const {n}z Int)")
                ax.append(f"(and (= {n} (to_real {n}z)) (<= {n} {a[0]}) (< {a[0]} (+ {n} 1.0)))")
            elif f == "pow":
                ax.append(f"(> {n} 0.0)")
            apps.setdefault(f, []).append((t, n, a))
    if extra_axioms:
        for f, lst in apps.items():
            if len(lst) > 24: continue
            for p in range(len(lst)):
                for q in range(p + 1, len(lst)):
                    (t1, n1, a1), (t2, n2, a2) = lst[p], lst[q]
                    if f == "sqrt": continue
                    if f == "exp":
                        ax.append(f"(=> (< {a1[0]} {a2[0]}) (< {n1} {n2}))")
                        ax.append(f"(=> (< {a2[0]} {a1[0]}) (< {n2} {n1}))")
                        ax.append(f"(=> (= {a1[0]} {a2[0]}) (= {n1} {n2}))")
                        ax.append(f"(=> (= (+ {a1[0]} {a2[0]}) 0.0) (= (* {n1} {n2}) 1.0))")
                    elif len(a1) == len(a2) and a1:
                        sorts = [x.sort for x in t1.args[1:] if isinstance(x, T)]
                        if "K" in sorts: continue
                        c = " ".join(f"(= {x} {y})" for x, y in zip(a1, a2) if x != y)
                        ax.append(f"(=> (and true {c}) (= {n1} {n2}))")
        sc = {}
        for f in ("sin", "cos"):
            for t, n, a in apps.get(f, []): sc.setdefault(t.args[1], {})[f] = n
        for x, d in sc.items():
            if len(d) == 2: ax.append(f"(= (+ (* {d['sin']} {d['sin']}) (* {d['cos']} {d['cos']})) 1.0)")
            else:
                n = next(iter(d.values())); ax.append(f"(and (<= (- 1.0) {n}) (<= {n} 1.0))")
    body = "\n".join(decl + defs + [f"(assert {a})" for a in ax] + [f"(assert {names[phi]})"])
    return body, varmap


def _parse_val(s):
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = [0]
    def p():
        t = toks[pos[0]]; pos[0] += 1
        if t == "(":
            op = toks[pos[0]]; pos[0] += 1
            a = []
            while toks[pos[0]] != ")": a.append(p())
            pos[0] += 1
            if op == "-": return -a[0] if len(a) == 1 else a[0] - a[1]
            if op == "/": return a[0] / a[1]
            if op == "to_real": return a[0]
            raise ValueError(s)
        if t == "true": return True
        if t == "false": return False
        return Fr(t.rstrip("?"))
    return p()


def run_smt(body, varmap, solver="z3", timeout=5.0, model=True):
    names = list(varmap)
    head = "(set-option :produce-models true)\n"
    if solver == "z3":
        cmd = [Z3, "-in", "-T:%d" % max(1, int(timeout + 0.999)), "-t:%d" % int(timeout * 1000)]
        head += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n"
        chk = "(check-sat)\n"
    elif solver == "z3nl":
        cmd = [Z3, "-in", "-T:%d" % max(1, int(timeout + 0.999))]
        head += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n"
        chk = "(check-sat-using (then simplify propagate-values solve-eqs elim-term-ite tseitin-cnf smt))\n" if False else "(check-sat-using (then simplify purify-arith elim-term-ite tseitin-cnf qfnra-nlsat))\n"
    elif solver == "z3old":
        cmd = [Z3OLD, "-in", "-T:%d" % max(1, int(timeout + 0.999))]
        chk = "(check-sat)\n"
    else:
        cmd = [CVC5, "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "-q"]
        head = "(set-logic ALL)\n" + head
        chk = "(check-sat)\n"
    txt = head + body + "\n" + chk
    if model and names:
        txt += "(get-value (" + " ".join(names) + "))\n"
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=txt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
    if first == "unsat":
        _count(solver, dt); return "unsat", None
    if first == "sat":
        _count(solver, dt)
        env = {}
        try:
            rest = out.strip().split("\n", 1)[1]
            import re
            for n in names:
                mm = re.search(r"\(" + n + r" ", rest)
                if not mm: continue
                i = mm.end(); d = 0; j = i
                while True:
                    ch = rest[j]
                    if ch == "(": d += 1
                    elif ch == ")":
                        if d == 0: break
                        d -= 1
                    j += 1
                env[varmap[n]] = _parse_val(rest[i:j])
        except Exception:
            env = {}
        return "sat", env
    _count(solver + ":unknown", dt)
    return "unknown", first[:200]


def smt(phi, timeout=5.0, portfolio=("z3",)):
    """phi satisfiable?"""
    if phi is FALSE: return "unsat", None, "simplifier"
    body, vm = to_smt(phi)
    if len(portfolio) == 1:
        r, m = run_smt(body, vm, portfolio[0], timeout)
        return r, m, portfolio[0]
    with ThreadPoolExecutor(len(portfolio)) as ex:
        futs = {ex.submit(run_smt, body, vm, s, timeout): s for s in portfolio}
        best = ("unknown", None, "")
        from concurrent.futures import as_completed
        for f in as_completed(futs):
            r, m = f.result()
            if r == "unsat": return r, m, futs[f]
            if r == "sat": best = (r, m, futs[f]); return best
        return best


# ------------------------------------------------------------------ case splitting
def _split_candidates(phi, full):
    """Boolean atoms to split on: nonzero-ness of denominators, ite conditions."""
    cands = {}
    order = topo([phi])
    for t in order:
        if t.op == "mul":
            for x, e in t.args:
                if e < 0 and not is_pos(x) and not is_pos(scale(-1, x)):
                    c = eq0(x)
                    for a in _atoms_of(c): cands[a] = cands.get(a, 0) + 2
        elif t.op == "inv":
            for a in _atoms_of(eq0(t.args[0])): cands[a] = cands.get(a, 0) + 2
        elif t.op == "ite":
            for a in _atoms_of(t.args[0]):
                if full or a.op in ("eq0", "and"): cands[a] = cands.get(a, 0) + 1
    return cands


def _atoms_of(b):
    """atoms of a condition; a conjunction of equalities (a vector is zero) counts as one"""
    if b.op == "and" and all(x.op == "eq0" for x in b.args): return [b]
    if b.op == "not": return _atoms_of(b.args[0])
    if b.op in ("and", "or"): return list(dict.fromkeys(a for x in b.args for a in _atoms_of(x)))
    return [t for t in topo([b]) if t.sort == "B" and t.op in ("lt0", "eq0", "v", "app")]


def known_nonzero(phi):
    """Set of terms x such that phi is a conjunction containing not(eq0 x)."""
    s = set()
    for l in (phi.args if phi.op == "and" else [phi]):
        if l.op == "not" and l.args[0].op == "eq0": s.add(l.args[0])
    return s


def assume(phi, a, val):
    """phi /\\ (a == val), with a replaced; equalities on a variable substituted."""
    env = {a: TRUE if val else FALSE}
    if a.op == "and":
        if not val: return conj(subst(phi, env), neg(a)), None
        for x in a.args: phi, el = assume(phi, x, True)
        return phi, None
    if a.op == "lt0":
        o = lt0(scale(-1, a.args[0])); e = eq0(a.args[0])
        if val:
            if o.op == "lt0": env[o] = FALSE
            if e.op == "eq0": env[e] = FALSE
    if a.op == "eq0" and val:
        for s in (1, -1):
            o = lt0(scale(s, a.args[0]))
            if o.op == "lt0": env[o] = FALSE
    r = subst(phi, env)
    if a.op == "eq0" and val:
        # eliminate a variable occurring linearly with constant coefficient
        k, d = terms_of(a.args[0])
        for x, c in d.items():
            if x.op == "v" and not x.args[2] and x.args[1] is None and all(x not in topo([y]) for y in d if y is not x):
                rhs = scale(-1 / c, _build(k, {y: z for y, z in d.items() if y is not x}))
                return subst(r, {x: rhs}), (x, rhs)
        # a pure atom equal to zero
        if len(d) == 1 and k == 0:
            (x, c), = d.items()
            r = subst(r, {x: ZERO})
            return conj(r, a) if x.op != "v" else r, (x, ZERO)
        return conj(r, a), None
    return conj(r, a if val else neg(a)), None


def _build(k, d):
    return add(const(k), *[scale(c, t) for t, c in d.items()])


def generalize(phi, cuts):
    """Replace the given real terms, one after the other, by fresh variables (sound for refutation: if the result is
    unsatisfiable, so is phi).  A term that is a sum is removed by solving it for its most recently built summand."""
    cuts = list(cuts)
    memo = {}
    for i in range(len(cuts)):
        t = cuts[i]
        if t.op in ("c", "v") or t.sort != "R": continue
        x = var(f"cut{i}#{t.id}")
        if t.op == "add":
            k, d = terms_of(t)
            big = max(d, key=lambda y: y.id)
            c = d[big]
            if big.op == "v": continue
            rest = _build(k, {y: z for y, z in d.items() if y is not big})
            env = {big: scale(1 / c, add(x, scale(-1, rest)))}
        else: env = {t: x}
        phi = subst(phi, env)
        cuts = [subst(y, env) if j > i else y for j, y in enumerate(cuts)]
    return phi


def abstract_depth(phi, depth):
    """Replace every subterm further than `depth` from the root by a fresh variable (sound for refutation)."""
    dist = {phi: 0}; queue = [phi]; i = 0
    while i < len(queue):
        t = queue[i]; i += 1
        if dist[t] > depth: continue
        for c in children(t):
            if c not in dist: dist[c] = dist[t] + 1; queue.append(c)
    env = {}
    for t, d in dist.items():
        if d > depth and t.op not in ("c", "v") and t.sort in ("R", "B") and t not in (TRUE, FALSE):
            env[t] = var(f"abs#{t.id}", t.sort, ("pos" if is_pos(t) else "nonneg" if is_nonneg(t) else None) if t.sort == "R" else None)
    return subst(phi, env) if env else phi, bool(env)


def refute_local(phi, deadline, memo=None):
    """Refute a formula whose every disjunct is refutable by itself, by shallow reasoning about its outermost operators.
    -> True (unsatisfiable) / False (not shown)"""
    memo = {} if memo is None else memo
    if phi in memo: return memo[phi]
    if phi is FALSE: return True
    if phi is TRUE or time.time() > deadline: return False
    r = False
    if phi.op == "or": r = all(refute_local(x, deadline, memo) for x in phi.args)
    else:
        if phi.op == "and": r = any(refute_local(x, deadline, memo) for x in phi.args if x.op in ("or", "and"))
        if not r:
            last = None
            for d in (2, 3, 4, 5, 6, 8, 10):
                if time.time() > deadline: break
                q, more = abstract_depth(phi, d)
                if q is FALSE: r = True; break
                if q is last: continue
                last = q
                v, _, _ = smt(q, 0.7)
                if v == "unsat": r = True; break
                if v == "sat" and not more: break
    memo[phi] = r
    return r


_EAGER = {}


def eager_refute(t):
    """Is the side condition t (a zero denominator, a negative square, a NaN) impossible, by reasoning about its outermost operators?"""
    r = _EAGER.get(t)
    if r is None:
        r = False; last = None
        for d in (2, 3, 4, 5, 6, 7):
            q, more = abstract_depth(t, d)
            if q is FALSE: r = True; break
            if q is TRUE: break
            if q is not last:
                last = q
                v, _, _ = smt(q, 1.0)
                if v == "unsat": r = True; break
            if not more: break
        _EAGER[t] = r
    return r


class Budget(Exception):
    pass


def split_refute(phi, full=False, budget=64, leaf_timeout=4.0, portfolio=("z3",), depth=0, st=None, deadline=None):
    """Try to show phi unsatisfiable by case splitting + canonicalisation.
    Returns ('unsat',) / ('sat', env) / ('unknown', leaf)."""
    st = st if st is not None else {"n": 0, "eq": []}
    if deadline and time.time() > deadline: return ("unknown", phi)
    if phi is FALSE: return ("unsat",)
    nz = known_nonzero(phi)
    # literals of the conjunction are substituted everywhere else
    cands = {a: w for a, w in _split_candidates(phi, full).items() if a not in nz}
    if phi.op == "and":
        lits = {}
        for l in phi.args:
            b = l.args[0] if l.op == "not" else l
            if b in cands: lits[b] = (l.op != "not")
        for a, v in lits.items():
            cands.pop(a, None)
            rest = conj(*[x for x in phi.args if (x.args[0] if x.op == "not" else x) is not a])
            r2 = subst(rest, {a: TRUE if v else FALSE})
            if r2 is not rest:
                return split_refute(conj(r2, a if v else neg(a)), full, budget, leaf_timeout, portfolio, depth, st, deadline)
    if not cands or depth > 14:
        st["n"] += 1
        if st["n"] > budget: return ("unknown", phi)
        p2 = canon(phi)
        if p2 is FALSE: return ("unsat",)
        r, m, w = smt(p2, leaf_timeout, portfolio)
        if r == "unsat": return ("unsat",)
        if r == "sat":
            return ("sat", m, p2)
        return ("unknown", p2)
    # prefer atoms with the smallest, ite-free terms
    def key(a):
        return (any(x.op == "ite" for x in topo([a])), -cands[a], size(a), a.id)
    a = min(cands, key=key)
    res = ("unsat",)
    for val in (True, False):
        q, el = assume(phi, a, val)
        r = split_refute(q, full, budget, leaf_timeout, portfolio, depth + 1, st, deadline)
        if r[0] == "sat": return r
        if r[0] == "unknown": res = r; return r
    return res


def check_unsat(phi, timeout=10.0, hard=True):
    """Full pipeline on a quantifier-free formula.  -> (verdict, model, method)"""
    if phi is FALSE: return "unsat", None, "simplifier"
    if phi is TRUE: return "sat", {}, "simplifier"
    r, m, w = smt(phi, min(2.0, timeout))
    if r != "unknown": return r, m, w
    try:
        if size(phi) > 60 and sum(t.op == "or" for t in topo([phi])) and refute_local(phi, time.time() + 2 * timeout): return "unsat", None, "local reasoning, disjunct by disjunct"
        c = canon(phi) if not _split_candidates(phi, False) else phi
        if c is FALSE: return "unsat", None, "canonical forms"
        phi0 = phi
        alts = [phi]
        pf = canon_poly_atoms(phi) if size(phi) < 3000 else phi
        if pf is FALSE: return "unsat", None, "canonical forms"
        if pf is not phi: alts = [pf, phi]
        for alt in alts:
            r = split_refute(alt, False, 48, min(3.0, timeout), ("z3",), deadline=time.time() + timeout)
            if r[0] == "unsat": return "unsat", None, "case split + canonical forms + z3"
            if r[0] == "sat" and r[1] is not None:
                return "sat?", r[1], "case split + z3"
        phi = pf
        if hard:
            r = split_refute(phi, True, 300, min(5.0, timeout), ("z3", "z3nl", "cvc5"), deadline=time.time() + 2 * timeout)
            if r[0] == "unsat": return "unsat", None, "full case split + canonical forms + portfolio"
            if r[0] == "sat": return "sat?", r[1], "full case split"
        phi = phi0
    except RecursionError:
        pass
    if hard:
        r, m, w = smt(phi, timeout, ("z3", "z3nl", "cvc5"))
        if r != "unknown": return r, m, w
    return "unknown", None, "portfolio"
