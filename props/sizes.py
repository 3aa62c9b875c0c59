"""Contracts for every size (number of walls, objects, points, steps, cells): see engine/symc.py and engine/extract.py.

Each is proved on the functions' current source for symbolic sizes; where a refactoring puts a function out of the
extraction's reach, the contract is reported as not applicable and the bounded contracts of the property decide alone."""
import types

import jax
import jax.numpy as jnp

from engine.symc import *
from engine.symsize import big, binder, BIG
from engine.extract import extract, Stacked, stack_contract, Seq
from engine.interp import F, Unsupported
import numpy as np
from props.spec import *
from props.abstract import *
from differt2d import geometry as G
from differt2d import utils as U
from differt2d import logic as L

STACK = dict(stack_leaves=stack_contract)


def walls(w, cls=None):
    cls = cls or G.Wall
    return Stacked(w.shape[0], jax.vmap(lambda x: cls(xys=x))(w))


def objs(ids): return Stacked(ids.shape[0], jax.vmap(lambda i: AObj(i))(ids))


class W:
    """wall k of an input array, as the specification's accessor"""
    def __init__(self, p, w, k): self.p = p; self.w = w; self.k = k
    def __getitem__(self, ij): return self.p.val(self.w, self.k, *ij)


def image_path(q, loss=True):
    f = extract(G.ImagePath.from_tx_objects_rx, STACK)
    return f(G.ImagePath, q.tx, walls(q.w), q.rx)


IMG = dict(w=sreal("n", 2, 2), tx=sreal(2), rx=sreal(2))
IMG_FN = ("geometry.ImagePath.from_tx_objects_rx", "geometry.Wall.image_of", "geometry.Wall.normal", "geometry.normalize", "geometry.stack_leaves (by contract)")


# ------------------------------------------------------------------ C11
def c11():
    def f(q, d):
        p = image_path(q)
        return p.xys, p.loss
    def proof(p):
        n = p.d.n
        xys, loss = p.o
        p.goal("n + 2 points", eq(lift(xys.shape[0]), n + 2))
        p.goal("starts at tx", eqv(p.vec(xys, 0), p.vec(p.a.tx)))
        p.goal("ends at rx", eqv(p.vec(xys, n + 1), p.vec(p.a.rx)))
        fw, bw = p.recs[:2]
        k = p.index("k", 0, n)
        w = W(p, p.a.w, k)
        I, J = p.vec(fw.at(k)[0]), p.vec(fw.at(k + 1)[0])
        p.goal("the first image is the transmitter", eqv(p.vec(fw.at(ZERO)[0]), p.vec(p.a.tx)))
        p.goal("image k is the mirror image of image k - 1", implies(nonzero(tvec(w)), eqv(J, mirror(w, I))), [p.unfold(fw, k)], cut=[*I])
        before, after = p.step(bw, k)
        x, nx = p.vec(after[0]), p.vec(before[0])
        p.goal("xys[k + 1] is the point of wall k", eqv(p.vec(xys, k + 1), p.vec(bw.at(k)[0])))
        p.goal("xys[k + 2] is the next point", eqv(p.vec(xys, k + 2), nx), [p.boundary(bw, k + 1)])
        s = lambda q: cross(sub2(q, org(w)), tvec(w))
        par = eq(cross(sub2(nx, J), tvec(w)), 0)
        h = [nonzero(tvec(w)), neg(par)]
        p.goal("point k lies on the line of wall k", eq(s(x), 0), h)
        p.goal("point k lies on the line from image k to the next point", eq(cross(sub2(x, J), sub2(nx, J)), 0), h)
    return [SymContract("image method, any number of walls", {"n": 1}, IMG, f, proof, functions=IMG_FN)]


def dimval(x): return jnp.int32(x) if isinstance(x, int) else x.dimension_as_value()


def comp(r, nd, kind=None):
    """the carry component with nd dimensions"""
    for j, (x, k) in enumerate(zip(r.init, r.kinds)):
        if len(x.shape) == nd and j not in r.closed and kind in (None, k): return j
    return None


# ------------------------------------------------------------------ C12
def triples(xys): return jnp.stack([xys[:-2], xys[1:-1], xys[2:]], axis=1)


def total(p, loss, res, what="the loss is the sum of the residuals of the returned path"):
    """loss is the last recursor's final carry, which starts at 0 and adds res[i] at step i"""
    r = p.recs[-1]; q = comp(r, 0, 'F')
    if isinstance(loss, np.ndarray): loss = loss[()]
    p.goal(f"{what}: final value", eq(p.val(loss), p.val(r.final()[q])))
    p.goal(f"{what}: starts at zero", eq(p.val(r.init[q]), 0))
    p.goal(f"{what}: number of terms", eq(r.L, p.d.n))
    with p.free(("i", 0, r.L)) as i:
        before, after = p.step(r, i)
        p.goal(f"{what}: adds term i", eq(p.val(after[q]) - p.val(before[q]), p.val(res, i)))


def c12():
    cs = []
    def ends(p, xys):
        n = p.d.n
        p.goal("n + 2 points", eq(lift(xys.shape[0]), n + 2))
        p.goal("starts at tx", eqv(p.vec(xys, 0), p.vec(p.a.tx)))
        p.goal("ends at rx", eqv(p.vec(xys, n + 1), p.vec(p.a.rx)))
    # the image method
    for pts in (False, True):
        def f(q, d, pts=pts):
            fn = extract(G.ImagePath.from_tx_objects_rx, STACK)
            P = (lambda x: G.Point(xy=x)) if pts else (lambda x: x)
            p = fn(G.ImagePath, P(q.tx), walls(q.w), P(q.rx))
            res = jax.vmap(lambda w, t: G.Wall(xys=w).evaluate_cartesian(t))(q.w, triples(p.xys))
            return p.xys, p.loss, res
        def proof(p):
            xys, loss, res = p.o
            ends(p, xys)
            total(p, loss, res)
        cs.append(SymContract(f"image method, any number of walls, ends as {'points' if pts else 'coordinates'}", {"n": 1}, IMG, f, proof, functions=IMG_FN + ("geometry.Wall.evaluate_cartesian",)))
    # the other methods, arbitrary objects with c parameters each
    KIND = {0: AObj0, 1: AObj, 2: AObj2}
    for c, cl in KIND.items():
        def mk(q, cl=cl): return Stacked(q.ids.shape[0], jax.vmap(lambda i: cl(i))(q.ids))
        I = dict(ids=sreal("n"), tx=sreal(2), rx=sreal(2), theta=sreal(f"{c}*n" if c else 0))
        def p2c(p, k, c=c):
            th = [p.val(p.a.theta, c * k + j) for j in range(c)]
            return tu(f"p2c{c}", p.val(p.a.ids, k), *th, shape=(2,))
        def fpc(q, d, mk=mk):
            fn = extract(G.parametric_to_cartesian)
            return fn(mk(q), q.theta, d.n, q.tx, q.rx)
        def coords(p, xys, rec, p2c=p2c):
            """xys is the final carry of rec; its row k + 1 is object k's point"""
            n = p.d.n
            for j in range(2):
                at = lambda c, i, j=j, q=comp(rec, 2): p.val(c[q], i, j)
                i0 = p.induct(f"component {j} of the first point", rec, lambda i, cs: eq(at(cs[0], ZERO), p.val(p.a.tx, j)))
                p.goal(f"component {j} of tx", eq(p.val(xys, 0, j), p.val(p.a.tx, j)), [i0(n)])
                i1 = p.induct(f"component {j} of the last point", rec, lambda i, cs: eq(at(cs[0], n + 1), p.val(p.a.rx, j)))
                p.goal(f"component {j} of rx", eq(p.val(xys, n + 1, j), p.val(p.a.rx, j)), [i1(n)])
                with p.free(("k", 0, n)) as k:
                    want = vec(p2c(p, k))
                    inst = p.induct(f"component {j} of point k + 1 is object k's", rec, lambda i, cs: implies(lt(k, i), eq(at(cs[0], k + 1), want[j])), at=k)
                    p.goal(f"component {j} of point k + 1", eq(p.val(xys, k + 1, j), want[j]), [inst(n)])
        def ppc(p, coords=coords):
            p.goal("n + 2 points", eq(lift(p.o.shape[0]), p.d.n + 2))
            coords(p, p.o, next(r for r in p.recs if comp(r, 2) is not None))
        cs.append(SymContract(f"parametric_to_cartesian, any number of objects with {c} parameters", {"n": 0}, I, fpc, ppc, functions=("geometry.parametric_to_cartesian", "geometry.parametric_to_cartesian_from_slice")))
        for cls in (G.FermatPath, G.MinPath):
            def fm(q, d, cls=cls, mk=mk, c=c):
                seen = []
                def minimiser(fun, key, n, **kw):
                    seen.append(n)
                    return q.theta, fun(q.theta)
                pc = extract(G.parametric_to_cartesian)
                fn = extract(cls.from_tx_objects_rx, dict(minimize_many_random_uniform=minimiser, parametric_to_cartesian=pc))
                p = fn(cls, q.tx, mk(q), q.rx, key=None)
                if len(seen) != 1: raise Unsupported("minimiser not called exactly once")
                res = jax.vmap(lambda i, t: uf("residual", i, t))(q.ids, triples(p.xys))
                return p.xys, p.loss, res, dimval(seen[0])
            def pm(p, cls=cls, c=c, coords=coords):
                xys, loss, res, nu = p.o
                p.goal("n + 2 points", eq(lift(xys.shape[0]), p.d.n + 2))
                p.goal("one unknown per parameter", eq(p.val(nu), c * p.d.n))
                arrs = [r for r in p.recs if comp(r, 2) is not None]
                coords(p, xys, arrs[-1])
                sums = [r for r in p.recs if comp(r, 0, 'F') is not None]
                L0 = loss[()] if isinstance(loss, np.ndarray) else loss
                good = [r for r in sums if p.val(r.final()[comp(r, 0, 'F')]) is p.val(L0)]
                if not good: raise Unsupported("loss is not a fold")
                p.recs.append(good[-1])
                total(p, loss, res)
            cs.append(SymContract(f"{cls.__name__}, any number of objects with {c} parameters", {"n": 1}, I, fm, pm,
                                  functions=(f"geometry.{cls.__name__}.from_tx_objects_rx", "geometry.parametric_to_cartesian", "optimize.minimize_many_random_uniform (by contract)")))
    def fb(q, d):
        fn = extract(G.Path.from_tx_objects_rx)
        p = fn(G.Path, q.tx, objs(q.ids), q.rx)
        return p.xys, p.loss
    def pb(p):
        xys, loss = p.o
        ends(p, xys)
        k = p.index("k", 0, p.d.n)
        p.goal("point k + 1 is object k's", eqv(p.vec(xys, k + 1), vec(tu("p2c1", p.val(p.a.ids, k), const(Fr(1, 2)), shape=(2,)))))
    cs.append(SymContract("Path, any number of objects", {"n": 1}, dict(ids=sreal("n"), tx=sreal(2), rx=sreal(2)), fb, pb, functions=("geometry.Path.from_tx_objects_rx",)))
    return cs


# ------------------------------------------------------------------ C13
def sum_of(p, x, n):
    """the sum of the elements of a vector of symbolic size, as the specification's term"""
    with binder(n) as k: return big("sum", n, k, p.val(x, k))


def c13():
    cs = []
    pairs = lambda x: jnp.stack([x[:-1], x[1:]], axis=1)
    I = dict(p=sreal("n", 2), v=sreal(2))
    for nm, mk in (("path_length", lambda q: G.path_length(q.p)), *((c.__name__, lambda q, c=c: c(xys=q.p, loss=jnp.array(0.0)).length()) for c in (G.Path, G.ImagePath, G.FermatPath, G.MinPath))):
        def f(q, d, mk=mk):
            return mk(q), jax.vmap(G.path_length)(pairs(q.p)), mk(types.SimpleNamespace(p=q.p + q.v))
        def proof(p):
            L, seg, M = p.o
            n = p.d.n
            p.goal("number of segments", eq(lift(seg.shape[0]), n - 1))
            p.goal("sum of the lengths of the segments", eq(p.val(L), sum_of(p, seg, n - 1)))
            p.goal("finite", neg(p.special(L)))
            p.goal("non-negative", p.val(L) >= 0)
            p.goal("unchanged by a translation", eq(p.val(L), p.val(M)))
        cs.append(SymContract(f"{nm}, any number of points", {"n": 2}, I, f, proof, functions=("geometry.path_length", "geometry.Path.length")))
    return cs


# ------------------------------------------------------------------ C16
def c16():
    cs = []
    rq = lambda p: p.require(p.val(p.a.h) > 0)
    for cl in (G.Path, G.ImagePath, G.FermatPath, G.MinPath):
        def f(q, d, cl=cl):
            path = cl(xys=q.xys, loss=q.l)
            return U.received_power(G.Point(xy=q.tx), G.Vertex(xy=q.rx), path, [], r_coef=q.rc, height=q.h), path.length(), U.received_power(G.Point(xy=q.tx), G.Vertex(xy=q.rx), path, [])
        def proof(p):
            n = p.d.n; P, r, D = (p.val(x) for x in p.o)
            h, rc = p.val(p.a.h), p.val(p.a.rc)
            rq(p)
            pw = lambda b: app("ipow", lift(b), n)
            p.goal("attenuation law", eq(P * (h * h + r * r), pw(rc)))
            p.goal("attenuation law with the defaults", eq(D * (Fr(1, 100) + r * r), pw(HALF)))
            p.goal("finite", neg(p.special(p.o[0])))
        cs.append(SymContract(f"received_power along a {cl.__name__}, any number of interactions", {"n": 0}, dict(xys=sreal("n+2", 2), rc=sreal(), h=sreal(pos="pos"), tx=sreal(2), rx=sreal(2), l=sreal()), f, proof,
                              functions=("utils.received_power", "geometry.Path.length")))
    return cs


# ------------------------------------------------------------------ C18
def extent(p, x, n, j):
    with binder(n) as k: return big("min", n, k, p.val(x, k, j)), big("max", n, k, p.val(x, k, j))


def c18():
    cs = []
    for cl in (G.Path, G.ImagePath, G.FermatPath, G.MinPath):
        def f(q, d, cl=cl): return cl(xys=q.xys).bounding_box()
        def proof(p):
            for j, nm in ((0, "x"), (1, "y")):
                lo, hi = extent(p, p.a.xys, p.d.n, j)
                p.goal(f"{nm}: the smallest and the largest coordinate", conj(eq(p.val(p.o, 0, j), lo), eq(p.val(p.o, 1, j), hi)))
        cs.append(SymContract(f"{cl.__name__}.bounding_box, any number of points", {"n": 1}, dict(xys=sreal("n", 2)), f, proof, functions=("geometry.Path.bounding_box",)))
    return cs


# ------------------------------------------------------------------ C19
def c19():
    def f(q, d):
        i, dist = G.closest_point(q.p, q.t)
        return jnp.asarray(i), dist
    def proof(p):
        n = p.d.n
        i, d = p.o
        i = p.val(i); d = p.val(d)
        D = lambda k: norm(sub2(p.vec(p.a.p, k), p.vec(p.a.t)))
        p.goal("an index of a point", conj(i >= 0, i < n))
        p.goal("the distance of that point", eq(d, D(i)))
        k = p.index("k", 0, n)
        p.goal("at most the distance of every point", d <= D(k), [p.least(i, k)])
    return [SymContract("closest_point, any number of points", {"n": 1}, dict(p=sreal("n", 2), t=sreal(2)), f, proof, functions=("geometry.closest_point",))]


# ------------------------------------------------------------------ C15, C07: containment and obstruction
OBS = ("geometry.Path.on_objects", "geometry.Path.intersects_with_objects")


def truth(p, x):
    """value of a boolean or soft result"""
    return p.val(x)


def on_objects(q, approx, view=None, **kw):
    f = extract(G.Path.on_objects)
    return f(G.Path(xys=q.xys), (view.objs if view else objs)(q.ids), approx=approx, **kw)


def blocked(q, approx, view=None, **kw):
    f = extract(G.Path.intersects_with_objects)
    return f(G.Path(xys=q.xys), (view.objs if view else objs)(q.ids), q.c, approx=approx, **kw)


def only(p, pick=lambda r: True):
    rs = [r for r in p.recs if pick(r)]
    if not rs: raise Unsupported("no loop")
    return rs[-1]


def contained(p, k, soft, tag=""):
    """the predicate of object k at point k + 1"""
    i = p.val(p.a.ids, k)
    return tpred("contains", soft, tag, i, tu("c2p1", i, *p.vec(p.a.xys, k + 1), shape=(1,)))


def hit(p, k, j, soft, patch, tag=""):
    return tpred("hits", soft, tag, p.val(p.a.ids, j), *p.vec(p.a.xys, k), *p.vec(p.a.xys, k + 1), patch)


def skipped(p, k, j):
    """object j is one of the two interactions at the ends of segment k"""
    n = p.d.n
    c = lambda t: p.val(p.a.c, t)
    l = conj(lt(ZERO, lift(k)), eq(p.safe(p.a.c, k - 1), j))
    r = conj(lt(lift(k), n), eq(p.safe(p.a.c, k), j))
    return disj(l, r)


class Straight:
    """how the contracts below see a call: the arguments as they are"""
    note = ""
    fns = OBS
    def args(self, q): return q
    def objs(self, ids): return objs(ids)
    def contained(self, p, k, soft): return contained(p, k, soft)
    def hit(self, p, k, j, soft, patch): return hit(p, k, j, soft, patch)
    def skipped(self, p, k, j): return skipped(p, k, j)


class Reversed(Straight):
    """the reversed path, interactions and candidate, in terms of the elements of the given ones; objects are direction-independent"""
    note = " of the reversed path"
    def args(self, q):
        r = types.SimpleNamespace(**vars(q)); r.xys = q.xys[::-1]
        if hasattr(q, "c"): r.c = q.c[::-1]
        else: r.ids = q.ids[::-1]
        return r
    def objs(self, ids): return Stacked(ids.shape[0], jax.vmap(lambda i: BothWays(i))(ids))
    def contained(self, p, k, soft): return contained(p, p.d.n - 1 - k, soft)
    def hit(self, p, k, j, soft, patch):
        k = p.d.n - k
        h = lambda a, b: tpred("hits", soft, "", p.val(p.a.ids, j), *p.vec(p.a.xys, a), *p.vec(p.a.xys, b), patch)
        x, y = h(k, k + 1), h(k + 1, k)
        return maxt(x, y) if soft else disj(x, y)
    def skipped(self, p, k, j): return skipped(p, p.d.n - k, j)


class BothWays(AObj):
    """an object whose intersection test does not depend on the direction of the ray (proved of walls, C06 and C30)"""
    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kw):
        h = lambda x: pred("hits", approx, kw, self.ident, x, jnp.asarray(patch, dtype=float))
        return L.logical_or(h(ray), h(ray[::-1]), approx=approx)


def c15(view=Straight()):
    cs = []
    contained, skipped = view.contained, view.skipped
    for soft in (False, True):
        def f(q, d, soft=soft): return on_objects(view.args(q), soft, view)
        def proof(p, soft=soft):
            n = p.d.n; r = only(p); res = p.val(p.o); kd = 'F' if soft else 'B'
            q = comp(r, 0, kd)
            p.goal("the result of the loop", eq(res, p.val(r.final()[q])) if soft else iff(res, p.val(r.final()[q])))
            fin = p.val(r.final()[q])
            if not soft:
                inst = p.induct("contained implies true", r, lambda i, c: p.val(c[0][q]), [lambda i: contained(p, i, False)])
                p.goal("true if every point is contained in its object", fin, [inst(n)])
                with p.free(("k", 0, n)) as k:
                    inst = p.induct("true implies contained", r, lambda i, c: implies(conj(p.val(c[0][q]), lt(k, i)), contained(p, k, False)), at=k)
                    p.goal("true only if every point is contained in its object", implies(fin, contained(p, k, False)), [inst(n)])
            else:
                inst = p.induct("at most one", r, lambda i, c: p.val(c[0][q]) <= 1)
                p.goal("at most one", fin <= 1, [inst(n)])
                B = var("bound", "R")
                inst = p.induct("at least a lower bound", r, lambda i, c: p.val(c[0][q]) >= B, [B <= 1, lambda i: B <= contained(p, i, True)])
                p.goal("at least every lower bound of one and the truth values of the points", fin >= B, [B <= 1, inst(n)])
                with p.free(("k", 0, n)) as k:
                    inst = p.induct("at most each", r, lambda i, c: implies(lt(k, i), p.val(c[0][q]) <= contained(p, k, True)), at=k)
                    p.goal("at most the truth value of every point", fin <= contained(p, k, True), [inst(n)])
        cs.append(SymContract(f"on_objects{view.note}, any number of interactions, approx={soft}", {"n": 0}, dict(xys=sreal("n+2", 2), ids=sreal("n")), f, proof, functions=OBS[:1]))
        for given in (True, False):
            def f(q, d, soft=soft, given=given): return blocked(view.args(q), soft, view, **(dict(patch=q.patch) if given else {}))
            def proof(p, soft=soft, given=given):
                n, m = p.d.n, p.d.m
                patch = p.val(p.a.patch) if given else ZERO
                outer = [r for r in p.recs if FACTS.decide(eq(r.L, n + 1)) is TRUE]
                if not outer: raise Unsupported("no loop over the segments")
                r = outer[-1]; kd = 'F' if soft else 'B'
                q = comp(r, 0, kd)
                res = p.val(p.o); fin = p.val(r.final()[q])
                p.goal("the result of the loop", eq(res, fin) if soft else iff(res, fin))
                H = lambda k, j: view.hit(p, k, j, soft, patch)
                def nest(label, inv, at_k=None, hyp=None):
                    """the invariant of the segments carries over to the objects of one segment"""
                    def inner(what, i, pre, recs):
                        rs = [x for x in recs if FACTS.decide(eq(x.L, m)) is TRUE]
                        if not rs: raise Unsupported("no loop over the objects")
                        s = rs[-1]; qs = comp(s, 0, kd)
                        here = what == "step" and at_k is not None
                        mine = lambda t, c: conj(inv(i, p.val(c[0][qs])), implies(lt(at_k[1], t), inv(i + 1, p.val(c[0][qs]))) if here else TRUE)
                        inst = p.induct(f"{label}: objects of one segment", s, mine, [pre] + ([lambda t: hyp(i, t)] if hyp else []), at=at_k[1] if here else None)
                        return [inst(m)]
                    return inner
                none = (lambda i, t: disj(H(i, t) <= B, skipped(p, i, t))) if soft else (lambda i, t: disj(neg(H(i, t)), skipped(p, i, t)))
                if not soft:
                    inv = lambda t, c: neg(c)
                    inst = p.induct("no hit implies false", r, lambda i, c: inv(i, p.val(c[0][q])), inner=nest("no hit implies false", inv, hyp=none))
                    p.goal("false if no segment is hit by an object not at its ends", neg(fin), [inst(n + 1)])
                else:
                    B = var("bound", "R")
                    inv = lambda t, c: c <= B
                    inst = p.induct("at most an upper bound", r, lambda i, c: inv(i, p.val(c[0][q])), [B >= 0], inner=nest("at most an upper bound", inv, hyp=none))
                    p.goal("at most every upper bound of zero and the truth values", fin <= B, [B >= 0, inst(n + 1)])
                    inv = lambda t, c: c >= 0
                    inst = p.induct("at least zero", r, lambda i, c: inv(i, p.val(c[0][q])), inner=nest("at least zero", inv))
                    p.goal("at least zero", fin >= 0, [inst(n + 1)])
                with p.free(("k", 0, n + 1), ("j", 0, m)) as (k, j):
                    there = neg(skipped(p, k, j))
                    inv = (lambda t, c: implies(conj(lt(k, t), there), c >= H(k, j))) if soft else (lambda t, c: implies(conj(lt(k, t), H(k, j), there), c))
                    inst = p.induct("each hit counts", r, lambda i, c: inv(i, p.val(c[0][q])), at=k, inner=nest("each hit counts", inv, (k, j)))
                    if soft: p.goal("at least every truth value of an object not at the segment's ends", implies(there, fin >= H(k, j)), [inst(n + 1)])
                    else: p.goal("true if some segment is hit by an object not at its ends", implies(conj(H(k, j), there), fin), [inst(n + 1)])
            cs.append(SymContract(f"intersects_with_objects{view.note}, any number of objects and interactions, approx={soft}, patch {'given' if given else 'default'}", {"n": 0, "m": 0},
                                  dict(xys=sreal("n+2", 2), ids=sreal("m"), c=sint("n"), patch=sreal()), f, proof, functions=OBS[1:]))
    return cs


def c07():
    """soft against exact, any sizes: the product of the two loops, objects' predicates agreeing as the contract proved of walls and vertices says"""
    cs = []
    agree = lambda e, s: conj(s >= 0, s <= 1, iff(e, s >= HALF))
    def f(q, d): return on_objects(q, True), on_objects(q, False)
    def rows(p):
        rs = p.recs
        fl = [r for r in rs if comp(r, 0, 'F') is not None]; bl = [r for r in rs if comp(r, 0, 'B') is not None]
        if not fl or not bl: raise Unsupported("loops")
        return fl[-1], bl[-1]
    def proof(p):
        n = p.d.n; s, e = p.o
        S, E = rows(p)
        q, b = comp(S, 0, 'F'), comp(E, 0, 'B')
        v = lambda c: (p.val(c[0][q]), p.val(c[1][b]))
        p.goal("the results of the loops", conj(eq(p.val(s), p.val(S.final()[q])), iff(p.val(e), p.val(E.final()[b]))))
        ax = lambda i: agree(contained(p, i, False), contained(p, i, True))
        for nm, inv, hy in (("in [0,1]", lambda i, c: conj(v(c)[0] >= 0, v(c)[0] <= 1), [ax]),
                            ("above half implies exact", lambda i, c: implies(v(c)[0] > HALF, v(c)[1]), [ax]),
                            ("exact implies at least half", lambda i, c: implies(v(c)[1], v(c)[0] >= HALF), [ax]),
                            ("strictly inside implies above half", lambda i, c: v(c)[0] > HALF, [lambda i: contained(p, i, True) > HALF])):
            inst = p.induct(nm, [S, E], inv, hy)
            p.goal(nm, inv(n, [S.final(), E.final()]), [inst(n)])
    cs.append(SymContract("on_objects, soft against exact, any number of interactions", {"n": 0}, dict(xys=sreal("n+2", 2), ids=sreal("n")), f, proof, functions=OBS[:1]))
    def g(q, d): return blocked(q, True, patch=q.patch), blocked(q, False, patch=q.patch)
    def gproof(p):
        n, m = p.d.n, p.d.m; patch = p.val(p.a.patch); s, e = p.o
        rs = [r for r in p.recs if FACTS.decide(eq(r.L, n + 1)) is TRUE]
        fl = [r for r in rs if comp(r, 0, 'F') is not None]; bl = [r for r in rs if comp(r, 0, 'B') is not None]
        if not fl or not bl: raise Unsupported("loops")
        S, E = fl[-1], bl[-1]
        q, b = comp(S, 0, 'F'), comp(E, 0, 'B')
        p.goal("the results of the loops", conj(eq(p.val(s), p.val(S.final()[q])), iff(p.val(e), p.val(E.final()[b]))))
        ax = lambda i, t: agree(hit(p, i, t, False, patch), hit(p, i, t, True, patch))
        def nest(nm, inv, hyp):
            def inner(what, i, pre, recs):
                rs = [x for x in recs if FACTS.decide(eq(x.L, m)) is TRUE]
                fl = [r for r in rs if comp(r, 0, 'F') is not None]; bl = [r for r in rs if comp(r, 0, 'B') is not None]
                if not fl or not bl: raise Unsupported("inner loops")
                s, e = fl[-1], bl[-1]
                inst = p.induct(f"{nm}: objects of one segment", [s, e], lambda t, c: inv(p.val(c[0][comp(s, 0, 'F')]), p.val(c[1][comp(e, 0, 'B')])), [pre, lambda t: hyp(i, t)])
                return [inst(m)]
            return inner
        none = lambda i, t: disj(hit(p, i, t, True, patch) < HALF, skipped(p, i, t))
        for nm, inv, hy in (("in [0,1]", lambda x, y: conj(x >= 0, x <= 1), ax), ("above half implies exact", lambda x, y: implies(x > HALF, y), ax),
                            ("exact implies at least half", lambda x, y: implies(y, x >= HALF), ax), ("strictly free implies below half", lambda x, y: x < HALF, none)):
            inst = p.induct(nm, [S, E], lambda i, c: inv(p.val(c[0][q]), p.val(c[1][b])), inner=nest(nm, inv, hy))
            p.goal(nm, inv(p.val(S.final()[q]), p.val(E.final()[b])), [inst(n + 1)])
        with p.free(("k", 0, n + 1), ("j", 0, m)) as (k, j):
            strict = conj(hit(p, k, j, True, patch) > HALF, neg(skipped(p, k, j)))
            def inner(what, i, pre, recs):
                rs = [x for x in recs if FACTS.decide(eq(x.L, m)) is TRUE and comp(x, 0, 'F') is not None]
                if not rs: raise Unsupported("inner loop")
                x = rs[-1]; qs = comp(x, 0, 'F')
                mine = lambda t, c: conj(implies(lt(k, i), p.val(c[0][qs]) > HALF), implies(lt(j, t), p.val(c[0][qs]) > HALF) if what == "step" else TRUE)
                inst = p.induct("strictly hit implies above half: objects of one segment", x, mine, [pre, strict], at=j if what == "step" else None)
                return [inst(m)]
            inst = p.induct("strictly hit implies above half", S, lambda i, c: implies(lt(k, i), p.val(c[0][q]) > HALF), [strict], at=k, inner=inner)
            p.goal("strictly hit implies above half", p.val(S.final()[q]) > HALF, [strict, inst(n + 1)])
    cs.append(SymContract("intersects_with_objects, soft against exact, any number of objects and interactions", {"n": 0, "m": 0}, dict(xys=sreal("n+2", 2), ids=sreal("m"), c=sint("n"), patch=sreal()), g, gproof, functions=OBS[1:]))
    return cs


# ------------------------------------------------------------------ C29
def finite(p, x, label):
    """no element of x, at any index, is infinite or not a number (inductions over the loops are part of the interpretation)"""
    if isinstance(x, (F, T)) or isinstance(x, np.ndarray) and x.shape == (): return p.goal(label, neg(p.special(x[()] if isinstance(x, np.ndarray) else x)))
    sh = x.shape
    def go(k, ix):
        if k == len(sh): p.goal(f"{label}", neg(p.special(x, *ix))); return
        if isinstance(sh[k], int):
            for j in range(sh[k]): go(k + 1, ix + (j,))
        else:
            with p.free((f"k{k}", 0, sh[k])) as j: go(k + 1, ix + (j,))
    go(0, ())


def pull(f, cts, *xs):
    """values of f and the derivatives of the sum of its outputs weighted by arbitrary numbers (reverse mode)"""
    out, vjp = jax.vjp(f, *xs)
    return out, vjp(cts(out))


def c29():
    cs = []
    def all_finite(p):
        out, grads = p.o
        for k, x in enumerate(jax.tree_util.tree_leaves(out, is_leaf=lambda x: hasattr(x, "shape"))): finite(p, x, f"value {k} is finite")
        for k, x in enumerate(jax.tree_util.tree_leaves(grads, is_leaf=lambda x: hasattr(x, "shape"))): finite(p, x, f"derivative with respect to input {k} is finite")
    fn = lambda: extract(G.ImagePath.from_tx_objects_rx, STACK)
    def path(f, tx, rx, w): return f(G.ImagePath, tx, walls(w), rx)
    def c(n, dims, I, f, fns, **k): cs.append(SymContract(n, dims, I, f, all_finite, functions=fns, **k))
    for nm, mk in (("path_length", G.path_length), ("ImagePath.length", lambda x: G.ImagePath(xys=x, loss=jnp.array(0.0)).length())):
        c(f"{nm}, any number of points", {"n": 2}, dict(p=sreal("n", 2), u=sreal()), lambda q, d, mk=mk: pull(mk, lambda o: q.u, q.p), ("geometry.path_length", "geometry.Path.length"))
    def img(q, d):
        f = fn()
        return pull(lambda tx, rx, w: (lambda p: (p.xys, p.loss))(path(f, tx, rx, w)), lambda o: (q.u, q.v), q.tx, q.rx, q.w)
    c("image method, any number of walls", {"n": 1}, dict(IMG, u=sreal("n+2", 2), v=sreal()), img, IMG_FN + ("geometry.Wall.evaluate_cartesian",))
    def power(q, d):
        f = fn()
        ids = walls(q.w)
        g = lambda tx, rx: U.received_power(G.Point(xy=tx), G.Point(xy=rx), path(f, tx, rx, q.w), [], r_coef=q.rc, height=q.h)
        return pull(g, lambda o: q.v, q.tx, q.rx)
    c("received power along the image path, any number of walls", {"n": 1}, dict(IMG, v=sreal(), rc=sreal(), h=sreal(pos="pos")), power, IMG_FN + ("utils.received_power", "geometry.Path.length"))
    V = IMG_FN + OBS + ("geometry.Path.is_valid", "geometry.Wall.intersects_cartesian", "geometry.Wall.cartesian_to_parametric", "geometry.Wall.contains_parametric", "geometry.segments_intersect", "logic.*")
    for an, act in (("hard_sigmoid", L.hard_sigmoid), ("sigmoid", L.sigmoid)):
        kw = lambda q, act=act: dict(approx=True, alpha=q.al, function=act)
        R = dict(al=sreal(pos="pos"), v=sreal())
        def on(q, d, kw=kw):
            f = extract(G.Path.on_objects)
            return pull(lambda x: f(G.Path(xys=x), walls(q.w), **kw(q)), lambda o: q.v, q.xys)
        c(f"on_objects, any number of walls, {an}", {"n": 0}, dict(R, xys=sreal("n+2", 2), w=sreal("n", 2, 2)), on, V)
        def hits(q, d, kw=kw):
            f = extract(G.Path.intersects_with_objects)
            return pull(lambda x: f(G.Path(xys=x), walls(q.w), q.c, patch=q.patch, **kw(q)), lambda o: q.v, q.xys)
        c(f"intersects_with_objects, any number of walls and segments, {an}", {"n": 0, "m": 0}, dict(R, xys=sreal("n+2", 2), w=sreal("m", 2, 2), c=sint("n"), patch=sreal()), hits, V)
    return cs


# ------------------------------------------------------------------ C31
def c31():
    """The image method commutes with x -> A x + v, A = [[g, -h], [h, g]] nonzero: induction over the images and over the points."""
    def f(q, d):
        T = lambda x: jnp.stack([q.A[0] * x[..., 0] - q.A[1] * x[..., 1] + q.v[0], q.A[1] * x[..., 0] + q.A[0] * x[..., 1] + q.v[1]], axis=-1)
        im = extract(G.ImagePath.from_tx_objects_rx, STACK)
        w = jnp.stack([q.o, q.o + q.t], axis=1)
        a = im(G.ImagePath, q.tx, walls(w), q.rx)
        b = im(G.ImagePath, T(q.tx), walls(T(w)), T(q.rx))
        return a.xys, b.xys
    def proof(p):
        n = p.d.n
        x, y = p.o
        a = p.a
        g, h = p.vec(a.A); v = p.vec(a.v)
        S = lambda q: [g * q[0] - h * q[1] + v[0], h * q[0] + g * q[1] + v[1]]
        f1, b1, f2, b2 = [r for r in p.recs if getattr(r.init[0], "shape", None) == (2,)]
        p.require(disj(ne(g, 0), ne(h, 0)))
        p.goal("n + 2 points", conj(eq(lift(x.shape[0]), n + 2), eq(lift(y.shape[0]), n + 2)))
        p.goal("tx moves along", eqv(p.vec(y, 0), S(p.vec(x, 0))))
        p.goal("rx moves along", eqv(p.vec(y, n + 1), S(p.vec(x, n + 1))))
        p.goal("images: base", eqv(p.vec(f2.at(ZERO)[0]), S(p.vec(f1.at(ZERO)[0]))))
        p.goal("points: base", eqv(p.vec(b2.at(n)[0]), S(p.vec(b1.at(n)[0]))))
        k = p.index("k", 0, n)
        t = p.vec(a.t, k); o = p.vec(a.o, k)
        I, J = p.step(f1, k); I2, J2 = p.step(f2, k)
        hy = [nonzero(t)]
        def moved(new, old, gl): return subst(lift(gl), dict(zip(new, S(old))))
        I, J = p.step(f1, k); I2, J2 = p.step(f2, k)
        p.goal("images: step", moved(p.vec(I2[0]), p.vec(I[0]), eqv(p.vec(J2[0]), S(p.vec(J[0])))), hy)
        X, Y = p.step(b1, k); X2, Y2 = p.step(b2, k)
        Jk, Jk2 = p.vec(f1.at(k + 1)[0]), p.vec(f2.at(k + 1)[0])
        nx = p.vec(X[0])
        gp = ne(cross(sub2(nx, Jk), t), 0)
        gl = subst(eqv(p.vec(Y2[0]), S(p.vec(Y[0]))), dict(zip(p.vec(X2[0]) + Jk2, S(nx) + S(Jk))))
        p.goal("points: step", gl, hy + [gp])
        p.goal("xys[k + 1] is point k", conj(eqv(p.vec(x, k + 1), p.vec(b1.at(k)[0])), eqv(p.vec(y, k + 1), p.vec(b2.at(k)[0]))))
    return [SymContract("the image method moves along, any number of walls", {"n": 0}, dict(o=sreal("n", 2), t=sreal("n", 2), tx=sreal(2), rx=sreal(2), A=sreal(2), v=sreal(2)), f, proof, functions=IMG_FN)]


# ------------------------------------------------------------------ C30
def c30():
    """Reciprocity, by induction.  I_k: image of tx after walls 0..k-1; J_k: image of rx after walls n-1..k; x_k, y_k: the points of
    wall k on the two paths (x_n = rx, y_-1 = tx).  Invariant of the one path: x_k is on the line (I_k, J_k); of the other: y_k is on
    the line (I_k+1, J_k+1), which the mirror of wall k exchanges.  Both points are then on wall k and on one line not parallel to it."""
    def f(q, d):
        im = extract(G.ImagePath.from_tx_objects_rx, STACK)
        w = jnp.stack([q.o, q.o + q.t], axis=1)
        a = im(G.ImagePath, q.tx, walls(w), q.rx)
        b = im(G.ImagePath, q.rx, walls(w[::-1]), q.tx)
        return a.xys, b.xys
    def proof(p):
        n = p.d.n
        xs, ys = p.o
        a = p.a
        f1, b1, f2, b2 = [r for r in p.recs if getattr(r.init[0], "shape", None) == (2,)]
        tx, rx = p.vec(a.tx), p.vec(a.rx)
        p.goal("n + 2 points", conj(eq(lift(xs.shape[0]), n + 2), eq(lift(ys.shape[0]), n + 2)))
        p.goal("ends", conj(eqv(p.vec(xs, 0), tx), eqv(p.vec(ys, n + 1), tx), eqv(p.vec(xs, n + 1), rx), eqv(p.vec(ys, 0), rx)))
        p.goal("the first images and the last points are the ends", conj(eqv(p.vec(f1.at(ZERO)[0]), tx), eqv(p.vec(b2.at(n)[0]), tx), eqv(p.vec(f2.at(ZERO)[0]), rx), eqv(p.vec(b1.at(n)[0]), rx)))
        k = p.index("k", 0, n)
        t, o = p.vec(a.t, k), p.vec(a.o, k)
        w = {(0, 0): o[0], (0, 1): o[1], (1, 0): o[0] + t[0], (1, 1): o[1] + t[1]}
        on = lambda q: cross(sub2(q, o), t)
        col = lambda q, u, v: cross(sub2(q, u), sub2(v, u))
        p.require(nonzero(t))
        line = []
        for nm, fw, bw, other, xy, m, back in (("x", f1, b1, f2, xs, k, False), ("y", f2, b2, f1, ys, n - 1 - k, True)):
            I, J = p.step(fw, m); i0 = p.vec(I[0])
            p.goal(f"{nm}: the image after wall k mirrors the one before", eqv(p.vec(J[0]), mirror(w, i0)))
            X, Y = p.step(bw, m); x, nx = p.vec(Y[0]), p.vec(X[0])
            i1 = p.vec(fw.at(m + 1)[0])                # the image after wall k
            o1 = p.vec(other.at(n - 1 - m)[0])         # the other end's image before wall k
            gp = ne(cross(sub2(nx, i1), t), 0)
            p.goal(f"{nm}: the point is on wall k", eq(on(x), 0), [gp])
            p.goal(f"{nm}: the point is on the line of the two images", eq(col(x, i1, o1), 0), [gp, eq(col(nx, i1, o1), 0)])
            p.goal(f"{nm}: point k of the returned path", eqv(p.vec(xy, m + 1), p.vec(bw.at(m)[0])))
        # the mirror keeps the lines through a point of the wall; the two points are then the same
        I, J = p.vec(f1.at(k)[0]), p.vec(f2.at(n - 1 - k)[0])
        s, u = var("s", "R"), var("u", "R")
        x, y = add2(o, sc2(s, t)), add2(o, sc2(u, t))
        MI, MJ = mirror(w, I), mirror(w, J)
        p.goal("the mirror exchanges the two lines, for x", implies(eq(col(x, MI, J), 0), eq(col(x, I, MJ), 0)))
        p.goal("the mirror exchanges the two lines, for y", implies(eq(col(y, MJ, I), 0), eq(col(y, J, MI), 0)))
        p.goal("the points are the same", eqv(x, y), [eq(col(x, MI, J), 0), eq(col(y, J, MI), 0), ne(cross(sub2(J, MI), t), 0)])
    return [SymContract("reciprocity, any number of walls", {"n": 1}, dict(o=sreal("n", 2), t=sreal("n", 2), tx=sreal(2), rx=sreal(2)), f, proof, functions=IMG_FN)]


def c30_observed():
    """both predicates of the reversed path are the conjunction (infimum) and disjunction (supremum) of the very elements of the given
    path's, for any number of objects and interactions; so are, by C15, those of the given path: the values are the same"""
    class Given(Reversed):
        note = " of the given path, direction-independent objects"
        args = Straight.args; contained = Straight.contained; skipped = Straight.skipped
        def hit(self, p, k, j, soft, patch): return Reversed.hit(self, p, p.d.n - k, j, soft, patch)
    keep = lambda c: "default" not in c.name
    return [c for c in c15(Reversed()) if keep(c)] + [c for c in c15(Given())[1:] if keep(c) and "intersects" in c.name]
