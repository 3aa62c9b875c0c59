"""Abstract objects, paths and functions: everything they return is an uninterpreted function of
what they were given, so a contract proved with them holds for every possible object."""
from typing import Any
import numpy as np
import equinox as eqx
import jax
import jax.numpy as jnp
import differt2d.logic as L
import differt2d.geometry as G
from differt2d.abc import Object
from engine.terms import *
from engine.uf import uf
from engine.interp import F


def enc(kw):
    """keyword arguments -> (tag, arrays)"""
    tag, arrs = [], []
    for k in sorted(kw):
        v = kw[k]
        if callable(v): tag.append(f"{k}={getattr(v, '__name__', repr(v))}")
        elif v is None or isinstance(v, (bool, str)): tag.append(f"{k}={v!r}")
        else: tag.append(f"{k}=#"); arrs.append(jnp.asarray(v, dtype=float))
    return ",".join(tag), arrs


def mode_of(approx): return L.ENABLE_APPROX if approx is None else bool(approx)


def pred(name, approx, kw, *args):
    tag, arrs = enc(kw)
    soft = mode_of(approx)
    return uf(f"{name}|{'soft' if soft else 'exact'}|{tag}", *args, *arrs, kind="float" if soft else "bool")


class AObj(eqx.Module, Object):
    """An arbitrary interactable object with one parameter."""
    ident: Any = eqx.field(converter=jnp.asarray)

    @staticmethod
    def parameters_count(): return 1
    def parametric_to_cartesian(self, param_coords): return uf(f"p2c{self.parameters_count()}", self.ident, param_coords, shape=(2,))
    def cartesian_to_parametric(self, carte_coords): return uf(f"c2p{self.parameters_count()}", self.ident, carte_coords, shape=(self.parameters_count(),))
    def contains_parametric(self, param_coords, approx=None, **kw): return pred("contains", approx, kw, self.ident, param_coords)
    def intersects_cartesian(self, ray, patch=0.0, approx=None, **kw): return pred("hits", approx, kw, self.ident, ray, jnp.asarray(patch, dtype=float))
    def evaluate_cartesian(self, ray_path): return uf("residual", self.ident, ray_path)
    def plot(self, ax, *a, **k): return []
    def bounding_box(self): return uf("bbox", self.ident, shape=(2, 2))


class AObj0(AObj):
    @staticmethod
    def parameters_count(): return 0


class AObj2(AObj):
    @staticmethod
    def parameters_count(): return 2


class APath(G.Path):
    """A path method about which nothing is known."""
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
        tag, arrs = enc(kw)
        tx = tx.xy if isinstance(tx, G.Point) else tx
        rx = rx.xy if isinstance(rx, G.Point) else rx
        ids = [jax.tree_util.tree_leaves(o) for o in objects]
        k = [] if key is None else [key]
        n = len(list(objects))
        return cls(xys=uf(f"path{n}|{'key' if k else ''}|{tag}", tx, *ids, rx, *k, *arrs, shape=(n + 2, 2)), loss=jnp.array(0.0))

    def is_valid(self, objects, path_candidate, interacting_objects, approx=None, **kw):
        return pred(f"valid{len(path_candidate)}", approx, kw, self.xys, [jax.tree_util.tree_leaves(o) for o in objects],
                    jnp.asarray(path_candidate, dtype=float), [jax.tree_util.tree_leaves(o) for o in interacting_objects])


def afun(tx, rx, path, objs, *args, **kw):
    tag, arrs = enc(kw)
    return uf(f"fun{len(args)}|{tag}", tx.xy, rx.xy, path.xys, [jax.tree_util.tree_leaves(o) for o in objs], *[jnp.asarray(x, dtype=float) for x in args], *arrs)


# ------------------------------------------------------------------ the same, as terms
def flat(x):
    if isinstance(x, F): return [x.v]
    if isinstance(x, T): return [x]
    if isinstance(x, np.ndarray): return [t for y in x.reshape(-1) for t in flat(y)]
    if isinstance(x, (list, tuple)): return [t for y in x for t in flat(y)]
    return [lift(x)]


def tu(name, *args, shape=(), kind="float"):
    a = flat(list(args))
    o = np.empty(tuple(shape), dtype=object)
    for j in np.ndindex(tuple(shape)):
        o[j] = app(f"{name}{list(j) if j else ''}", *a, sort="B" if kind == "bool" else "R")
    return o[()] if o.shape == () else o


def tpred(name, soft, tag, *args): return tu(f"{name}|{'soft' if soft else 'exact'}|{tag}", *args, kind="float" if soft else "bool")


def act_spec(name):
    from . import spec
    return {"hard_sigmoid": spec.hard, "sigmoid": spec.logistic}.get(name, lambda x, a: app(name, lift(x), lift(a)))


def my_act(x, alpha):
    """An arbitrary activation function that saturates at infinite arguments (as C01/C02 prove of the two provided ones)."""
    fin = jnp.isfinite(x)
    y = uf("act", jnp.where(fin, x, 0.0), alpha)
    return jnp.where(fin, y, jnp.where(jnp.isnan(x), jnp.nan, jnp.where(x > 0, 1.0, 0.0)))


def uf_act(x, a): return app("act", x, a)


def act_axioms(*terms):
    """instances, at every application of the abstract activation, of the contract C01 proves of the provided ones"""
    cs = []
    for t in topo([x for x in flat(list(terms)) if isinstance(x, T)]):
        if t.op == "app" and t.args[0] == "act":
            x = t.args[1]
            cs += [t >= 0, t <= 1, iff(t > Fr(1, 2), x > 0), iff(eq(t, Fr(1, 2)), eq(x, 0))]
    return conj(*cs)


def pair_axioms(*terms):
    """Agreement of an arbitrary object's soft and exact predicates (the contract proved of walls and vertices)."""
    cs = []
    for t in topo([x for x in flat(list(terms)) if isinstance(x, T)]):
        if t.op == "app" and "|soft|" in t.args[0]:
            name, _, tag = t.args[0].partition("|soft|")
            n = len(t.args) - 1 - tag.count("#")
            e = app(f"{name}|exact|", *t.args[1:1 + n], sort="B")
            cs += [t >= 0, t <= 1, iff(e, t >= Fr(1, 2))]
    return conj(*cs)
