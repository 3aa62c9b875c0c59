"""Uninterpreted functions as a JAX primitive (batchable, differentiable, executable)."""
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Primitive
from jax._src import core as jcore
from jax.interpreters import ad, batching, mlir
from .evalt import uf_weights

uf_p = Primitive("vc_uf")


def _abstract(*xs, name, shape, kind, nb, deriv, mode):
    bs = xs[0].shape[:nb] if xs else ()
    dt = {"float": jnp.result_type(float), "bool": jnp.bool_, "int": jnp.int32}[kind]
    if kind == "float":
        for x in xs:
            if jnp.issubdtype(x.dtype, jnp.floating): dt = jnp.result_type(dt, x.dtype) if False else dt
    return jcore.ShapedArray(tuple(bs) + tuple(shape) + (() if deriv is None else (len(deriv),)), dt)


uf_p.def_abstract_eval(_abstract)


def _weights(name, n): return uf_weights(name.partition("|soft|")[0].partition("|exact|")[0] + "|exact|" if "|soft|" in name or "|exact|" in name else name, n)


def _eval(xp, v, n, bs, name, shape, deriv):
    """outputs of one uninterpreted function: values, or (deriv: tuple of argument indices) partial derivatives in a last axis"""
    outs = []
    for j in np.ndindex(tuple(shape)):
        nm = f"{name}{list(j) if j else ''}"
        if nm == "act":
            x, al = v[..., 0], v[..., 1]
            z = al * x; q = 1.0 + xp.abs(z)
            outs.append(0.5 + 0.5 * z / q if deriv is None else xp.stack([0.5 * (al if d == 0 else x) / (q * q) for d in deriv], axis=-1)); continue
        b, w, q = _weights(nm, n)
        if deriv is None: r = b + (v * w).sum(-1) + xp.einsum("...i,ij,...j->...", v, xp.asarray(q, dtype=v.dtype), v)
        else: r = w[list(deriv)] + v @ xp.asarray((q + q.T)[:, list(deriv)], dtype=v.dtype)
        if "|soft|" in nm and deriv is None: r = 0.5 + 0.5 * r / (1.0 + xp.abs(r))
        if nm.startswith("nn:"): r = xp.abs(r)
        outs.append(r)
    tail = () if deriv is None else (len(deriv),)
    if not outs: return xp.zeros(tuple(bs) + tuple(shape) + tail)
    return xp.stack(outs, axis=len(bs)).reshape(tuple(bs) + tuple(shape) + tail)


def _impl(*xs, name, shape, kind, nb, deriv, mode):
    bs = xs[0].shape[:nb] if xs else ()
    flat = []
    for x in xs:
        if jnp.issubdtype(x.dtype, jnp.unsignedinteger): x = x.astype(float) / 2.0 ** 32
        elif x.dtype == jnp.bool_: x = jnp.where(x, 1.0, 0.0)
        flat.append(x.astype(float).reshape(tuple(bs) + (-1,)))
    n = sum(f.shape[-1] for f in flat)
    v = jnp.concatenate(flat, axis=-1) if flat else jnp.zeros(tuple(bs) + (0,))
    r = _eval(jnp, v, n, bs, name, shape, deriv)
    if kind == "bool": return r > 0
    if kind == "int": return r.astype(jnp.int32)
    return r.astype(jnp.result_type(float))


def _concrete(*xs, name, shape, kind, nb, deriv, mode):
    """_impl on concrete arrays, without compiling anything"""
    xs = [np.asarray(x) for x in xs]
    ft = np.dtype(jnp.result_type(float))
    bs = xs[0].shape[:nb] if xs else ()
    flat = []
    for x in xs:
        if x.dtype.kind == "u": x = (x.astype(ft) / ft.type(2.0 ** 32))
        elif x.dtype == bool: x = np.where(x, 1.0, 0.0)
        flat.append(x.astype(ft).reshape(tuple(bs) + (-1,)))
    n = sum(f.shape[-1] for f in flat)
    v = np.concatenate(flat, axis=-1).astype(float) if flat else np.zeros(tuple(bs) + (0,))
    with np.errstate(all="ignore"): r = _eval(np, v, n, bs, name, shape, deriv)
    return jnp.asarray(r > 0 if kind == "bool" else r.astype(np.int32) if kind == "int" else r.astype(ft))


uf_p.def_impl(_concrete)
mlir.register_lowering(uf_p, mlir.lower_fun(_impl, multiple_results=False))


def _batch(args, dims, **p):
    n = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    nb = p["nb"]
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            a = jnp.broadcast_to(a, (n,) + a.shape)
        else:
            a = jnp.moveaxis(a, d, 0)
        new.append(a)
    p["nb"] = nb + 1
    return uf_p.bind(*new, **p), 0


batching.primitive_batchers[uf_p] = _batch


def _jvp(primals, tangents, **p):
    y = uf_p.bind(*primals, **p)
    if p["kind"] != "float" or p["deriv"] is not None:
        return y, ad.Zero.from_primal_value(y) if p["kind"] == "float" else ad.Zero(jcore.get_aval(y).to_tangent_aval())
    nb = p["nb"]
    bs = y.shape[:nb]
    idx, tan = [], []
    i = 0
    for x, t in zip(primals, tangents):
        sz = int(np.prod(x.shape[nb:], dtype=int))
        if type(t) is not ad.Zero and sz:
            idx += range(i, i + sz); tan.append(t.reshape(tuple(bs) + (sz,)))
        i += sz
    if not idx:
        return y, ad.Zero.from_primal_value(y)
    d = uf_p.bind(*primals, **{**p, "deriv": tuple(idx)})
    t = tan[0] if len(tan) == 1 else jnp.concatenate(tan, axis=-1)
    return y, (d * t.reshape(tuple(bs) + (1,) * len(p["shape"]) + (len(idx),))).sum(-1)


ad.primitive_jvps[uf_p] = _jvp


def uf(name, *args, shape=(), kind="float", mode="plain"):
    xs = []
    for a in args:
        for leaf in jax.tree_util.tree_leaves(a):
            if not hasattr(leaf, "dtype"): leaf = jnp.asarray(leaf)
            if jnp.issubdtype(leaf.dtype, jax.dtypes.prng_key): leaf = jax.random.key_data(leaf)
            xs.append(leaf)
    return uf_p.bind(*xs, name=name, shape=tuple(shape), kind=kind, nb=0, deriv=None, mode=mode)
