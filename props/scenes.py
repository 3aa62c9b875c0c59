"""Scenes of arbitrary objects, for the scene-level checks (C22-C25)."""
from typing import Any
import itertools
import equinox as eqx
from engine.verify import *
from props.abstract import *
from differt2d import geometry as G
from differt2d.scene import Scene

TX = ["tx_b", "rx", "a", "TX_b", "", "tx_10", "tx_2", *[f"t{i}" for i in range(450)]]
RX = ["rx", " rx", "tx", "a", "A", "", "0rx", "rx_2", *[f"r{i}" for i in range(450)]]
KINDS = {"same": lambda i: AObj, "mixed": lambda i: (AObj, AObj0, AObj2)[i % 3], "late": lambda i: AObj0 if i == 0 else AObj}


class _Kinds(dict):
    """"last<n>": only object n - 1 is of another class"""
    def __missing__(self, k):
        n = int(k[4:])
        return lambda i: AObj0 if i == n - 1 else AObj


KINDS = _Kinds(KINDS)


class Tx(G.Point): """a transmitter of its own class"""
class Rx(G.Point): """a receiver of its own class"""


class RPath(APath):
    """an arbitrary path that also remembers the key it was given"""
    key: Any = None
    @classmethod
    def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kw):
        p = APath.from_tx_objects_rx(tx, objects, rx, key=key, **kw)
        return cls(xys=p.xys, loss=p.loss, key=None if key is None else jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key)


def inputs(nt, no, nr): return dict(tx=real(max(nt, 1), 2), rx=real(max(nr, 1), 2), ids=real(max(no, 1)))


def mkscene(q, nt, no, nr, kind="same"):
    return Scene(transmitters={TX[i]: Tx(xy=q.tx[i]) for i in range(nt)}, receivers={RX[i]: Rx(xy=q.rx[i]) for i in range(nr)}, objects=[KINDS[kind](i)(ident=q.ids[i]) for i in range(no)])


def candidates(n, lo=0, hi=1, order=None, banned=()):
    """all candidates, orders increasing (C21 decides the enumeration)"""
    from props.c21 import spec
    return [sorted(w) for _, w in spec(n, lo, hi, order, banned)]


def in_orders(got, want):
    """got: list of tuples; want: list of lists per order. None if got enumerates them exactly, orders increasing"""
    i = 0
    for w in want:
        if sorted(got[i:i + len(w)]) != sorted(w): return f"candidates {got[i:i + len(w)]}, expected an enumeration of {w}"
        i += len(w)
    return None if i == len(got) else f"{len(got)} entries, expected {i}"


def concrete(s, seed):
    rng = np.random.default_rng(seed)
    return to_jax(s, {n: rng.normal(size=x.shape) if x.kind == "real" else np.array(rng.integers(0, 2 ** 31, size=2), np.uint32) for n, x in s.items()})


def close(a, b, tol=1e-5):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.array_equal(a, b) if a.dtype.kind == "b" or b.dtype.kind == "b" else np.allclose(a, b, rtol=tol, atol=tol))
