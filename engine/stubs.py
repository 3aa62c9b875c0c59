"""Callee contracts installed in place of callee bodies (modular verification)."""
import contextlib


@contextlib.contextmanager
def installed(name):
    fn = REGISTRY[name]
    with fn():
        yield


REGISTRY = {}
