"""functions fall back to numpy where there's no numexpr, let them think so now and then"""
from contextlib import contextmanager

NAMES = ["_HAS_NUMEXPR", "_has_numexpr"]


def switch(mod, on):
    old = {n: getattr(mod, n) for n in NAMES if isinstance(getattr(mod, n, None), bool)}
    for n, v in old.items():
        setattr(mod, n, v and on)
    return old


def restore(mod, old):
    for n, v in old.items():
        setattr(mod, n, v)


@contextmanager
def numexpr(mod, on):
    old = switch(mod, on)
    try:
        yield
    finally:
        restore(mod, old)
