"""Small vocabulary shared by all the checks.

A *facet* is one generated check: `gen` is a hypothesis strategy whose values
are plain JSON ("cases"), `check(case)` rebuilds everything from that case and
raises when the property does not hold.  Since a case is plain data, a failing
case *is* the replay file, and replaying it needs no property testing library.
"""
import hashlib
import json

import numpy as np
from hypothesis import strategies as st


class Violation(AssertionError):
    """The property does not hold for this case"""


class Discard(Exception):
    """This case is outside of the domain (counted, never a failure)"""


class HarnessError(Exception):
    """The machinery itself is broken: never reported as a violation"""


_labels = None


def reset_labels():
    global _labels
    _labels = {"nontrivial": False, "labels": set()}
    return _labels


reset_labels()


def nontrivial(cond=True):
    if cond:
        _labels["nontrivial"] = True


def label(*names):
    for n in names:
        _labels["labels"].add(str(n))


class Facet(object):
    def __init__(self, name, gen, check, quick=400, thorough=None, rule="",
                 examples=(), workers=None):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.examples = list(examples)
        self.workers = workers


def case_hash(facet, case):
    s = facet + json.dumps(case, sort_keys=True, default=str)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "little")


# --------------------------------------------------------------- assertions
def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=40, precision=8)
    return s if len(s) < 900 else s[:900] + "..."


def eq_arr(got, want, msg, dtype=False):
    """exact equality, NaN == NaN"""
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, "{0}: shape {1} != expected {2}",
            msg, got.shape, want.shape)
    if dtype:
        require(got.dtype == want.dtype, "{0}: dtype {1} != expected {2}",
                msg, got.dtype, want.dtype)
    if got.dtype.kind in "fc" and want.dtype.kind in "fc":
        ok = np.array_equal(got, want, equal_nan=True)
    else:
        ok = np.array_equal(got, want)
    if not ok:
        raise Violation("{0}: got\n{1}\nexpected\n{2}".format(msg, _short(got), _short(want)))


def close(got, want, msg, rtol=1e-9, atol=1e-12):
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, "{0}: shape {1} != expected {2}",
            msg, got.shape, want.shape)
    if not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
        with np.errstate(all="ignore"):
            err = np.nanmax(np.abs(np.asarray(got, dtype=complex) - want)) if got.size else 0
        raise Violation("{0}: max err {3:g}\ngot\n{1}\nexpected\n{2}"
                        "".format(msg, _short(got), _short(want), err))


def raises(fn, msg, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    raise Violation("{0}: expected {1}, got {2!r}".format(msg, exc, r))


# --------------------------------------------------------------- generators
seeds = st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.RandomState(seed % (2**32 - 1))


def rarr(seed, shape, kind="f", lo=-10.0, hi=10.0, dtype=None):
    """deterministic array of one of a few flavours, made from a drawn seed"""
    r = rng(seed)
    if kind == "f":
        a = r.uniform(lo, hi, size=shape)
    elif kind == "i":
        a = r.randint(int(lo), int(hi) + 1, size=shape).astype(float)
    elif kind == "uniq":
        n = int(np.prod(shape))
        a = r.permutation(n).astype(float).reshape(shape) + 1.0
    elif kind == "c":
        a = r.uniform(lo, hi, size=shape) + 1j * r.uniform(lo, hi, size=shape)
    else:
        raise HarnessError(kind)
    if dtype is not None:
        a = a.astype(dtype)
    return a


def floats(lo, hi, nd=None):
    """floats that shrink to something readable"""
    s = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    if nd is not None:
        s = s.map(lambda x: round(x, nd))
    return s
