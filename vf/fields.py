"""Build grids and fields out of plain JSON specs, using only the public API"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import rng, seeds


def axis_arr(kind, n, seed, lo=-4.0, scale=1.0):
    """n strictly increasing node coordinates"""
    r = rng(seed)
    if kind == "u":
        dx = scale * round(0.2 + r.uniform(0.0, 1.5), 3)
        x0 = round(lo + r.uniform(-2, 2), 3)
        return np.linspace(x0, x0 + dx * (n - 1), n) if n > 1 else np.array([x0])
    x0 = round(lo + r.uniform(-2, 2), 3)
    dx = scale * (0.25 + r.uniform(0.0, 1.2, size=max(n - 1, 0)))
    return x0 + np.concatenate([[0.0], np.cumsum(dx)])


@st.composite
def grid_specs(draw, nd=(1, 3), n=(2, 7), kinds=("u", "n"), mixed=True,
               centers=("node", "cell"), names="xyz"):
    """{'n': nodes per axis, 'k': kind per axis, 'seed', 'center'}"""
    dim = draw(st.integers(*nd))
    shape = [draw(st.integers(*n)) for _ in range(dim)]
    if mixed:
        k = [draw(st.sampled_from(list(kinds))) for _ in range(dim)]
    else:
        k = [draw(st.sampled_from(list(kinds)))] * dim
    return {"n": shape, "k": k, "seed": draw(seeds),
            "center": draw(st.sampled_from(list(centers))), "names": names[:dim]}


def spec_arrs(spec):
    return [axis_arr(k, n, spec["seed"] + 17 * i)
            for i, (k, n) in enumerate(zip(spec["k"], spec["n"]))]


def spec_crds(spec):
    arrs = spec_arrs(spec)
    return viscid.arrays2crds(arrs, crd_names=spec["names"])


def sshape(spec):
    c = 1 if spec["center"] == "cell" else 0
    return tuple(max(n - c, 1) for n in spec["n"])


def cc_of(nc):
    nc = np.asarray(nc)
    return 0.5 * (nc[1:] + nc[:-1]) if len(nc) > 1 else nc


def ambiguous(shape, nr_comps):
    """would a flat and an interlaced vector on this grid look alike?"""
    s = list(shape)
    if 1 in s:
        return True
    return [nr_comps] + s == s + [nr_comps]


def scalar_field(spec, data, **kw):
    return viscid.wrap_field(np.array(data), spec_crds(spec), name=kw.pop("name", "f"),
                             fldtype="scalar", center=spec["center"], **kw)


def vector_field(spec, data, layout, **kw):
    """data is always given (nr_comps,) + sshape"""
    d = np.array(data)
    if layout == "interlaced":
        d = np.ascontiguousarray(np.moveaxis(d, 0, -1))
    return viscid.wrap_field(d, spec_crds(spec), name=kw.pop("name", "v"), fldtype="vector",
                             center=spec.get("stag") or spec["center"], layout=layout, **kw)


def flat_vec(fld):
    """vector data as (nr_comps,) + sshape regardless of layout"""
    d = np.asarray(fld.data)
    if fld.layout == "interlaced":
        d = np.moveaxis(d, -1, 0)
    return d
