"""C03: assigning through a selection changes the selected elements and no others"""
import numpy as np
from hypothesis import strategies as st

import viscid
from checks import c01, c02
from vf.core import Discard, Facet, eq_arr, label, nontrivial, rarr, require, rng, seeds
from vf.fields import (ambiguous, cc_of, flat_vec, scalar_field, spec_arrs, sshape,
                       vector_field)


@st.composite
def index_cases(draw, vector=False):
    c = draw(c01.cases(vector=vector, newax=False))
    c["value"] = draw(st.sampled_from(["scalar", "array", "array", "row", "field", "self"]))
    c["how"] = draw(st.sampled_from(["setitem", "setitem", "set_slice"]))
    _staggered(draw, c, c.get("nc"))
    return c


def _staggered(draw, c, nc):
    """vectors with a value per cell may be face or edge centered too"""
    spec = c["spec"]
    if "layout" in c and nc == 3 and len(spec["n"]) == 3 and spec["center"] == "cell":
        spec["stag"] = draw(st.sampled_from([None, "face", "edge"]))


def _value(kind, want_idx, seed, data):
    """something to assign to a selection whose elements are want_idx"""
    if kind == "scalar" or want_idx.size == 1:
        return 1234.5, 1234.5
    if kind == "row" and want_idx.ndim > 1:
        v = -rarr(seed + 3, want_idx.shape[-1:], "uniq")
        return v, v
    v = -rarr(seed + 3, want_idx.shape, "uniq")
    return v, v


def check_index(case):
    spec = case["spec"]
    vector = "layout" in case
    shp = sshape(spec)
    arrs = spec_arrs(spec)
    axes = list(spec["names"])
    if vector:
        if ambiguous(shp, case["nc"]):
            raise Discard()
        data = rarr(spec["seed"], (case["nc"],) + shp, "uniq")
        fld = vector_field(spec, data, case["layout"])
    else:
        data = rarr(spec["seed"], shp, "uniq")
        fld = scalar_field(spec, data)
    sel, order = c01.write_selection(case, axes)
    idx = np.arange(data.size).reshape(data.shape)
    comp = case.get("comp")
    off = vector and comp is None
    d = idx if comp is None else idx[comp]
    want_idx, _ = c01.expected(d, case, order, axes, arrs, off)
    # repeated elements: which one wins is up to numpy
    if len(np.unique(want_idx)) != want_idx.size:
        raise Discard()
    if vector and comp is None:
        # broadcasting against a component axis depends on the layout
        v, ref_v = _value("scalar" if case["value"] != "array" else "array", want_idx,
                          spec["seed"], data)
        if np.ndim(v) and case["layout"] == "interlaced":
            v = np.moveaxis(v, 0, -1)
    else:
        v, ref_v = _value(case["value"], want_idx, spec["seed"], data)
    ref = data.copy()
    ref.reshape(-1)[want_idx] = ref_v
    if case["value"] == "field" and np.ndim(v) and not vector:
        sub = fld[sel]
        if isinstance(sub, viscid.field.Field) and sub.shape == np.shape(v):
            sub = viscid.full_like(sub, 0.0)
            sub.data[...] = v
            v = sub
    if case["value"] == "self" and not vector:
        # += goes through both __getitem__ and __setitem__
        ref = data.copy()
        ref.reshape(-1)[want_idx] += 10000.0
        fld[sel] += 10000.0
        label("inplace")
    elif case["how"] == "setitem":
        fld[sel] = v
    else:
        fld.set_slice(sel, v)
    nontrivial(0 < want_idx.size < data.size)
    label(case["value"], case["how"], spec.get("stag") or spec["center"], case["style"],
          *["t" + s[0] for s in case["sels"]])
    got = flat_vec(fld) if vector else np.asarray(fld.data)
    eq_arr(got, ref, "field after the assignment")


@st.composite
def loc_cases(draw, vector=False):
    c = draw(c02.cases(vector=vector))
    c["value"] = draw(st.sampled_from(["scalar", "array"]))
    _staggered(draw, c, 3)
    return c


def check_loc(case):
    spec = case["spec"]
    arrs = spec_arrs(spec)
    cc = spec["center"] == "cell"
    cent = [cc_of(a) if cc else a for a in arrs]
    shp = tuple(len(c) for c in cent)
    vector = "layout" in case
    els, idxs, red = [], [], []
    for c, s in zip(cent, case["sels"]):
        e, i, r = c02.mk_elem(c, s, case["how"])
        els.append(e)
        idxs.append(i)
        red.append(r)
        if len(np.unique(i)) != len(i):
            raise Discard()
    if any(len(i) == 0 for i in idxs):
        raise Discard()
    comp = case.get("comp")
    if vector:
        if ambiguous(shp, 3):
            raise Discard()
        data = rarr(spec["seed"], (3,) + shp, "uniq")
        fld = vector_field(spec, data, case["layout"])
    else:
        data = rarr(spec["seed"], shp, "uniq")
        fld = scalar_field(spec, data)
    idx = np.arange(data.size).reshape(data.shape)
    d = idx if comp is None else idx[comp]
    off = 1 if vector and comp is None else 0
    for ax, i in enumerate(idxs):
        d = np.take(d, i, axis=ax + off)
    d = np.squeeze(d, axis=tuple(i + off for i, r in enumerate(red) if r))
    if case["value"] == "array" and not off:
        v = -rarr(spec["seed"] + 3, d.shape, "uniq")
    else:
        v = 4321.5
    ref = data.copy()
    ref.reshape(-1)[d] = v
    sel = list(els)
    if comp is not None:
        sel.insert(0, "xyz"[comp])
    sel = tuple(sel) if len(sel) > 1 or isinstance(sel[0], list) else sel[0]
    if case["how"] in ("loc", "locstr"):
        fld.loc[sel] = v
    else:
        fld[sel] = v
    nontrivial(0 < d.size < data.size)
    label(case["how"], spec.get("stag") or spec["center"], "vector" if vector else "scalar")
    eq_arr(flat_vec(fld) if vector else np.asarray(fld.data), ref, "field after the assignment")


FACETS = [
    Facet("index", index_cases(), check_index, quick=2000,
          rule="some but not all of the elements are assigned to"),
    Facet("index_vector", index_cases(vector=True), check_index, quick=1200,
          rule="some but not all of the elements are assigned to"),
    Facet("loc", loc_cases(), check_loc, quick=1600,
          rule="some but not all of the elements are assigned to"),
    Facet("loc_vector", loc_cases(vector=True), check_loc, quick=1000,
          rule="some but not all of the elements are assigned to"),
]
