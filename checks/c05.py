"""C05: how data is stored (lazily, transposed, reflected, as structs of arrays or arrays of
structs) never shows in what is read"""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.readers.hdf5 import H5pyDataWrapper
from checks import c01, c02
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, seeds
from vf.fields import (ambiguous, flat_vec, grid_specs, scalar_field, spec_arrs, sshape,
                       vector_field)

_count = [0]


def _h5(data):
    """put an array on disk, return the file name"""
    fname = os.path.abspath("c05-{0}.h5".format(_count[0] % 8))
    _count[0] += 1
    if os.path.exists(fname):
        os.remove(fname)
    with h5py.File(fname, "w") as f:
        f["d"] = data
    return fname


def lazy_crds(spec, store):
    """coordinates that are what spec says once they have been reflected"""
    arrs = spec_arrs(spec)
    refl = [a for a in store["reflect"] if a in spec["names"]]
    clist = []
    uniform = store["uniform"] and all(k == "u" for k in spec["k"])
    for ax, a in zip(spec["names"], arrs):
        if ax in refl:
            a = -1.0 * a[::-1]
        clist.append([ax, [a[0], a[-1], len(a)] if uniform else a])
    return viscid.coordinate.wrap_crds(
        "uniform_cartesian" if uniform else "nonuniform_cartesian", clist,
        reflect_axes=refl), refl


def to_disk(data, spec, refl, zyx, comps=False):
    """reverse reflected axes, and transpose the spatial ones"""
    off = 1 if comps else 0
    sl = [slice(None)] * data.ndim
    for i, ax in enumerate(spec["names"]):
        if ax in refl:
            sl[i + off] = slice(None, None, -1)
    d = data[tuple(sl)]
    if zyx:
        d = np.transpose(d, list(range(off)) + list(range(off, data.ndim))[::-1])
    return d


def lazy_scalar(spec, data, store):
    crds, refl = lazy_crds(spec, store)
    d = to_disk(data, spec, refl, store["zyx"]).astype(store["dtype"])
    if store["comp_dim"] is not None:
        # this scalar is one component of a bigger dataset
        cd = min(store["comp_dim"], d.ndim)
        junk = np.stack([d + 1000, d + 2000, d], axis=cd)
        junk = np.moveaxis(junk, cd, cd)
        src = H5pyDataWrapper(_h5(junk), "d", comp_dim=cd if store["pos"] else cd - d.ndim - 1,
                              comp_idx=2)
    elif store["src"] == "h5":
        src = H5pyDataWrapper(_h5(d), "d")
    else:
        src = d
    return viscid.wrap_field(src, crds, name="f", fldtype="scalar", center=spec["center"],
                             zyx_native=store["zyx"])


def lazy_vector(spec, data, layout, store):
    crds, refl = lazy_crds(spec, store)
    d = to_disk(data, spec, refl, store["zyx"], comps=True).astype(store["dtype"])
    kw = dict(name="v", fldtype="vector", center=spec["center"], zyx_native=store["zyx"])
    how = store["vsrc"]
    if how == "array":
        if layout == "interlaced":
            d = np.ascontiguousarray(np.moveaxis(d, 0, -1))
        src = H5pyDataWrapper(_h5(d), "d") if store["src"] == "h5" else d
        return viscid.wrap_field(src, crds, **kw)
    if how == "list":
        fname = _h5(np.moveaxis(d, 0, -1))
        src = [H5pyDataWrapper(fname, "d", comp_dim=-1, comp_idx=i) for i in range(d.shape[0])]
        return viscid.wrap_field(src, crds, **kw)
    fname = _h5(d)
    flds = []
    for i in range(d.shape[0]):
        src = H5pyDataWrapper(fname, "d", comp_dim=0, comp_idx=i)
        flds.append(viscid.wrap_field(src, crds, name="v" + "xyz"[i], fldtype="scalar",
                                      center=spec["center"], zyx_native=store["zyx"]))
    if refl:
        # fields made of fields do the reflection in the components
        raise Discard()
    return viscid.scalar_fields_to_vector(flds, name="v")


stores = st.fixed_dictionaries({
    "zyx": st.booleans(), "reflect": st.sampled_from(["", "", "x", "xy", "yz", "z"]),
    "uniform": st.booleans(), "src": st.sampled_from(["h5", "h5", "h5", "mem"]),
    "vsrc": st.sampled_from(["array", "array", "list", "fields"]),
    "comp_dim": st.sampled_from([None, None, 0, 1, 3]), "pos": st.booleans(),
    "dtype": st.sampled_from(["f8", ">f8", "f4", ">f4", "i4"])})


@st.composite
def with_store(draw, base):
    c = draw(base)
    c["store"] = draw(stores)
    return c


def _labels(case):
    s = case["store"]
    label("zyx" if s["zyx"] else "xyz", "reflect" if s["reflect"] else "straight", s["src"],
          "dtype " + s["dtype"])


def check_scalar(case):
    c01.check_scalar(case, mk=lambda spec, data: lazy_scalar(spec, data, case["store"]))
    _labels(case)


def check_vector(case):
    c01.check_vector(case, mk=lambda spec, data, layout: lazy_vector(spec, data, layout,
                                                                     case["store"]))
    _labels(case)
    label(case["store"]["vsrc"])


def check_loc(case):
    """by location, and before / after / without loading must agree"""
    spec = case["spec"]
    if case["how"] in ("loc", "locstr"):
        raise Discard()
    store = case["store"]
    data = rarr(spec["seed"], sshape(spec), "uniq")
    ref = scalar_field(spec, data)
    cent = [ref.get_crd(a) for a in spec["names"]]
    els, n = [], 1
    for c, s in zip(cent, case["sels"]):
        e, i, _ = c02.mk_elem(c, s, case["how"])
        if len(i) == 0:
            raise Discard()
        els.append(e)
        n *= len(i)
    sel = tuple(els)
    fld = lazy_scalar(spec, data, store)
    want = ref[sel]
    got = [getattr(fld, "slice")(sel)]
    require(not fld.is_loaded or store["src"] == "mem" or
            any(s[0] == "pa" for s in case["sels"]) or
            all(s == ["s", None, None, None] for s in case["sels"]),
            "slicing a lazy field read all of it")
    fld.resolve()
    require(fld.is_loaded, "not loaded after resolve()")
    got.append(fld[sel])
    fld.clear_cache()
    require(not fld.is_loaded, "still loaded after clear_cache()")
    got.append(fld[sel])
    nontrivial(1 < n < data.size)
    _labels(case)
    for g, what in zip(got, ("lazy", "loaded", "cleared")):
        if not isinstance(want, viscid.field.Field):
            eq_arr(np.asarray(g).astype("f8"), np.asarray(want), what + " scalar")
            continue
        eq_arr(np.asarray(g.data).astype("f8"), want.data, what + " data")
        require(list(g.crds.axes) == list(want.crds.axes), "axes {0}", what)
        for ax in want.crds.axes:
            close(g.get_crd(ax), want.get_crd(ax), what + " coordinates", 1e-6, 1e-6)


# ----------------------------------------------------------------- layouts
@st.composite
def layout_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(draw(st.sampled_from([1, 2])), 6)))
    return {"spec": spec, "nc": draw(st.sampled_from([2, 3])), "store": draw(stores),
            "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "ops": draw(st.lists(st.sampled_from(
                ["as_flat", "as_interlaced", "as_flat_nc", "layout=flat", "layout=interlaced", "clear", "copy", "atleast_3d"]),
                min_size=1, max_size=4))}


def check_layout(case):
    spec = case["spec"]
    nc = case["nc"]
    long = [n for n in sshape(spec) if n > 1]
    if [nc] + long == long + [nc] or spec["center"] == "cell" and 1 in spec["n"]:
        raise Discard()
    data = rarr(spec["seed"], (nc,) + sshape(spec), "uniq")
    fld = lazy_vector(spec, data, case["layout"], case["store"])
    label(case["layout"], case["store"]["vsrc"])
    nontrivial()
    want_shape = sshape(spec)
    for op in case["ops"]:
        label(op)
        if op == "as_flat":
            fld = fld.as_flat()
            require(fld.layout == "flat", "as_flat gave {0}", fld.layout)
        elif op == "as_flat_nc":
            fld = fld.as_layout("flat", force_c_contiguous=False)
            require(fld is not None and fld.layout == "flat", "as_layout gave {0!r}", fld)
        elif op == "as_interlaced":
            fld = fld.as_interlaced()
            require(fld.layout == "interlaced", "as_interlaced gave {0}", fld.layout)
        elif op == "layout=flat":
            fld.layout = "flat"
            require(fld.layout == "flat", "layout is {0}", fld.layout)
        elif op == "layout=interlaced":
            fld.layout = "interlaced"
            require(fld.layout == "interlaced", "layout is {0}", fld.layout)
        elif op == "clear":
            fld.clear_cache()
        elif op == "atleast_3d":
            fld = fld.atleast_3d()
            want_shape = sshape(spec) + (1,) * (3 - len(sshape(spec)))
        elif op == "copy":
            fld = viscid.field.rewrap_field(fld)
    data = data.reshape((nc,) + want_shape)
    eq_arr(flat_vec(fld).astype("f8"), data, "vector data")
    require(fld.nr_comps == nc, "nr_comps {0}", fld.nr_comps)
    require(tuple(fld.sshape) == want_shape, "sshape {0}", fld.sshape)
    require(tuple(fld.shape) == fld.data.shape, "shape {0} vs data {1}", fld.shape, fld.data.shape)
    for i, (cf, cv) in enumerate(zip(fld.component_fields(), fld.component_views())):
        eq_arr(np.asarray(cf.data).astype("f8"), data[i], "component_fields")
        eq_arr(np.asarray(cv).astype("f8"), data[i], "component_views")
        eq_arr(np.asarray(fld["xyz"[i]]).astype("f8").reshape(data[i].shape), data[i],
               "component by name")


# ---------------------------------------------------------- make_fwd_slice
@st.composite
def fwd_cases(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 7)) for _ in range(nd)]
    sels = [draw(c01.sel_strategy(n, ("i", "s", "s", "s"))) for n in shape]
    return {"shape": shape, "sels": sels, "rev": [draw(st.booleans()) for _ in shape],
            "newax": draw(st.lists(st.integers(0, nd), max_size=2)),
            "ntrail": draw(st.integers(0, nd - 1))}


def check_fwd(case):
    a = rarr(5, tuple(case["shape"]), "uniq")
    sl = [c01.py_elem(s) for s in case["sels"]]
    if case["ntrail"]:
        sl = sl[:len(sl) - case["ntrail"]]
    for p in case["newax"]:
        sl.insert(min(p, len(sl)), np.newaxis)
    rev = list(case["rev"])
    flipped = a[tuple(slice(None, None, -1) if r else slice(None) for r in rev)]
    want = flipped[tuple(sl)]
    # reverse has one entry per slice, new axes included
    r2, it = [], iter(rev)
    for s in sl:
        r2.append(False if s is np.newaxis else next(it))
    r2 += list(it)
    first, second = viscid.make_fwd_slice(a.shape, list(sl), r2)
    for f in first:
        if isinstance(f, slice):
            require(f.step is None or f.step > 0, "first slice goes backward: {0}", f)
    eq_arr(a[tuple(first)][tuple(second)], want, "make_fwd_slice")
    nontrivial(want.size > 1 and any(rev))


FACETS = [
    Facet("scalar", with_store(c01.cases(method=("slice", "slice_keep", "slice_reduce"))),
          check_scalar, quick=1600, rule="a real slice with more than one element left"),
    Facet("vector", with_store(c01.cases(vector=True)), check_vector, quick=1200,
          rule="a real slice"),
    Facet("loc", with_store(c02.cases()), check_loc, quick=1200,
          rule="the region holds some but not all of the elements"),
    Facet("layout", layout_cases(), check_layout, quick=1000, rule="every case"),
    Facet("fwd_slice", fwd_cases(), check_fwd, quick=3000,
          rule="a reversed axis and more than one element left"),
]
