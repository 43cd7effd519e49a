"""C01: slicing a field by index is NumPy basic indexing, data and coordinates alike"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, seeds
from vf.fields import (ambiguous, cc_of, flat_vec, grid_specs, scalar_field, spec_arrs,
                       sshape, vector_field)


# ------------------------------------------------------------------ model
def np_slice(s):
    return slice(*s)


def apply_sel(arr, axis, sel):
    """apply one selection element to one axis, keeping every axis"""
    t = sel[0]
    sl = [slice(None)] * arr.ndim
    if t == "i":
        k = sel[1] if sel[1] >= 0 else sel[1] + arr.shape[axis]
        sl[axis] = slice(k, k + 1)
    elif t == "s":
        sl[axis] = np_slice(sel[1])
    elif t == "a":
        return np.take(arr, [k if k >= 0 else k + arr.shape[axis] for k in sel[1]], axis=axis)
    elif t == "m":
        return np.compress(np.array(sel[1]), arr, axis=axis)
    return arr[tuple(sl)]


def node_crds_after(nodes, sel, cc):
    """node positions that bracket / sit at the selected elements, or None
    where any consistent choice will do (only cell centers are specified)"""
    t = sel[0]
    if not cc:
        return apply_sel(nodes, 0, sel)
    n = len(nodes) - 1
    if t == "s":
        idx = list(range(*np_slice(sel[1]).indices(n)))
        step = 1 if sel[1][2] is None else sel[1][2]
        if step == 1:
            return nodes[idx[0]:idx[-1] + 2]
        if step == -1:
            return nodes[idx[-1]:idx[0] + 2][::-1]
        return None
    if t == "i":
        k = sel[1] % n
        return nodes[k:k + 2]
    return None


# ------------------------------------------------------------- generation
def sel_strategy(n, allow=("i", "s", "a", "m")):
    """selection elements over an axis of n elements, never empty"""
    idx = st.integers(-n, n - 1)
    bound = st.one_of(st.none(), st.integers(-n, n))

    def mk(t):
        if t == "i":
            return idx.map(lambda k: ["i", k])
        if t == "s":
            return st.tuples(bound, bound, st.sampled_from([None, 1, 2, 3, -1, -2, -3])).map(
                lambda s: ["s", list(s)] if len(range(*slice(*s).indices(n))) > 0
                else ["s", [None, None, s[2]]])
        if t == "a":
            return st.lists(idx, min_size=1, max_size=5).map(lambda a: ["a", a])
        if t == "m":
            return st.lists(st.booleans(), min_size=n, max_size=n).map(
                lambda m: ["m", m] if sum(m) >= 1 else ["m", [True] * n])
    return st.one_of([mk(t) for t in allow])


@st.composite
def cases(draw, vector=False, method=("slice",), newax=True, arrays=True, stag=False):
    spec = draw(grid_specs(nd=(1, 3), n=(5, 8) if vector else (2, 7)))
    shp = sshape(spec)
    case = {"spec": spec}
    if vector:
        case["nc"] = draw(st.sampled_from([3, 3, 3, 2]))
        case["layout"] = draw(st.sampled_from(["flat", "interlaced"]))
        case["comp"] = draw(st.sampled_from([None] + list(range(case["nc"]))))
        if stag and case["nc"] == 3 and len(shp) == 3 and spec["center"] == "cell":
            # vectors with a value per cell may be face or edge centered too
            spec["stag"] = draw(st.sampled_from([None, None, "face", "edge"]))
    nd = len(shp)
    sels = []
    used_array = False
    for n in shp:
        allow = ["i", "s", "s", "s"]
        if arrays and not used_array and n >= 2:
            allow += ["a", "m"]
        s = draw(sel_strategy(n, allow))
        used_array = used_array or s[0] in "am"
        sels.append(s)
    case["sels"] = sels
    # how to write it down
    case["style"] = draw(st.sampled_from(["tuple", "strs", "onestr", "named", "mixed"]))
    case["method"] = draw(st.sampled_from(list(method)))
    case["perm"] = draw(st.permutations(list(range(nd))))
    # leave trailing full slices out / an ellipsis in
    case["drop"] = draw(st.booleans())
    case["ell"] = draw(st.booleans())
    case["newax"] = draw(st.sampled_from([0, 0, 1, 2])) if newax and case["method"] == "slice" else 0
    case["newpos"] = [draw(st.integers(0, nd)) for _ in range(case["newax"])]
    case["npint"] = draw(st.booleans())
    case["comp_at"] = draw(st.integers(0, 1))
    return case


def cut(fld, case, sel):
    if case["method"] == "slice" and len(case["perm"]) and case["perm"][0] == 0:
        return fld.iloc[sel]
    return getattr(fld, case["method"])(sel)


def py_elem(sel, npint=False):
    t = sel[0]
    if t == "i":
        return np.int64(sel[1]) if npint else sel[1]
    if t == "s":
        return np_slice(sel[1])
    if t == "a":
        return np.array(sel[1]) if npint else list(sel[1])
    if t == "m":
        return np.array(sel[1]) if npint else [bool(b) for b in sel[1]]


def str_elem(sel):
    t = sel[0]
    if t == "i":
        return str(sel[1])
    if t == "s":
        a, b, c = sel[1]
        s = "{0}:{1}".format("" if a is None else a, "" if b is None else b)
        return s if c is None else s + ":{0}".format(c)
    if t == "a":
        return "[" + ", ".join(str(k) for k in sel[1]) + "]"
    if t == "m":
        return "[" + ", ".join(str(bool(k)) for k in sel[1]) + "]"


def write_selection(case, axes):
    """turn the case into something to put between the brackets, and say which
    (new) axes the result has.  Returns (selection, [(axis or newname)...])"""
    sels = case["sels"]
    style = case["style"]
    full = ["s", [None, None, None]]
    order = [["ax", i] for i in range(len(sels))]
    for p in case["newpos"]:
        order.insert(p, ["new", None])
    inew = 0
    named_new = style in ("named", "onestr")
    for o in order:
        if o[0] == "new":
            o[1] = "u{0}".format(inew) if named_new else "new-x{0}".format(inew)
            inew += 1
    plain = style in ("tuple", "strs", "mixed")
    items = []
    use_ell = False
    if plain:
        rng_items = list(order)
        if case["ell"]:
            # one run of full slices becomes '...' (maybe an empty run)
            k = 0
            while k < len(rng_items) and not (rng_items[k][0] == "ax" and
                                              sels[rng_items[k][1]] == full):
                k += 1
            m = k
            while m < len(rng_items) and (rng_items[m][0] == "ax" and
                                          sels[rng_items[m][1]] == full):
                m += 1
            rng_items[k:m] = [["ell", None]]
            use_ell = True
        if case["drop"] and not use_ell:
            while len(rng_items) > 1 and rng_items[-1][0] == "ax" and \
                    sels[rng_items[-1][1]] == full:
                rng_items.pop()
        for kind, v in rng_items:
            if kind == "new":
                items.append(np.newaxis if style == "tuple" else "newaxis")
            elif kind == "ell":
                items.append(Ellipsis if style == "tuple" else "...")
            elif style == "strs" or (style == "mixed" and v % 2):
                items.append(str_elem(sels[v]))
            else:
                items.append(py_elem(sels[v], case["npint"]))
    else:
        # every axis is named, so full slices may be left out (but then the
        # position of new axes is the natural one only if nothing is left out)
        for kind, v in order:
            if kind == "new":
                items.append("{0} = newaxis".format(v))
            elif case["drop"] and sels[v] == full and not case["newpos"]:
                continue
            else:
                items.append("{0} = {1}".format(axes[v], str_elem(sels[v])))
        if not items:
            items.append("{0} = :".format(axes[0]))
    if case.get("comp") is not None:
        name = "xyz"[case["comp"]]
        items.insert(0 if case["comp_at"] == 0 else len(items), name)
    if style == "onestr":
        sel = ", ".join(items)
    elif len(items) == 1 and not isinstance(items[0], list):
        sel = items[0]
    else:
        sel = tuple(items)
    return sel, order


def expected(data, case, order, axes, arrs, comp_axis):
    """orthogonal NumPy indexing; data has components first if comp_axis"""
    off = 1 if comp_axis else 0
    keep = case["method"]
    cc = case["spec"]["center"] == "cell"
    want = np.asarray(data)
    for i, s in enumerate(case["sels"]):
        want = apply_sel(want, i + off, s)
    crds = []
    squeeze = []
    for i, s in enumerate(case["sels"]):
        n_here = want.shape[i + off]
        if keep == "slice":
            gone = s[0] == "i"
        elif keep == "slice_keep":
            gone = False
        else:
            gone = s[0] == "i" or sshape(case["spec"])[i] == 1
        centers = cc_of(arrs[i]) if cc else arrs[i]
        if gone:
            require_len1 = n_here == 1
            assert require_len1
            squeeze.append(i + off)
        else:
            crds.append((axes[i], apply_sel(centers, 0, s),
                         node_crds_after(arrs[i], s, cc)))
    want = np.squeeze(want, axis=tuple(squeeze))
    # put the new axes in
    if case["newpos"]:
        pos = 0
        crds2 = []
        it = iter(crds)
        for kind, v in order:
            if kind == "ax":
                if case["sels"][v][0] == "i":
                    continue
                crds2.append(next(it))
            else:
                want = np.expand_dims(want, pos + off)
                crds2.append((v, None, None))
            pos += 1
        crds = crds2
    return want, crds


def compare(fld, got, want, crds, cc, nr_comps=None):
    if want.size == 1 and not isinstance(got, viscid.field.Field):
        eq_arr(np.asarray(got).reshape(()), want.reshape(()), "scalar result")
        label("scalar-result")
        return
    require(isinstance(got, viscid.field.Field), "expected a field, got {0!r}", type(got))
    require(got.center.lower() == fld.center.lower(), "centering changed to {0}", got.center)
    require(list(got.crds.axes) == [c[0] for c in crds], "axes {0} != {1}",
            list(got.crds.axes), [c[0] for c in crds])
    gd = flat_vec(got) if nr_comps else np.asarray(got.data)
    eq_arr(gd, want, "sliced data")
    require(tuple(got.sshape) == want.shape[(1 if nr_comps else 0):], "sshape")
    for ax, centers, nodes in crds:
        if centers is None:
            continue
        if got.iscentered("node") or got.iscentered("cell"):
            close(got.get_crd(ax), centers, "coordinates of data along " + ax, 1e-9, 1e-9)
        close(got.crds.get_crd(ax, center="cell" if cc else "node"), centers,
              "coordinates along " + ax, 1e-9, 1e-9)
        if nodes is not None:
            close(got.get_crd_nc(ax), nodes, "node coordinates along " + ax, 1e-9, 1e-9)
        if cc:
            gn = got.get_crd_nc(ax)
            require(len(gn) == len(centers) + 1, "number of nodes along {0}", ax)
            sgn = np.sign(centers[-1] - centers[0])
            if nodes is None and len(centers) > 1 and np.all(np.diff(centers) * sgn > 0):
                require(np.all(sgn * (centers - gn[:-1]) > 0) and
                        np.all(sgn * (gn[1:] - centers) > 0),
                        "nodes along {0} are not around the cells: {1} {2}", ax, gn, centers)


def _all_full(case):
    return all(s == ["s", [None, None, None]] for s in case["sels"])


def check_scalar(case, mk=scalar_field):
    spec = case["spec"]
    arrs = spec_arrs(spec)
    data = rarr(spec["seed"], sshape(spec), "uniq")
    fld = mk(spec, data)
    axes = list(spec["names"])
    sel, order = write_selection(case, axes)
    want, crds = expected(data, case, order, axes, arrs, False)
    got = cut(fld, case, sel)
    nontrivial(not _all_full(case) and want.size > 1)
    label(case["method"], case["style"], spec["center"], *["t" + s[0] for s in case["sels"]])
    if any(s[0] == "s" and s[1][2] not in (None, 1) for s in case["sels"]):
        label("step")
    if case["newpos"]:
        label("newaxis")
    compare(fld, got, want, crds, spec["center"] == "cell")
    if case["method"] == "slice":
        got2 = fld[sel]
        compare(fld, got2, want, crds, spec["center"] == "cell")
    eq_arr(fld.data, data, "the sliced field itself")


def check_vector(case, mk=vector_field):
    spec = case["spec"]
    if ambiguous(sshape(spec), case["nc"]):
        raise Discard()
    arrs = spec_arrs(spec)
    data = rarr(spec["seed"], (case["nc"],) + sshape(spec), "uniq")
    fld = mk(spec, data, case["layout"])
    axes = list(spec["names"])
    sel, order = write_selection(case, axes)
    d = data if case["comp"] is None else data[case["comp"]]
    want, crds = expected(d, case, order, axes, arrs, case["comp"] is None)
    if case["comp"] is None and want.ndim > 1 and ambiguous(want.shape[1:], case["nc"]):
        raise Discard()
    got = cut(fld, case, sel)
    nontrivial(not _all_full(case))
    if case["comp"] is None and want.ndim == 1:
        # a lone vector
        label("lone-vector")
        eq_arr(np.asarray(got.data), want, "the vector at a point")
        return
    label(case["method"], case["style"], spec.get("stag") or spec["center"], case["layout"],
          "comp" if case["comp"] is not None else "allcomps")
    compare(fld, got, want, crds, spec["center"] == "cell",
            case["nc"] if case["comp"] is None else None)
    eq_arr(flat_vec(fld), data, "the sliced field itself")


def check_chain(case):
    """slicing twice == slicing the arrays twice (the result is itself a proper field)"""
    spec = case["spec"]
    arrs = spec_arrs(spec)
    cc = spec["center"] == "cell"
    data = rarr(spec["seed"], sshape(spec), "uniq")
    fld = scalar_field(spec, data)
    cent = [cc_of(a) if cc else a for a in arrs]
    for step in case["steps"]:
        sel = []
        for i, s in enumerate(step):
            n = data.shape[i]
            s = [s[0], s[1], s[2]]
            if len(range(*slice(*s).indices(n))) == 0:
                s = [None, None, s[2]]
            sel.append(slice(*s))
            cent[i] = cent[i][sel[-1]]
        data = data[tuple(sel)]
        if data.size == 1:
            raise Discard()
        fld = fld[tuple(sel)]
        eq_arr(fld.data, data, "data after the chain")
        for ax, c in zip(spec["names"], cent):
            close(fld.get_crd(ax), c, "coordinates after the chain along " + ax, 1e-9, 1e-9)
    nontrivial(len(case["steps"]) > 1)


@st.composite
def chain_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(4, 9)))
    b = st.one_of(st.none(), st.integers(-8, 8))
    el = st.tuples(b, b, st.sampled_from([None, None, 1, 2, 3, -1, -2])).map(list)
    steps = [[draw(el) for _ in spec["n"]] for _ in range(draw(st.integers(1, 3)))]
    return {"spec": spec, "steps": steps}


FACETS = [
    Facet("scalar", cases(), check_scalar, quick=2400,
          rule="at least one axis is really sliced and more than one element is left"),
    Facet("keep_reduce", cases(method=("slice_keep", "slice_reduce"), newax=False), check_scalar,
          quick=1200, rule="at least one axis is really sliced and more than one element is left"),
    Facet("vector", cases(vector=True, stag=True), check_vector, quick=1600,
          rule="at least one axis is really sliced"),
    Facet("chain", chain_cases(), check_chain, quick=800, rule="two or more slices in a row"),
]
