"""C10: fields on many patches (AMR): neighbors, arithmetic, slices, interpolation, streamlines and files"""
import itertools
import os
import shutil

import h5py
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import amr_field, amr_grid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds
from vf.fields import flat_vec


@st.composite
def tilings(draw, big=True):
    nb = [draw(st.integers(1, 3)) for _ in range(3)]
    if draw(st.booleans()):
        nb[2] = 1
    ntot = nb[0] * nb[1] * nb[2]
    how = draw(st.sampled_from(["none", "some", "some", "around"] if big else ["none", "some", "some"]))
    if how == "around":
        nb = [3, 3, draw(st.sampled_from([1, 3]))]
        ntot = nb[0] * nb[1] * nb[2]
        ref = [i != ntot // 2 for i in range(ntot)]
    elif how == "some":
        ref = [draw(st.integers(0, 2)) == 0 for _ in range(ntot)]
    else:
        ref = [False] * ntot
    return {"nb": nb, "ref": ref, "flat": draw(st.booleans()), "L": [draw(st.sampled_from([1.0, 2.0, 0.75, 10.0])) for _ in range(3)],
            "x0": [draw(st.sampled_from([0.0, -1.0, -20.0, 3.5])) for _ in range(3)], "same_n": draw(st.booleans()),
            "n": [draw(st.integers(2, 5)) for _ in range(3)], "uni": draw(st.sampled_from(["uniform", "uniform", "nonuniform"])),
            "shuffle": draw(st.booleans()), "seed": draw(seeds), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
            "lay": draw(st.sampled_from(["flat", "interlaced"]))}


def boxes(case):
    """list of (xl, xh)"""
    out = []
    L, x0 = np.array(case["L"]), np.array(case["x0"])
    for k, ijk in enumerate(itertools.product(*[range(n) for n in case["nb"]])):
        lo = x0 + L * np.array(ijk)
        if not case["ref"][k]:
            out.append((lo, lo + L))
            continue
        # quadtrees don't split z
        ns = (2, 2, 1) if case["flat"] else (2, 2, 2)
        for sub in itertools.product(*[range(m) for m in ns]):
            h = L / np.array(ns)
            out.append((lo + h * np.array(sub), lo + h * (np.array(sub) + 1)))
    if case["shuffle"]:
        out = [out[i] for i in rng(case["seed"]).permutation(len(out))]
    return out


def nodes(case, i, lo, hi):
    r = rng(case["seed"] + 101 * i + 7)
    out = []
    for a, b, n in zip(lo, hi, case["n"]):
        if not case["same_n"]:
            n = r.randint(2, 7)
        x = np.linspace(a, b, n + 1)
        if case["uni"] != "uniform":
            x[1:-1] += r.uniform(-0.3, 0.3, n - 1) * (b - a) / n
        out.append(x)
    return out


def make_crds(case, ncs):
    if case["uni"] == "uniform":
        return viscid.wrap_crds("uniform_cartesian", [(c, [a[0], a[-1], len(a)]) for c, a in zip("xyz", ncs)])
    return viscid.arrays2crds(ncs)


def patch_vals(case, i, sh, k=0):
    r = rng(case["seed"] + 13 * i + 1009 * k + 3)
    return r.randint(-50, 50, sh).astype("i8") if case["dtype"][0] == "i" else r.uniform(-5, 5, sh).astype(case["dtype"])


def build(case, names=("f", "g", "v"), t=3.5):
    bx = boxes(case)
    grids, vals, ncss = [], [], []
    for i, (lo, hi) in enumerate(bx):
        ncs = nodes(case, i, lo, hi)
        crds = make_crds(case, ncs)
        sh = tuple(len(a) - 1 for a in ncs)
        g = viscid.grid.Grid(name="p{0}".format(i), time=t)
        g.set_crds(crds)
        v = {}
        for k, nm in enumerate(names):
            if nm == "v":
                v[nm] = np.array([patch_vals(case, i, sh, k + c) for c in range(3)])
                d = v[nm] if case["lay"] == "flat" else np.moveaxis(v[nm], 0, -1).copy()
                # the layout can't be told
                if d.shape[1:] == sh and d.shape[:-1] == sh or 3 in sh:
                    d = v[nm]
                g.add_field(viscid.wrap_field(d, crds, name=nm, fldtype="vector", center="cell", time=t))
            else:
                v[nm] = patch_vals(case, i, sh, k)
                g.add_field(viscid.wrap_field(v[nm].copy(), crds, name=nm, center="cell", time=t))
        grids.append(g)
        vals.append(v)
        ncss.append(ncs)
    return bx, grids, vals, ncss


def make_amr(grids):
    ds = viscid.dataset.Dataset()
    for g in grids:
        ds.add(g)
    amr, is_amr = amr_grid.dataset_to_amr_grid(ds)
    require(is_amr == (len(grids) > 1), "is_amr is {0} for {1} patches", is_amr, len(grids))
    if not is_amr:
        raise Discard()
    return amr


# ------------------------------------------------------------- neighbors
def check_neighbors(case):
    bx, grids, _, _ = build(case, names=("f", ))
    amr = make_amr(grids)
    sk = amr.skeleton
    nontrivial(len(bx) > 3)
    label("refined" if any(case["ref"]) else "blocks", "around" if len(bx) > 100 else "")
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    close(amr.xl_nc, lo.min(axis=0), "lower corner", 1e-9, 1e-9)
    close(amr.xh_nc, hi.max(axis=0), "upper corner", 1e-9, 1e-9)
    for i in range(len(bx)):
        touch = np.all((lo[i] <= hi + 1e-9) & (hi[i] >= lo - 1e-9), axis=1)
        touch[i] = False
        want = set(np.nonzero(touch)[0])
        n = sk.nr_neighbors[i]
        got = list(sk.neighbors[i, :n])
        require(len(set(got)) == len(got) and set(got) == want, "neighbors of patch {0} are {1}, expected {2}", i, sorted(got), sorted(want))
        require(np.all(sk.neighbors[i, n:] == -1), "unused neighbors aren't -1")
        for k in range(n):
            j, m = got[k], int(sk.neighbor_mask[i, k])
            faces = sum(abs(lo[i][d] - hi[j][d]) < 1e-9 or abs(hi[i][d] - lo[j][d]) < 1e-9 for d in range(3))
            require(bin(m >> 6).count("1") == faces, "mask {0} of patches {1}, {2} that touch in {3} directions", bin(m), i, j, faces)


# ------------------------------------------------------------ arithmetic
BINOPS = ["add", "sub", "mul", "truediv", "radd", "rsub", "rmul", "rtruediv", "lt", "ge", "eq", "ne", "pow"]
REDS = ["max", "min", "sum", "mean", "std", "ptp", "any", "all", "prod"]


@st.composite
def op_cases(draw):
    c = draw(tilings(big=False))
    c.update(op=draw(st.sampled_from(BINOPS)), other=draw(st.sampled_from(["amr", "num", "one"])), red=draw(st.sampled_from(REDS)),
             un=draw(st.sampled_from(["neg", "abs", "astype", "sqrt", "add3"])))
    return c


def patches_of(amr, nm):
    return [flat_vec(p) if nm == "v" else np.asarray(p.data) for p in amr.patches]


def npop(op, a, b):
    if op[0] == "r":
        a, b, op = b, a, op[1:]
    return {"add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide, "lt": np.less, "ge": np.greater_equal,
            "eq": np.equal, "ne": np.not_equal, "pow": np.power}[op](a, b)


def check_ops(case):
    if min(case["n"]) < 2:
        raise Discard()
    bx, grids, vals, _ = build(case)
    amr = make_amr(grids)
    f, g, v = amr["f"], amr["g"], amr["v"]
    nontrivial(len(bx) > 3)
    label(case["op"], case["red"], case["un"])
    require(f.name == "f" and f.time == 3.5 and f.center.lower() == "cell", "{0} {1} {2}", f.name, f.time, f.center)
    for nm, fld in (("f", f), ("g", g), ("v", v)):
        for p, w in zip(patches_of(fld, nm), vals):
            eq_arr(p, w[nm], nm)
    op = case["op"]
    other = {"amr": g, "num": 3, "one": 3}[case["other"]]
    if op == "pow":
        other = 2
    got = {"add": lambda: f + other, "sub": lambda: f - other, "mul": lambda: f * other, "truediv": lambda: f / other, "radd": lambda: other + f,
           "rsub": lambda: other - f, "rmul": lambda: other * f, "rtruediv": lambda: other / f, "lt": lambda: f < other, "ge": lambda: f >= other,
           "eq": lambda: f == other, "ne": lambda: f != other, "pow": lambda: f**other}[op]
    with np.errstate(all="ignore"):
        got = got()
        require(isinstance(got, amr_field.AMRField), "{0} became {1}", op, type(got))
        require(got.nr_patches == len(bx), "patches")
        for p, w in zip(got.patches, vals):
            want = npop(op, w["f"], w["g"] if other is g else other)
            require(np.asarray(p.data).shape == want.shape, "shape")
            _same(np.asarray(p.data, dtype="f8"), np.asarray(want, dtype="f8"), op, 1e-5 if case["dtype"] == "f4" else 1e-12)
        # vectors times scalars
        got = v * f
        for p, w in zip(patches_of(got, "v"), vals):
            _same(np.asarray(p, dtype="f8"), np.asarray(w["v"] * w["f"], dtype="f8"), "vector times scalar", 1e-5)
        un = case["un"]
        got = {"neg": lambda: -f, "abs": lambda: abs(f), "astype": lambda: f.astype("f4"), "sqrt": lambda: np.sqrt(f) if case["same_n"] else abs(f),
               "add3": lambda: f + g + f}[un]()
        for p, w in zip(got.patches, vals):
            want = {"neg": lambda: -w["f"], "abs": lambda: abs(w["f"]), "astype": lambda: w["f"].astype("f4"),
                    "sqrt": lambda: np.sqrt(w["f"]) if case["same_n"] else abs(w["f"]), "add3": lambda: w["f"] + w["g"] + w["f"]}[un]()
            _same(np.asarray(p.data, dtype="f8"), np.asarray(want, dtype="f8"), un, 1e-5)
        allv = np.concatenate([w["f"].reshape(-1) for w in vals])
        red = case["red"]
        got = getattr(f, red)()
        if red == "prod":
            return  # overflows
        want = getattr(np, red)(allv)
        require(np.ndim(got) == 0, "{0} became {1}", red, got)
        _same(np.array([got], dtype="f8"), np.array([want], dtype="f8"), red + " over all patches", 1e-4 if case["dtype"] == "f4" else 1e-9, 1e-3 if case["dtype"] == "f4" else 1e-10)


def _same(got, want, msg, rtol, atol=1e-12):
    ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    require(got.shape == want.shape and np.all(ok), "{0}: {1}\nexpected {2}", msg, got, want)


# ----------------------------------------------------------------- slices
@st.composite
def slice_cases(draw):
    c = draw(tilings(big=False))
    c.update(sel=[draw(st.sampled_from(["all", "at", "at", "range", "from", "to"])) for _ in range(3)],
             u=[draw(st.integers(0, 997)) for _ in range(6)], meth=draw(st.sampled_from(["getitem", "slice", "reduce", "keep", "grid"])),
             vec=draw(st.integers(0, 3)) == 0)
    return c


def check_slices(case):
    bx, grids, vals, ncss = build(case)
    amr = make_amr(grids)
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    glo, ghi = lo.min(axis=0), hi.max(axis=0)
    nm = "v" if case["vec"] else "f"
    sels, ext = [], []
    for d, (ax, how) in enumerate(zip("xyz", case["sel"])):
        # fractions that are no multiples of cells
        a, b = sorted(glo[d] + (ghi[d] - glo[d]) * (np.array(case["u"][2 * d:2 * d + 2]) + 0.4137) / 998.0)
        if how in ("at", "all"):
            b = a
        if min(np.abs(np.concatenate([n[d] for n in ncss]) - a).min(), np.abs(np.concatenate([n[d] for n in ncss]) - b).min()) < 1e-4:
            raise Discard()
        fa, fb = "{0!r}j".format(float(a)), "{0!r}j".format(float(b))
        if how == "all":
            ext.append((-np.inf, np.inf))
            continue
        if how == "range" and a == b:
            raise Discard()
        sels.append(ax + "=" + {"at": fa, "range": fa + ":" + fb, "from": fa + ":", "to": ":" + fb}[how])
        ext.append({"at": (a, a), "range": (a, b), "from": (a, np.inf), "to": (-np.inf, b)}[how])
    if not sels:
        raise Discard()
    sel = ", ".join(sels)
    label(*case["sel"])
    hit = [i for i in range(len(bx)) if all(lo[i][d] < ext[d][1] and hi[i][d] > ext[d][0] for d in range(3))]
    require(hit, "no patch is hit")
    nontrivial(1 < len(hit) < len(bx))
    meth = case["meth"]
    per = {"getitem": lambda p: p[sel], "slice": lambda p: p.slice(sel), "reduce": lambda p: p.slice_reduce(sel), "keep": lambda p: p.slice_and_keep(sel),
           "grid": lambda p: p.slice_and_keep(sel)}[meth]
    fld = amr[nm]
    # fields of one value become numbers; nothing is left of a patch when no cell has its center in the selection
    size = [_nvals(per(amr["f"].patches[i])) for i in hit]
    if min(size) == 0 or min(size) == 1 and (len(hit) > 1 or max(size) > 1):
        raise Discard()
    want = [per(amr[nm].patches[i]) for i in hit]
    got = amr.get_field(nm, slc=sel) if meth == "grid" else per(fld)
    inds = fld.patch_indices(sel)
    require(sorted(np.atleast_1d(inds)) == hit, "patches {0}, expected {1}", inds, hit)
    if len(hit) == 1:
        _one(got, want[0])
        return
    # cells whose centers aren't in the range may leave nothing of a patch
    want = [w for w in want if np.size(w) > 0]
    ndim = max(np.ndim(w) for w in want)
    require(isinstance(got, amr_field.AMRField), "got {0}", type(got))
    require(got.nr_patches == len(want), "{0} patches, expected {1}", got.nr_patches, len(want))
    for p, w in zip(got.patches, want):
        if np.ndim(w) == ndim:
            _one(p, w)
        else:
            eq_arr(np.asarray(p).reshape(-1), np.asarray(w).reshape(-1), "values")


def _nvals(p):
    return np.size(p._src_data) if isinstance(p, viscid.field.Field) else np.size(p)


def _one(got, want):
    if isinstance(want, viscid.field.Field):
        require(isinstance(got, viscid.field.Field), "got {0}", type(got))
        eq_arr(np.asarray(got.data), np.asarray(want.data), "values")
        require(list(got.crds.axes) == list(want.crds.axes), "axes {0}, expected {1}", got.crds.axes, want.crds.axes)
        for c in want.crds.axes:
            eq_arr(np.asarray(got.get_crd_nc(c)), np.asarray(want.get_crd_nc(c)), "crds along " + c)
    else:
        eq_arr(np.asarray(got), np.asarray(want), "value")


# ------------------------------------------------- planes where patches meet
@st.composite
def face_cases(draw):
    c = draw(tilings(big=False))
    c.update(ax=draw(st.integers(0, 2)), u=draw(st.integers(0, 997)), noise=draw(st.sampled_from([0, 1, 2])), far=draw(st.sampled_from([0.0, 0.0, -300.0])),
             thin=draw(st.sampled_from([None, None, 1, 2])), at=draw(st.sampled_from(["0", "5.5", "-1e3", "0.25"])),
             meth=draw(st.sampled_from(["getitem", "keep", "reduce"])))
    c["uni"] = "nonuniform"
    return c


def check_faces(case):
    """a plane between patches is covered by patches, once, however their corners are rounded"""
    case["x0"] = [x + case["far"] for x in case["x0"]]
    d = case["ax"]
    thin = None if case["thin"] is None else (d + case["thin"]) % 3
    if thin is not None:
        case["nb"][thin] = 1
        case["ref"] = [False] * len(case["ref"])
    bx = boxes(case)
    los = sorted(set(round(float(b[0][d]), 9) for b in bx))
    faces = los[1:]
    if not faces:
        raise Discard()
    F = faces[case["u"] % len(faces)]
    r = rng(case["seed"] + 77)
    grids, ncss = [], []
    for i, (lo, hi) in enumerate(bx):
        ncs = nodes(case, i, lo, hi)
        for x in ncs:
            for k in (0, -1):
                x[k] += case["noise"] * r.randint(-1, 2) * np.spacing(np.abs(x[k]))
        if thin is not None:
            ncs[thin] = np.array([0.25])
        crds = viscid.arrays2crds(ncs)
        g = viscid.grid.Grid(name="p{0}".format(i), time=0.0)
        g.set_crds(crds)
        # cells know where they are
        sh, center = tuple(len(a) - (thin is None) for a in ncs), "cell" if thin is None else "node"
        g.add_field(viscid.wrap_field(np.full(sh, float(i)), crds, name="f", center=center, time=0.0))
        grids.append(g)
        ncss.append(ncs)
    amr = make_amr(grids)
    f = amr["f"]
    sel = "{0}={1!r}j".format("xyz"[d], F)
    if thin is not None:
        # there's only one place along this axis
        sel += ", {0}={1}j".format("xyz"[thin], case["at"])
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    # patches around the plane, or right above it
    want = [i for i in range(len(bx)) if lo[i][d] <= F + 1e-6 and hi[i][d] > F + 1e-6]
    below = [i for i in range(len(bx)) if abs(hi[i][d] - F) < 1e-6]
    nontrivial(len(want) > 1 and below)
    label("noise" if case["noise"] else "exact", "far" if case["far"] else "", "refined" if any(case["ref"]) else "blocks")
    inds = sorted(np.atleast_1d(f.patch_indices(sel)))
    require(inds == want, "{0}: patches {1}, expected {2}", sel, inds, want)
    got = {"getitem": lambda: f[sel], "keep": lambda: f.slice_and_keep(sel), "reduce": lambda: f.slice_reduce(sel)}[case["meth"]]()
    ps = got.patches if isinstance(got, amr_field.AMRField) else [got]
    require(sorted(set(np.asarray(p).reshape(-1)[0] for p in ps)) == want, "patches of the plane")


# ----------------------------------------- ufuncs, attributes and the like
UFUNCS = {"sqrt": (np.sqrt, 1), "exp": (np.exp, 1), "negative": (np.negative, 1), "square": (np.square, 1), "maximum": (np.maximum, 2),
          "add": (np.add, 2), "multiply": (np.multiply, 2), "less": (np.less, 2), "arctan2": (np.arctan2, 2)}


@st.composite
def view_cases(draw):
    c = draw(tilings(big=False))
    c.update(what=draw(st.sampled_from(["ufunc", "ufunc", "attr", "extent", "again", "interp", "inplace", "axis", "logic", "clip", "part"])),
             uf=draw(st.sampled_from(sorted(UFUNCS))), second=draw(st.sampled_from(["amr", "num", "first"])), u=[draw(st.integers(0, 997)) for _ in range(6)],
             ax=draw(st.permutations([0, 1, 2])), hows=[draw(st.sampled_from(["at", "from", "to", "range"])) for _ in range(2)])
    return c


def _pick(case, ncss, glo, ghi, d, how, u):
    a, b = sorted(glo[d] + (ghi[d] - glo[d]) * (np.array(u) + 0.4137) / 998.0)
    if how == "at":
        b = a
    nds = np.concatenate([n[d] for n in ncss])
    if min(np.abs(nds - a).min(), np.abs(nds - b).min()) < 1e-4 or how == "range" and a == b:
        raise Discard()
    fa, fb = "{0!r}j".format(float(a)), "{0!r}j".format(float(b))
    sel = "xyz"[d] + "=" + {"at": fa, "range": fa + ":" + fb, "from": fa + ":", "to": ":" + fb}[how]
    return sel, {"at": (a, a), "range": (a, b), "from": (a, np.inf), "to": (-np.inf, b)}[how]


def check_views(case):
    what = case["what"]
    if what == "ufunc":
        case["same_n"] = True
    if what == "inplace" or case["uf"] in ("sqrt", "exp", "arctan2"):
        case["dtype"] = "f8"
    bx, grids, vals, ncss = build(case)
    amr = make_amr(grids)
    f, g, v = amr["f"], amr["g"], amr["v"]
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    glo, ghi = lo.min(axis=0), hi.max(axis=0)
    nontrivial(len(bx) > 3)
    label(what)
    before = dict(np.geterr())
    shapes = [w["f"].shape for w in vals]
    if what == "ufunc":
        fn, n = UFUNCS[case["uf"]]
        label(case["uf"])
        with np.errstate(all="ignore"):
            if n == 1:
                got, want = fn(f), [fn(w["f"]) for w in vals]
            elif case["second"] == "amr":
                got, want = fn(f, g), [fn(w["f"], w["g"]) for w in vals]
            elif case["second"] == "num":
                got, want = fn(f, 2), [fn(w["f"], 2) for w in vals]
            else:
                got, want = fn(2, f), [fn(2, w["f"]) for w in vals]
        _all(got, want, case["uf"])
        for p, q in zip(got.patches, f.patches):
            for ax in "xyz":
                eq_arr(np.asarray(p.get_crd_nc(ax)), np.asarray(q.get_crd_nc(ax)), "crds")
    elif what == "attr":
        for nm, w in (("time", 3.5), ("name", "f"), ("center", "cell"), ("nr_sdims", 3), ("nr_comps", 0)):
            require(getattr(f, nm) == w, "{0} is {1!r}, expected {2!r}", nm, getattr(f, nm), w)
        require(f.dtype == np.dtype(case["dtype"]) and f.nr_patches == len(bx), "{0} {1}", f.dtype, f.nr_patches)
        close(f.xl, glo, "lower corner", 1e-9, 1e-9)
        close(f.xh, ghi, "upper corner", 1e-9, 1e-9)
        close(f.skeleton.xl, lo, "lower corners", 1e-9, 1e-9)
        close(f.skeleton.xh, hi, "upper corners", 1e-9, 1e-9)
        close(f.skeleton.xm, 0.5 * (lo + hi), "centers", 1e-9, 1e-9)
        close(f.skeleton.L, hi - lo, "lengths", 1e-9, 1e-9)
        eq_arr(f.skeleton.n, np.array(shapes), "number of cells")
        same = len(set(shapes)) == 1
        try:
            sh = f.shape
            require(same and tuple(sh) == shapes[0], "shape {0} of patches {1}", sh, shapes)
        except ValueError:
            require(not same, "no shape for patches {0}", shapes)
        # attributes that differ
        k = case["u"][0] % len(bx)
        f.patches[k].name = "other"
        try:
            require(False, "name of a field with different names is {0!r}", f.name)
        except ValueError:
            pass
        f.patches[k].name = "f"
        # methods of all patches
        crds = f.get_crds_cc()
        require(len(crds) == len(bx), "coordinates of {0} patches", len(crds))
        for c, n in zip(crds, ncss):
            for a, b in zip(c, n):
                close(a, 0.5 * (b[1:] + b[:-1]), "cell centers", 1e-9, 1e-9)
        for nm, want in (("real", [w["f"] for w in vals]), ("T", [w["f"].T for w in vals])):
            _all(getattr(f, nm), want, nm)
        comps = v.component_fields()
        for cs, w in zip(comps, vals):
            for i in range(3):
                eq_arr(np.asarray(cs[i].data), w["v"][i], "component")
        # what fields know about themselves
        require(viscid.as_crd_system(f, "none") == "none", "crd_system {0}", viscid.as_crd_system(f, "none"))
        for gr in grids:
            gr.set_info("crd_system", "gse")
            gr.set_info("run", "r1")
            gr.set_info("cotr", viscid.Cotr(dip_tilt=11.0, dip_gsm=0.0))
        require(viscid.as_crd_system(f, "none") == "gse", "crd_system {0}", viscid.as_crd_system(f, "none"))
        require(abs(viscid.as_cotr(f).dip_tilt - 11.0) < 1e-9, "dipole tilt")
        require(f.find_info("run") == "r1" and f.find_info("nope", 5) == 5, "run {0!r}", f.find_info("run"))
        f.patches[0].set_info("here", 8)
        require(f.get_info("here") == 8 and f.get_info("nope", None) is None, "info {0!r}", f.get_info("here"))
        for nm in ("no_such_thing", "blocks"):
            require(not hasattr(f, nm), "there is {0}", nm)
    elif what == "part":
        # a field of some of the patches
        sub = [i for i in range(len(bx)) if rng(case["u"][0]).randint(2, size=len(bx))[i]] or [0]
        p = amr_field.AMRField([f.patches[i] for i in sub], None)
        close(p.xl, lo[sub].min(axis=0), "lower corner", 1e-9, 1e-9)
        close(p.xh, hi[sub].max(axis=0), "upper corner", 1e-9, 1e-9)
        require(p.nr_patches == len(sub), "patches")
        if len(sub) < len(bx) and len(sub) > 1:
            try:
                got = f + p
            except ValueError:
                got = None
            require(got is None, "sum of {0} and {1} patches", len(bx), len(sub))
    elif what == "extent":
        d, e = case["ax"][:2]
        s1, x1 = _pick(case, ncss, glo, ghi, d, case["hows"][0], case["u"][:2])
        s2, x2 = _pick(case, ncss, glo, ghi, e, case["hows"][1], case["u"][2:4])
        for sel, exts in ((s1, {d: x1}), (s1 + "," + s2, {d: x1, e: x2})):
            want = np.array([glo, ghi])
            for i, x in exts.items():
                want[:, i] = np.where(np.isinf(x), want[:, i], x)
            close(f.get_slice_extent(sel), want, "extent of " + sel, 1e-9, 1e-9)
            k = case["u"][4] % len(bx)
            want = np.array([lo[k], hi[k]])
            for i, x in exts.items():
                want[:, i] = np.where(np.isinf(x), want[:, i], x)
            close(f.patches[k].get_slice_extent(sel), want, "extent of " + sel + " in a field", 1e-9, 1e-9)
    elif what == "again":
        d, e = case["ax"][:2]
        s1, x1 = _pick(case, ncss, glo, ghi, d, case["hows"][0], case["u"][:2])
        s2, x2 = _pick(case, ncss, glo, ghi, e, case["hows"][1], case["u"][2:4])
        hit = [i for i in range(len(bx)) if lo[i][d] < x1[1] and hi[i][d] > x1[0] and lo[i][e] < x2[1] and hi[i][e] > x2[0]]
        if not hit or min(_nvals(f.patches[i][s1 + "," + s2]) for i in hit) < 2:
            raise Discard()
        if any(_nvals(f.patches[i][s1]) < 2 for i in range(len(bx)) if lo[i][d] < x1[1] and hi[i][d] > x1[0]):
            raise Discard()
        got, want = f[s1][s2], f[s1 + "," + s2]
        gots, wants = [q if isinstance(q, viscid.field.Field) else None for q in got.patches], want.patches
        require(len(gots) == len(wants) == len(hit), "{0} and {1} patches, expected {2}", len(gots), len(wants), len(hit))
        for p, q in zip(gots, wants):
            _one(p, q)
        require(np.geterr() == before, "numpy error handling became {0}", np.geterr())
    elif what == "interp":
        d = case["ax"][0]
        sel, x = _pick(case, ncss, glo, ghi, d, "at", case["u"][:2])
        hit = [i for i in range(len(bx)) if lo[i][d] < x[0] < hi[i][d]]
        others = [i for i in range(3) if i != d]
        if any(np.prod([shapes[i][k] for k in others]) < 2 for i in hit):
            raise Discard()
        for nm in ("f", "v"):
            got = amr[nm].interpolated_slice(sel)
            require(got.nr_patches == len(hit), "{0} patches, expected {1}", got.nr_patches, len(hit))
            for p, i in zip(got.patches, hit):
                cc = [0.5 * (n[1:] + n[:-1]) for n in ncss[i]]
                w = _interp_axis(cc[d], vals[i][nm], x[0], d + (nm == "v"))
                if nm == "v" and all(shapes[i][k] == 3 for k in others):
                    # the layout can't be told
                    continue
                sq = [k for k in others if shapes[i][k] == 1]
                require(list(p.crds.axes) == ["xyz"[k] for k in others if k not in sq], "axes {0}", p.crds.axes)
                p = flat_vec(p) if nm == "v" else np.asarray(p.data)
                tol = 2e-3 if case["dtype"] == "f4" else 1e-9
                if p.size == w.size:
                    close(np.asarray(p, dtype="f8").reshape(-1), w.reshape(-1), "values at " + sel, tol, tol)
                require(p.size == w.size, "shape {0}, expected {1}", p.shape, w.shape)
    elif what == "inplace":
        op = ["iadd", "isub", "imul", "itruediv"][case["u"][0] % 4]
        other, og = (g, [w["g"] for w in vals]) if case["second"] == "amr" else (3.0, [3.0] * len(bx))
        h = amr_field.AMRField([viscid.wrap_field(w["f"].copy(), p.crds, name="f", center="cell") for p, w in zip(f.patches, vals)], f.skeleton)
        with np.errstate(all="ignore"):
            if op == "iadd":
                h += other
            elif op == "isub":
                h -= other
            elif op == "imul":
                h *= other
            else:
                h /= other
            _all(h, [npop(op[1:], w["f"], o) for w, o in zip(vals, og)], op)
    elif what == "axis":
        red = REDS[case["u"][0] % len(REDS)]
        if red == "prod":
            red = "sum"
        d = case["ax"][0]
        if min(np.prod(s) // s[d] for s in shapes) < 2:
            raise Discard()
        got = getattr(f, red)(axis=d)
        require(got.nr_patches == len(bx), "patches")
        for p, w in zip(got.patches, vals):
            want = np.asarray(getattr(np, red)(w["f"], axis=d), dtype="f8")
            tol = 1e-4 if case["dtype"] == "f4" else 1e-9
            close(np.asarray(p, dtype="f8").reshape(-1), want.reshape(-1), red + " along an axis", tol, tol)
    elif what == "logic":
        a, b = f > 0, g < 1
        wa, wb = [w["f"] > 0 for w in vals], [w["g"] < 1 for w in vals]
        for nm, got, fn in (("and", a & b, np.logical_and), ("or", a | b, np.logical_or), ("xor", a ^ b, np.logical_xor)):
            _all(got, [fn(x, y) for x, y in zip(wa, wb)], nm)
        _all(~a, [~x for x in wa], "not")
        with np.errstate(all="ignore"):
            _all(f // 2, [w["f"] // 2 for w in vals], "floordiv")
            _all(f % 2, [w["f"] % 2 for w in vals], "mod")
            _all(7 // (g + 100), [7 // (w["g"] + 100) for w in vals], "rfloordiv")
            _all(7 % (g + 100), [7 % (w["g"] + 100) for w in vals], "rmod")
        _all(+f, [w["f"] for w in vals], "pos")
        _all(f <= g, [w["f"] <= w["g"] for w in vals], "le")
        _all(f > g, [w["f"] > w["g"] for w in vals], "gt")
        _all(2**g.astype("f8"), [2**w["g"].astype("f8") for w in vals], "rpow")
    else:
        a, b = -1, 2
        _all(f.clip(a, b), [w["f"].clip(a, b) for w in vals], "clip")
        _all(f.clip(min=a), [w["f"].clip(min=a) for w in vals], "clip from below")
        _all(f.round(), [w["f"].round() for w in vals], "round")
        _all(f.round(1), [w["f"].round(1) for w in vals], "round to a digit")
        _all(f.round(decimals=1), [w["f"].round(1) for w in vals], "round to a digit")
        al = np.concatenate([w["f"].reshape(-1) for w in vals])
        require(f.argmax() == al.argmax() or al[f.argmax()] == al.max(), "argmax {0}, expected {1}", f.argmax(), al.argmax())
        require(f.argmin() == al.argmin() or al[f.argmin()] == al.min(), "argmin {0}, expected {1}", f.argmin(), al.argmin())
        tol = 1e-3 if case["dtype"] == "f4" else 1e-9
        close(np.asarray(f.std(ddof=1), dtype="f8"), np.asarray(al.std(ddof=1), dtype="f8"), "std", tol, tol)
    if what != "inplace":
        for nm, fld in (("f", f), ("g", g), ("v", v)):
            for p, w in zip(patches_of(fld, nm), vals):
                eq_arr(p, w[nm], nm + " after " + what)


def _all(got, want, msg):
    require(isinstance(got, amr_field.AMRField), "{0} became {1}", msg, type(got))
    require(got.nr_patches == len(want) == len(got.patches), "{0}: {1} patches, expected {2}", msg, got.nr_patches, len(want))
    for p, w in zip(got.patches, want):
        _same(np.asarray(p.data, dtype="f8"), np.asarray(w, dtype="f8"), msg, 1e-5)


def _interp_axis(cc, v, x, ax):
    v = np.asarray(v, dtype="f8")
    j = min(max(int(np.searchsorted(cc, x, side="right")) - 1, 0), max(len(cc) - 2, 0))
    if len(cc) == 1 or x <= cc[0]:
        return np.take(v, 0, axis=ax)
    if x >= cc[-1]:
        return np.take(v, len(cc) - 1, axis=ax)
    w = (x - cc[j]) / (cc[j + 1] - cc[j])
    return (1 - w) * np.take(v, j, axis=ax) + w * np.take(v, j + 1, axis=ax)


# ------------------------------------------- interpolation and streamlines
@st.composite
def interp_cases(draw):
    c = draw(tilings(big=False))
    c.update(npts=draw(st.integers(1, 30)), kind=draw(st.sampled_from(["trilin", "nearest"])), sorted=draw(st.booleans()))
    return c


def check_interp(case):
    if case["uni"] == "uniform" and case["dtype"] == "i8":
        case["dtype"] = "f8"
    bx, grids, vals, ncss = build(case)
    amr = make_amr(grids)
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    r = rng(case["seed"] + 99)
    pts = r.uniform(lo.min(axis=0), hi.max(axis=0), (case["npts"], 3)).T
    if case["sorted"]:
        pts = pts[:, np.argsort(pts[0])]
    fn = viscid.interp_trilin if case["kind"] == "trilin" else viscid.interp_nearest
    label(case["kind"], case["uni"], "same n" if case["same_n"] else "any n")
    nontrivial(len(bx) > 3 and case["npts"] > 3)
    for nm in ("f", "v"):
        got = np.asarray(fn(amr[nm], viscid.Point(pts), wrap=False))
        for k in range(case["npts"]):
            x = pts[:, k]
            gap = np.minimum(x - lo, hi - x).min(axis=1)
            i = int(np.argmax(gap))
            if gap[i] < 1e-4 * max(1, np.abs(x).max()):
                continue
            if case["kind"] == "nearest":
                cc = [0.5 * (a[1:] + a[:-1]) for a in ncss[i]]
                mids = np.concatenate([0.5 * (c[1:] + c[:-1]) - x[d] for d, c in enumerate(cc)])
                if np.abs(mids).min() < 1e-4:
                    continue
            want = _interp_np(ncss[i], vals[i][nm], x, case["kind"])
            tol = 2e-3 if case["dtype"] == "f4" else 1e-9
            close(np.asarray(got[k], dtype="f8").reshape(-1), np.asarray(want, dtype="f8").reshape(-1), "{0} of {1} at {2}".format(case["kind"], nm, x), tol, tol)


def _interp_np(ncs, v, x, kind):
    v = v if v.ndim == 4 else v[None]
    out = v.astype("f8")
    for d in (2, 1, 0):
        cc = 0.5 * (ncs[d][1:] + ncs[d][:-1])
        xd = x[d]
        if kind == "nearest":
            out = np.take(out, [int(np.argmin(np.abs(cc - xd)))], axis=d + 1)
            continue
        j = min(max(int(np.searchsorted(cc, xd, side="right")) - 1, 0), max(len(cc) - 2, 0))
        if len(cc) == 1 or xd <= cc[0]:
            out = np.take(out, [0], axis=d + 1)
        elif xd >= cc[-1]:
            out = np.take(out, [len(cc) - 1], axis=d + 1)
        else:
            w = (xd - cc[j]) / (cc[j + 1] - cc[j])
            out = (1 - w) * np.take(out, [j], axis=d + 1) + w * np.take(out, [j + 1], axis=d + 1)
    return out.reshape(-1)


@st.composite
def stream_cases(draw):
    c = draw(tilings(big=False))
    c.update(const=draw(st.booleans()), nseeds=draw(st.integers(1, 5)), meth=draw(st.sampled_from(["euler1", "euler1", "rk12", "euler1a"])),
             dtype=draw(st.sampled_from(["f8", "f8", "f4"])), bounds=draw(st.booleans()), frac=draw(st.booleans()))
    return c


def check_streams(case):
    bx, grids, vals, ncss = build(case, names=("v", ))
    lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
    glo, ghi = lo.min(axis=0), hi.max(axis=0)
    r = rng(case["seed"] + 55)
    vc = r.uniform(0.3, 1.0, 3) * r.choice([-1, 1], 3)
    dirs = [vc + (0 if case["const"] else r.uniform(-0.2, 0.2, 3)) for _ in bx]
    for g, v, u in zip(grids, vals, dirs):
        # constant in each patch
        w = np.asarray(v["v"], dtype=case["dtype"])
        w[...] = u[:, None, None, None]
        del g["v"]
        g.add_field(viscid.wrap_field(w, g.crds, name="v", fldtype="vector", center="cell"))
    amr = make_amr(grids)
    seeds_ = r.uniform(glo + 0.05 * (ghi - glo), ghi - 0.05 * (ghi - glo), (case["nseeds"], 3)).T
    ds = 0.02 * float((ghi - glo).min())
    # by default lines end at the boundary of all patches, and steps are a fraction of the smallest cell
    kw = {"obound0": glo, "obound1": ghi} if case["bounds"] else {}
    if case["frac"]:
        kw["ds0_frac"] = ds / min(np.diff(a).min() for ncs in ncss for a in ncs)
    else:
        kw["ds0"] = ds
    lines, _ = viscid.calc_streamlines(amr["v"], viscid.Point(seeds_), ibound=0.0, method=case["meth"], output=viscid.OUTPUT_STREAMLINES,
                                       maxit=20000, **kw)
    nontrivial(len(bx) > 3)
    label(case["meth"], "const" if case["const"] else "piecewise")
    require(len(lines) == case["nseeds"], "lines")
    tol = 2e-4 if case["dtype"] == "f4" else 1e-7
    scale = np.abs(np.concatenate([glo, ghi])).max()
    for s, line in zip(seeds_.T, lines):
        line = np.asarray(line, dtype="f8")
        require(np.abs(line - s[:, None]).max(axis=0).min() < tol * max(scale, 1), "seed isn't on the line")
        for end in (line[:, 0], line[:, -1]):
            # one step before the end it was in the domain
            require(np.any(end < glo + 0.5 * (ghi - glo) * 1e-3 + 6 * ds) or np.any(end > ghi - 6 * ds) or case["meth"] != "euler1",
                    "line ends at {0}, inside of {1} - {2}", end, glo, ghi)
        if case["const"]:
            u = vc / np.linalg.norm(vc)
            rel = line - s[:, None]
            off = rel - u[:, None] * (u @ rel)
            require(np.abs(off).max() < 20 * tol * max(scale, 1), "line in a constant field is bent by {0}", np.abs(off).max())
            along = u @ rel
            require(np.all(np.diff(along) > -tol * scale), "line goes back")
            # ends where it leaves the domain
            with np.errstate(divide="ignore"):
                t1 = np.min(np.where(u > 0, (ghi - s) / u, (glo - s) / u))
                t0 = np.max(np.where(u > 0, (glo - s) / u, (ghi - s) / u))
            if case["meth"] == "euler1":
                require(len(along) < 4 or np.abs(np.diff(along) / ds - 1).max() < 0.01 + 30 * tol * scale / ds, "steps of {0}, expected {1}", np.diff(along), ds)
                require(abs(along[-1] - t1) < 1.5 * ds + tol * scale and abs(along[0] - t0) < 1.5 * ds + tol * scale,
                        "line spans {0} - {1}, expected {2} - {3}", along[0], along[-1], t0, t1)
        elif case["meth"] == "euler1":
            for p, q in zip(line.T[:-1], line.T[1:]):
                step = q - p
                ln = np.linalg.norm(step)
                if ln < 1e-3 * ds:
                    continue
                cand = [i for i in range(len(bx)) if np.all(p > lo[i] - 1e-3 * scale - 1e-6) and np.all(p < hi[i] + 1e-3 * scale + 1e-6)]
                cand += [i for i in range(len(bx)) if np.all(q > lo[i] - 1e-3 * scale - 1e-6) and np.all(q < hi[i] + 1e-3 * scale + 1e-6)]
                if not cand:
                    continue
                errs = [np.linalg.norm(step / ln - dirs[i] / np.linalg.norm(dirs[i])) for i in cand]
                require(min(errs) < (0.02 if case["dtype"] == "f4" else 1e-4) * (1 + scale), "step {0} at {1} isn't along the field of patches {2}", step, p, cand)


# ------------------------------------------------------------------- xdmf
@st.composite
def file_cases(draw):
    c = draw(tilings(big=False))
    c.update(nt=draw(st.integers(1, 3)), change=draw(st.sampled_from(["no", "grow", "refine", "move"])), sub=draw(seeds),
             dtype=draw(st.sampled_from(["f8", "f4", "i8"])))
    return c


_count = [0]


def check_files(case):
    _count[0] += 1
    d = os.path.abspath("c10-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    steps = []
    for t in range(case["nt"]):
        c = dict(case, seed=case["seed"] + t * 7)
        if t and case["change"] == "refine":
            c["ref"] = [bool((case["seed"] + t + i) % 2) for i in range(len(case["ref"]))]
        elif t and case["change"] == "move":
            c["x0"] = [x + t for x in case["x0"]]
        bx = boxes(dict(c, seed=case["seed"]))
        if t and case["change"] == "grow":
            # only patches at the end get longer
            top = np.array([b[1] for b in bx]).max(axis=0)[0]
            bx = [(b[0], np.where([b[1][0] == top, False, False], b[1] + 0.5 * t, b[1])) for b in bx]
        # number of cells stays the same
        ncss = [nodes(dict(case), i, lo, hi) for i, (lo, hi) in enumerate(bx)]
        vals = [patch_vals(c, i, tuple(len(a) - 1 for a in n)) for i, n in enumerate(ncss)]
        steps.append((t * 2.5 + 1, bx, ncss, vals))
    if len(steps[0][1]) < 2:
        raise Discard()
    nontrivial(case["nt"] > 1)
    label(case["change"])
    body = ""
    with h5py.File(os.path.join(d, "d.h5"), "w") as h:
        for t, (tm, bx, ncss, vals) in enumerate(steps):
            body += "<Grid GridType='Collection' CollectionType='Spatial'>\n<Time Type='Single' Value='{0}'/>\n".format(tm)
            for i, (ncs, v) in enumerate(zip(ncss, vals)):
                loc = "/t{0}/p{1}/".format(t, i)
                h[loc + "f"] = v.T
                body += "<Grid Name='patch-{0}' GridType='Uniform'>\n<Topology TopologyType='3DRectMesh' Dimensions='{1}'/>\n<Geometry GeometryType='VXVYVZ'>\n".format(
                    i, " ".join(str(len(a)) for a in ncs[::-1]))
                for x, a in zip("xyz", ncs):
                    h[loc + x] = a
                    body += "<DataItem Name='V{0}' Dimensions='{1}' NumberType='Float' Precision='8' Format='HDF'>d.h5:{2}</DataItem>\n".format(x.upper(), len(a), loc + x)
                body += "</Geometry>\n<Attribute Name='f' AttributeType='Scalar' Center='Cell'><DataItem Dimensions='{0}' NumberType='{1}' Precision='{2}' Format='HDF'>d.h5:{3}</DataItem></Attribute>\n</Grid>\n".format(
                    " ".join(str(n) for n in v.shape[::-1]), "Float" if case["dtype"][0] == "f" else "Int", case["dtype"][1], loc + "f")
            body += "</Grid>\n"
    if case["nt"] > 1:
        body = "<Grid GridType='Collection' CollectionType='Temporal'>\n" + body + "</Grid>\n"
    with open(os.path.join(d, "a.xdmf"), "w") as fh:
        fh.write("<?xml version='1.0' ?>\n<Xdmf Version='2.0'>\n<Domain>\n" + body + "</Domain>\n</Xdmf>\n")
    f = viscid.load_file(os.path.join(d, "a.xdmf"))
    for t in rng(case["sub"]).permutation(case["nt"]):
        tm, bx, ncss, vals = steps[t]
        if case["nt"] > 1:
            f.activate_time(int(t))
        g = f.get_grid()
        lo, hi = np.array([b[0] for b in bx]), np.array([b[1] for b in bx])
        require(g.time == tm, "time {0}, expected {1}", g.time, tm)
        close(g.xl_nc, lo.min(axis=0), "lower corner", 1e-9, 1e-9)
        close(g.xh_nc, hi.max(axis=0), "upper corner", 1e-9, 1e-9)
        fld = f["f"]
        require(fld.nr_patches == len(bx), "{0} patches, expected {1}", fld.nr_patches, len(bx))
        for i, p in enumerate(fld.patches):
            eq_arr(np.asarray(p.data), vals[i], "patch {0}".format(i))
            require(p.time == tm, "time of the patch")
            for x, a in zip("xyz", ncss[i]):
                close(p.get_crd_nc(x), a, "nodes", 1e-12, 1e-12)
        r = rng(case["sub"] + t)
        pt = r.uniform(lo.min(axis=0), hi.max(axis=0))
        gap = np.minimum(pt - lo, hi - pt).min(axis=1)
        i = int(np.argmax(gap))
        if gap[i] > 1e-3:
            got = np.asarray(viscid.interp_trilin(fld, viscid.Point(pt.reshape(3, 1)), wrap=False)).reshape(-1)
            close(got.astype("f8"), _interp_np(ncss[i], vals[i], pt, "trilin"), "interpolated at {0} in time step {1}".format(pt, t), 2e-3, 2e-3)
    viscid.unload_all_files()


FACETS = [
    Facet("neighbors", tilings(), check_neighbors, quick=150, rule="more than three patches"),
    Facet("ops", op_cases(), check_ops, quick=300, rule="more than three patches"),
    Facet("slices", slice_cases(), check_slices, quick=400, rule="some, but not all patches are hit"),
    Facet("faces", face_cases(), check_faces, quick=200, rule="patches on both sides of the plane, several above"),
    Facet("views", view_cases(), check_views, quick=300, rule="more than three patches"),
    Facet("interp", interp_cases(), check_interp, quick=300, rule="more than three patches and points"),
    Facet("streamlines", stream_cases(), check_streams, quick=200, rule="more than three patches"),
    Facet("files", file_cases(), check_files, quick=100, rule="more than one time step"),
]
