"""C07: arithmetic, ufuncs, reductions, transposes and integrals of fields are what NumPy gives for
their data, on the coordinates of the field"""
import operator

import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, seeds
from vf.fields import (ambiguous, cc_of, flat_vec, grid_specs, scalar_field, spec_arrs, sshape,
                       vector_field)

ARITH = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow"]
CMP = ["lt", "le", "eq", "ne", "gt", "ge"]
BITS = ["and_", "or_", "xor", "lshift", "rshift"]
UNARY = ["neg", "pos", "abs"]
UFUNC1 = ["sqrt", "exp", "sin", "negative", "square", "isfinite", "sign", "rint"]
UFUNC2 = ["add", "subtract", "multiply", "maximum", "hypot", "less", "arctan2"]


@st.composite
def bases(draw, nd=(1, 3), n=(2, 5)):
    return {"spec": draw(grid_specs(nd=nd, n=n)), "nc": draw(st.sampled_from([0, 0, 2, 3])),
            "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"]))}


def mk(case, seed=0, kind="i", nc=None, dtype=None, positive=False, name="f"):
    """(field, data components first)"""
    spec = case["spec"]
    shp = sshape(spec)
    nc = case["nc"] if nc is None else nc
    dtype = dtype or case["dtype"]
    if int(np.prod(shp)) * max(nc, 1) == 1:
        raise Discard()
    d = rarr(spec["seed"] + seed, (nc,) + shp if nc else shp, kind, 1 if positive else -9, 9)
    d = d.astype(dtype)
    if nc:
        if ambiguous(shp, nc):
            raise Discard()
        return vector_field(spec, d, case["layout"], name=name, time=2.5), d
    return scalar_field(spec, d, name=name, time=2.5), d


def same(case, got, want, msg, dtype=True):
    """got is a field on the grid of case, with the (components first) values want"""
    spec = case["spec"]
    require(isinstance(got, viscid.field.Field), "{0}: not a field but {1}", msg, type(got))
    nc = want.ndim > len(spec["n"])
    require(bool(got.nr_comps) == nc, "{0}: nr_comps {1}", msg, got.nr_comps)
    eq_arr(flat_vec(got) if nc else got.data, want, msg, dtype=dtype)
    require(got.iscentered(spec["center"]), "{0}: center {1}", msg, got.center)
    require(got.time == 2.5, "{0}: time {1}", msg, got.time)
    require(list(got.crds.axes) == list(spec["names"]), "{0}: axes {1}", msg, got.crds.axes)
    for a, g in zip(spec_arrs(spec), got.get_crds_nc()):
        close(g, a, msg + " coordinates", 1e-9, 1e-9)


@st.composite
def op_cases(draw):
    c = draw(bases())
    c["op"] = draw(st.sampled_from(ARITH * 3 + ["divmod"] + CMP * 2 + BITS + UNARY + ["inv", "inplace"]))
    c["other"] = draw(st.sampled_from(["number", "npnumber", "array", "field", "field", "scalarfield",
                                       "vectorfield"]))
    c["rev"] = draw(st.booleans())
    c["num"] = draw(st.sampled_from([2, 3, 1.5, -2, 0.5]))
    return c


def check_op(case):
    op = case["op"]
    bits = op in BITS or op == "inv"
    dt = "i4" if bits else case["dtype"]
    pos = op in ("divmod", "pow", "lshift", "rshift", "floordiv", "mod", "truediv")
    f, d = mk(case, dtype=dt, positive=pos)
    if op == "inplace":
        g = f
        before = d.copy()
        g += 2
        same(case, g, d + 2, "f += 2", dtype=False)
        g = f
        g *= 2
        same(case, g, d * 2, "f *= 2", dtype=False)
        g = f
        g -= f
        same(case, g, d - d, "f -= f", dtype=False)
        same(case, f, before, "f changed by +=")
        nontrivial()
        return
    if op in UNARY or op == "inv":
        fn = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "inv": operator.invert}[op]
        same(case, fn(f), fn(d), op)
        same(case, f, d, "operand")
        nontrivial()
        return
    fn = divmod if op == "divmod" else getattr(operator, op)
    o = case["other"]
    label(op, o, "reversed" if case["rev"] else "")
    nontrivial(o not in ("number", "npnumber"))
    do = None
    if bits and case["rev"] and "field" not in o:
        raise Discard()
    if o == "number":
        g = do = int(abs(case["num"]) + 0.5) if bits or op == "pow" else case["num"]
    elif o == "npnumber":
        g = do = np.int64(2) if bits else np.float64(case["num"] if op != "pow" else 2)
    elif o == "array":
        do = rarr(case["spec"]["seed"] + 7, d.shape, "i", 1, 5).astype(dt)
        g = np.moveaxis(do, 0, -1) if case["nc"] and case["layout"] == "interlaced" else do
    elif o == "field":
        g, do = mk(case, 9, dtype=dt, positive=pos, name="g")
        if op == "pow":
            do = (do % 3).astype(dt)
            g.data[...] = g.data % 3
    elif o == "scalarfield":
        g, do = mk(case, 9, dtype=dt, positive=pos, name="g", nc=0)
        if op == "pow":
            do = (do % 3).astype(dt)
            g.data[...] = g.data % 3
    elif o == "vectorfield":
        if case["nc"]:
            raise Discard()
        if len(sshape(case["spec"])) < 2:
            raise Discard()
        g, do = mk(case, 9, dtype=dt, positive=pos, name="g", nc=3)
        if op == "pow":
            raise Discard()
    with np.errstate(all="ignore"):
        if case["rev"]:
            want, got = fn(do, d), fn(g, f)
        else:
            want, got = fn(d, do), fn(f, g)
    if op == "divmod":
        require(isinstance(got, tuple) and len(got) == 2, "divmod gives {0!r}", got)
        for i in range(2):
            same(case, got[i], np.asarray(want[i]), "divmod {0} [{1}]".format(o, i), dtype=True)
    else:
        same(case, got, np.asarray(want), "{0} {1}".format(op, o), dtype=True)
    eq_arr(flat_vec(f) if case["nc"] else f.data, d, "operand changed")


@st.composite
def ufunc_cases(draw):
    c = draw(bases())
    c["op"] = draw(st.sampled_from(UFUNC1 + UFUNC2 + ["astype", "real", "imag", "conj", "angle",
                                                      "clip", "round", "argsort", "cumsum",
                                                      "cumprod"]))
    c["k"] = draw(st.integers(0, 5))
    return c


def check_ufunc(case):
    op = case["op"]
    label(op)
    nontrivial()
    flat = not (case["nc"] and case["layout"] == "interlaced")
    with np.errstate(all="ignore"):
        if op in UFUNC1:
            f, d = mk(case, kind="f", dtype="f8", positive=True)
            same(case, getattr(np, op)(f), getattr(np, op)(d), op)
        elif op in UFUNC2:
            f, d = mk(case, kind="f", dtype="f8")
            g, e = mk(case, 5, kind="f", dtype="f8")
            if op != "add" and case["k"] % 2:
                g = e = 1.5
            same(case, getattr(np, op)(f, g), getattr(np, op)(d, e), op)
        elif op == "astype":
            f, d = mk(case)
            for t in ("f4", "i4", "f8", "complex128"):
                same(case, f.astype(t), d.astype(t), "astype " + t)
            require(f.astype(f.dtype) is f, "astype(own dtype) made a new field")
        elif op in ("real", "imag", "conj", "angle"):
            f, d = mk(case, kind="c", dtype="complex128")
            if op == "angle":
                same(case, f.angle(), np.angle(d), op)
                same(case, f.angle(deg=True), np.angle(d, deg=True), op)
            elif op == "conj":
                same(case, f.conj(), d.conj(), op)
                same(case, f.conjugate(), d.conj(), op)
            else:
                same(case, getattr(f, op), getattr(d, op), op)
        elif op == "clip":
            f, d = mk(case)
            same(case, f.clip(-3, 4), d.clip(-3, 4), op)
            same(case, np.clip(f, -3, 4), d.clip(-3, 4), op)
            same(case, f.clip(min=0), d.clip(min=0), op)
        elif op == "round":
            f, d = mk(case, kind="f", dtype="f8")
            same(case, f.round(case["k"] % 3), d.round(case["k"] % 3), op)
        else:
            f, d = mk(case, kind="uniq" if op == "argsort" else "i", dtype="f8")
            nd = d.ndim
            ax = case["k"] % nd
            fax = ax
            if not flat:
                fax = nd - 1 if ax == 0 else ax - 1
            if case["k"] > 2:
                fax -= nd
            same(case, getattr(f, op)(axis=fax), getattr(d, op)(axis=ax), op)


REDS = ["sum", "mean", "min", "max", "prod", "std", "any", "all", "ptp", "argmin", "argmax"]


@st.composite
def red_cases(draw):
    c = draw(bases())
    c["op"] = draw(st.sampled_from(REDS))
    c["axes"] = draw(st.lists(st.integers(0, 3), max_size=3, unique=True))
    c["neg"] = draw(st.booleans())
    c["np"] = draw(st.booleans())
    c["keep"] = draw(st.sampled_from([None, None, True, False]))
    return c


def check_red(case):
    op, spec = case["op"], case["spec"]
    f, d = mk(case, kind="uniq" if op[:3] == "arg" else "f", dtype="f8")
    if op in ("any", "all"):
        d = (d > 0).astype("f8")
        f = f > 0
    nd = d.ndim
    axes = sorted(set(a % nd for a in case["axes"]))
    if op[:3] == "arg" or op == "ptp" and case["np"]:
        axes = axes[:1]
    label(op, "{0} axes".format(len(axes)))
    # axes of f.data for those of d
    fax = axes
    if case["nc"] and case["layout"] == "interlaced":
        fax = [nd - 1 if a == 0 else a - 1 for a in axes]
    if case["neg"]:
        fax = [a - nd for a in fax]
    off = 1 if case["nc"] else 0
    kw, nkw = {}, {}
    if axes:
        kw["axis"] = fax[0] if len(fax) == 1 else tuple(fax)
        nkw["axis"] = axes[0] if len(axes) == 1 else tuple(axes)
    keep = case["keep"]
    if keep is not None and axes and op[:3] != "arg" and not (off and 0 in axes):
        kw["keepdims"] = keep
    want = np.asarray(getattr(d, op)(**nkw))
    if op[:3] == "arg" and not axes:
        # an index into the flattened data
        want = np.asarray(getattr(np.asarray(f.data), op)())
    got = getattr(np, op)(f, **kw) if case["np"] else getattr(f, op)(**kw)
    nontrivial(want.size > 1)
    cc = spec["center"] == "cell"
    crd = {a: cc_of(v) if cc else v for a, v in zip(spec["names"], spec_arrs(spec))}
    left = [a for i, a in enumerate(spec["names"]) if i + off not in axes]
    comps = bool(off) and 0 not in axes
    if want.size == 1 or not left:
        close(np.asarray(got, dtype="f8").reshape(-1), want.astype("f8").reshape(-1), op)
        return
    require(isinstance(got, viscid.field.Field), "not a field but {0}", type(got))
    shp = [len(crd[a]) for a in left]
    if comps and ambiguous(list(got.sshape), case["nc"]):
        raise Discard()
    g = flat_vec(got) if comps else np.asarray(got.data)
    require(g.size == want.size, "size {0} != {1}", g.size, want.size)
    close(g.reshape(want.shape).astype("f8"), want.astype("f8"), op + " values")
    for a in left:
        require(a in got.crds.axes, "axis {0} is gone", a)
        close(got.get_crd(a), crd[a], "coordinates of {0}".format(a), 1e-9, 1e-9)
    if keep is not None and "keepdims" in kw:
        require((len(got.crds.axes) == len(spec["names"])) == keep or 1 in shp,
                "keepdims={0} gave {1}", keep, got.shape)
    require(got.iscentered(spec["center"]), "center")


# ------------------------------------------------------------- transposes
@st.composite
def t_cases(draw):
    c = draw(bases())
    c["how"] = draw(st.sampled_from(["T", "transpose", "np", "tuple", "neg", "TC", "ST", "crds",
                                     "crds_int", "swapaxes", "np.swapaxes", "swap_crd", "sliced"]))
    c["perm"] = draw(st.permutations(range(4)))
    return c


def check_t(case):
    spec = case["spec"]
    f, d = mk(case, kind="uniq", dtype="f8")
    how = case["how"]
    nd = len(f.shape)
    ns = len(spec["n"])
    perm = [i for i in case["perm"] if i < nd]
    cperm = [i for i in case["perm"] if i < ns]
    names = list(spec["names"])
    base = f.data
    crd = {a: f.get_crd(a) for a in names}
    tol = dict(rtol=1e-9, atol=1e-9)
    label(how, case["layout"] if case["nc"] else "scalar")
    comp_ax = None
    if case["nc"]:
        comp_ax = 0 if f.layout == "flat" else nd - 1
    if how == "sliced":
        f = f[{1: np.s_[::2], 2: np.s_[::2, ::-1], 3: np.s_[::2, ::-1, ::-2]}[ns]] \
            if not case["nc"] else f
        if not isinstance(f, viscid.field.Field) or f.nr_sdims != ns or f.size == 1:
            raise Discard()
        base = f.data
        crd = {a: f.get_crd(a) for a in names}
    if how in ("T", "sliced"):
        got, p = (lambda: f.T), list(range(nd))[::-1]
    elif how == "transpose":
        got, p = (lambda: f.transpose(*perm)), perm
    elif how == "np":
        got, p = (lambda: np.transpose(f, axes=perm)), perm
    elif how == "tuple":
        got, p = (lambda: f.transpose(tuple(perm))), perm
    elif how == "neg":
        got, p = (lambda: f.transpose(*[i - nd for i in perm])), perm
    elif how in ("swapaxes", "np.swapaxes"):
        a, b = perm[0], perm[-1]
        got = lambda: f.swapaxes(a, b) if how == "swapaxes" else np.swapaxes(f, a, b)
        p = list(range(nd))
        p[a], p[b] = p[b], p[a]
    else:
        if how in ("TC", "ST"):
            got, cp = (lambda: getattr(f, how)), list(range(ns))[::-1]
        elif how == "crds":
            got, cp = (lambda: f.transpose_crds(*[names[i] for i in cperm])), cperm
        elif how == "crds_int":
            got, cp = (lambda: f.transpose_crds(*cperm)), cperm
        else:
            a, b = cperm[0], cperm[-1]
            got = lambda: f.swap_crd_axes(names[a], names[b])
            cp = list(range(ns))
            cp[a], cp[b] = cp[b], cp[a]
        if comp_ax is None:
            p = cp
        elif comp_ax == 0:
            p = [0] + [i + 1 for i in cp]
        else:
            p = list(cp) + [nd - 1]
    want = base.transpose(p)
    # where did the components and spatial axes go
    if comp_ax is not None and p.index(comp_ax) not in (0, nd - 1):
        raise Discard()
    new_names = []
    for i in p:
        if i == comp_ax:
            continue
        new_names.append(names[i - 1 if comp_ax == 0 else i])
    if comp_ax is not None:
        shp = [want.shape[i] for i in range(nd) if p[i] != comp_ax]
        if ambiguous(shp, case["nc"]):
            raise Discard()
    nontrivial(p != list(range(nd)))
    got = got()
    require(list(got.crds.axes) == new_names, "axes {0} != {1}", got.crds.axes, new_names)
    eq_arr(got.data, want, how)
    for a in names:
        close(got.get_crd(a), crd[a], how + " coordinates", **tol)
    require(got.iscentered(spec["center"]) and got.time == 2.5, "center / time")
    if comp_ax is not None:
        require(got.layout == ("flat" if p.index(comp_ax) == 0 else "interlaced"), "layout")


# --------------------------------------------------------------- integrals
@st.composite
def int_cases(draw):
    c = draw(bases(n=(2, 6)))
    c["axis"] = draw(st.integers(0, 2))
    c["how"] = draw(st.sampled_from(["name", "int", "neg"]))
    c["fudge"] = draw(st.booleans())
    c["cum"] = draw(st.booleans())
    return c


def check_int(case):
    spec = case["spec"]
    f, d = mk(case, kind="f", dtype="f8")
    names = list(spec["names"])
    ns = len(names)
    i = case["axis"] % ns
    cc = spec["center"] == "cell"
    crd = [cc_of(v) if cc else v for v in spec_arrs(spec)]
    x = crd[i]
    if len(x) < 2:
        raise Discard()
    axis = {"name": names[i], "int": i, "neg": i - ns}[case["how"]]
    off = 1 if case["nc"] else 0
    shp = [1] * d.ndim
    shp[i + off] = -1
    integrand = d * (1.0 + x**2).reshape(shp) if case["fudge"] else d
    fudge = (lambda dat, c: 1.0 + c**2) if case["fudge"] else None
    dx = np.diff(x).reshape(shp)
    lo = [slice(None)] * d.ndim
    hi = list(lo)
    lo[i + off], hi[i + off] = slice(None, -1), slice(1, None)
    steps = 0.5 * (integrand[tuple(lo)] + integrand[tuple(hi)]) * dx
    label("cum" if case["cum"] else "trapz", case["how"], case["layout"] if off else "scalar")
    if case["cum"]:
        want = np.zeros_like(d)
        want[tuple(hi)] = np.cumsum(steps, axis=i + off)
        got = f.cumtrapz(axis=axis, fudge_factor=fudge)
        nontrivial()
        close(flat_vec(got) if off else got.data, want, "cumtrapz", 1e-9, 1e-9)
        for a, c in zip(names, crd):
            close(got.get_crd(a), c, "coordinates", 1e-9, 1e-9)
        return
    want = steps.sum(axis=i + off)
    if want.size == 1 and ns > 1:
        raise Discard()
    if off and ns > 1 and ambiguous([len(c) for j, c in enumerate(crd) if j != i], case["nc"]):
        raise Discard()
    got = f.trapz(axis=axis, fudge_factor=fudge)
    nontrivial(ns > 1)
    if ns == 1:
        close(np.asarray(got).reshape(-1), want.reshape(-1), "trapz", 1e-9, 1e-9)
        return
    close(flat_vec(got) if off else got.data, want, "trapz", 1e-9, 1e-9)
    left = [a for a in names if a != names[i]]
    require(list(got.crds.axes) == left, "axes {0}", got.crds.axes)
    for a in left:
        close(got.get_crd(a), crd[names.index(a)], "coordinates", 1e-9, 1e-9)


@st.composite
def down_cases(draw):
    return {"spec": draw(grid_specs(nd=(1, 3), n=(2, 7))), "f4": draw(st.booleans()), "cut": draw(st.booleans())}


def check_down(case):
    """half as many values, each the mean of those it stands for"""
    spec = case["spec"]
    shp = sshape(spec)
    d = rarr(spec["seed"], shp).astype("f4" if case["f4"] else "f8")
    f = scalar_field(spec, d, name="f", time=2.5)
    nodes = [np.asarray(a, dtype="f8") for a in spec_arrs(spec)]
    if case["cut"] and shp[0] > 3:
        f = f["{0}=1:".format(spec["names"][0])]
        d, nodes[0] = d[1:], nodes[0][1:]
    if d.size == 1:
        raise Discard()
    got = f.downsample()
    want = d.astype("f8")
    for i, n in enumerate(d.shape):
        k = n // 2
        if n == 1:
            continue
        want = np.stack([np.take(want, [2 * j, 2 * j + 1], axis=i).mean(axis=i) for j in range(k)], axis=i)
    if want.size == 1 and not isinstance(got, viscid.field.Field):
        raise Discard()
    require(got.nr_sdims == len(shp) and list(got.crds.axes) == list(spec["names"]) and got.time == 2.5, "{0} {1}", got.crds.axes, got.time)
    close(np.asarray(got.data, dtype="f8"), want, "values", 1e-5 if case["f4"] else 1e-12, 1e-5 if case["f4"] else 1e-12)
    require(got.iscentered(spec["center"]), "center {0}", got.center)
    for a, nc, n in zip(spec["names"], nodes, d.shape):
        k = n // 2
        if n == 1:
            close(got.get_crd_nc(a), nc, "nodes along " + a, 1e-9, 1e-9)
        elif spec["center"] == "cell":
            close(got.get_crd_nc(a), nc[:2 * k + 1:2], "nodes along " + a, 1e-9, 1e-9)
        else:
            close(got.get_crd(a), 0.5 * (nc[:2 * k:2] + nc[1:2 * k:2]), "nodes along " + a, 1e-9, 1e-9)
    nontrivial(max(shp) > 3)


FACETS = [
    Facet("downsample", down_cases(), check_down, quick=300, rule="more than three values along some axis"),
    Facet("operators", op_cases(), check_op, quick=2400, rule="the other operand is an array or field"),
    Facet("ufuncs", ufunc_cases(), check_ufunc, quick=1500, rule="every case"),
    Facet("reductions", red_cases(), check_red, quick=1800, rule="more than one number is left"),
    Facet("transpose", t_cases(), check_t, quick=1500, rule="not the identity permutation"),
    Facet("integrals", int_cases(), check_int, quick=1200,
          rule="a cumulative integral, or one that leaves a field"),
]
