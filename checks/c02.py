"""C02: slicing by location selects exactly the grid points inside of the region"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds
from vf.fields import (ambiguous, cc_of, flat_vec, grid_specs, scalar_field, spec_arrs,
                       sshape, vector_field)

# a location is drawn as [i, f]: element i plus the fraction f of the way to
# the next one; f == 0 is exactly on the grid, i == -1 / n - 1 are outside


def loc_val(crd, loc):
    i, f = loc
    n = len(crd)
    d = 1.0
    if n > 1:
        d = crd[1] - crd[0]
    if f == 0:
        i = min(max(i, 0), n - 1)
        return crd[i]
    if i < 0:
        return crd[0] - f * d
    if i >= n - 1:
        return crd[-1] + f * d
    return crd[i] + f * (crd[i + 1] - crd[i])


def in_region(crd, start, stop, step):
    """indices of start <= crd <= stop (or >= for negative steps) with
    whatever is an index treated as an index"""
    n = len(crd)
    step = 1 if step is None else step
    ok = np.ones(n, dtype=bool)
    idx = np.arange(n)
    # fuzz well below what could matter, to be insensitive to roundoff
    tol = 1e-9 * max(1.0, np.max(np.abs(crd))) if crd.dtype.kind == "f" else crd[:1] - crd[:1]
    for which, b in (("start", start), ("stop", stop)):
        if b is None:
            continue
        kind, v = b
        lower = (which == "start") == (step > 0)
        if kind == "val":
            ok &= (crd >= v - tol) if lower else (crd <= v + tol)
        else:
            lst = slice(v, None, step) if which == "start" else slice(None, v, step)
            if which == "start":
                s = lst.indices(n)[0]
                ok &= idx >= s if step > 0 else idx <= s
            else:
                s = lst.indices(n)[1]
                ok &= idx < s if step > 0 else idx > s
    sel = idx[ok]
    if step < 0:
        sel = sel[::-1]
    return sel[::abs(step)]


def fmt(v, how):
    if how == "complex":
        return 1j * float(v)
    s = repr(float(v))
    if how == "locstr":
        # in one of the ways to write numbers
        k = len(s) % 3
        s = "{0:.17e}".format(float(v)) if k == 1 else s[:-1] if k == 2 and s.endswith(".0") else s
    return s + {"strj": "j", "strf": "f", "locstr": ""}[how]


def mk_elem(crd, sel, how):
    """-> (python selection element, indices kept, reduced?)"""
    t = sel[0]
    if t == "p":                        # single location: nearest element
        v = loc_val(crd, sel[1])
        dist = np.abs(crd - v)
        best = np.flatnonzero(dist <= np.min(dist) * (1 + 1e-9) + 1e-12)
        if len(best) > 1:
            raise Discard()
        el = float(v) if how == "loc" else fmt(v, how)
        return el, best, True
    if t == "pa":                       # array of locations
        vals, idx = [], []
        for l in sel[1]:
            v = loc_val(crd, l)
            dist = np.abs(crd - v)
            best = np.flatnonzero(dist <= np.min(dist) * (1 + 1e-9) + 1e-12)
            if len(best) > 1:
                raise Discard()
            vals.append(v)
            idx.append(best[0])
        if how == "loc":
            vals = [float(v) for v in vals]
            return np.array(vals) if len(vals) % 2 else vals, np.array(idx), False
        if how == "complex":
            return [1j * float(v) for v in vals], np.array(idx), False
        return "[" + ", ".join(fmt(v, how) for v in vals) + "]", np.array(idx), False
    # slices
    step = sel[3]
    b = []
    py = []
    for e in (sel[1], sel[2]):
        if e is None:
            b.append(None)
            py.append(None)
        elif e[0] == "v":
            v = loc_val(crd, e[1])
            b.append(("val", v))
            py.append(float(v) if how == "loc" else fmt(v, how))
        else:
            if how in ("loc", "locstr"):
                raise Discard()
            b.append(("idx", e[1]))
            py.append(e[1])
    idx = in_region(crd, b[0], b[1], step)
    if how in ("strj", "strf", "locstr"):
        s = ":".join("" if p is None else str(p) for p in py)
        if step is not None:
            s += ":{0}".format(step)
        return s, idx, False
    return slice(py[0], py[1], step), idx, False


@st.composite
def loc_sel(draw, n):
    frac = st.sampled_from([0, 0, 0.1, 0.3, 0.45, 0.55, 0.8, 0.95])
    loc = st.tuples(st.integers(-1, n), frac).map(list)
    t = draw(st.sampled_from(["p", "s", "s", "s", "s", "pa", "full"]))
    if t == "p":
        return ["p", draw(loc)]
    if t == "pa":
        return ["pa", draw(st.lists(loc, min_size=2, max_size=4))]
    if t == "full":
        return ["s", None, None, None]
    end = st.one_of(st.none(), loc.map(lambda l: ["v", l]), loc.map(lambda l: ["v", l]),
                    st.integers(-n, n).map(lambda k: ["i", k]))
    return ["s", draw(end), draw(end), draw(st.sampled_from([None, 1, 2, -1, -2, 3]))]


@st.composite
def cases(draw, vector=False):
    spec = draw(grid_specs(nd=(1, 3), n=(5, 8) if vector else (2, 8)))
    case = {"spec": spec, "sels": [draw(loc_sel(n)) for n in sshape(spec)],
            "how": draw(st.sampled_from(["complex", "strj", "strf", "loc", "locstr"])),
            "join": draw(st.sampled_from(["pos", "named", "onestr"])),
            "method": draw(st.sampled_from(["slice", "slice", "slice_keep"]))}
    narr = 0
    for s in case["sels"]:
        narr += s[0] == "pa"
        if narr > 1 and s[0] == "pa":
            s[:] = ["s", None, None, None]
    if vector:
        case["layout"] = draw(st.sampled_from(["flat", "interlaced"]))
        case["comp"] = draw(st.sampled_from([None, 0, 1, 2]))
        if len(spec["n"]) == 3 and spec["center"] == "cell":
            # vectors with a value per cell may be face or edge centered too
            spec["stag"] = draw(st.sampled_from([None, None, "face", "edge"]))
    return case


def check(case):
    spec = case["spec"]
    arrs = spec_arrs(spec)
    cc = spec["center"] == "cell"
    cent = [cc_of(a) if cc else a for a in arrs]
    shp = tuple(len(c) for c in cent)
    vector = "layout" in case
    how = case["how"]
    els, idxs, red = [], [], []
    for c, s in zip(cent, case["sels"]):
        e, i, r = mk_elem(c, s, how)
        els.append(e)
        idxs.append(i)
        red.append(r)
    if any(len(i) == 0 for i in idxs):
        raise Discard()
    if vector:
        if ambiguous(shp, 3):
            raise Discard()
        data = rarr(spec["seed"], (3,) + shp, "uniq")
        fld = vector_field(spec, data, case["layout"])
    else:
        data = rarr(spec["seed"], shp, "uniq")
        fld = scalar_field(spec, data)
    comp = case.get("comp")
    axes = list(spec["names"])
    keep = case["method"] == "slice_keep"

    target = fld
    if how == "loc" or (how == "locstr" and case["join"] != "onestr"):
        sel = list(els)
        if how == "locstr" and case["join"] == "named":
            sel = ["{0}={1}".format(a, e) for a, e in zip(axes, els)]
        if comp is not None:
            sel.insert(0, "xyz"[comp])
        given = [list(e) if isinstance(e, list) else e for e in sel]
        got = fld.loc[tuple(sel) if len(sel) > 1 or isinstance(sel[0], list) else sel[0]]
        require(all(e == g for e, g in zip(sel, given) if isinstance(g, list)), "loc turned the caller's list to {0}", sel)
        keep = False
    else:
        if how in ("strj", "strf", "locstr") and case["join"] != "pos":
            sel = ["{0}={1}".format(a, e) for a, e in zip(axes, els)]
            label(case["join"])
        else:
            sel = list(els)
        if comp is not None:
            sel.insert(0, "xyz"[comp])
        if how in ("strj", "strf", "locstr") and case["join"] == "onestr":
            sel = ", ".join(sel)
        elif len(sel) == 1 and not isinstance(sel[0], list):
            sel = sel[0]
        else:
            sel = tuple(sel)
        if how == "locstr":
            keep = False
            got = target.loc[sel]
        else:
            got = getattr(target, case["method"])(sel)

    want = data if comp is None else data[comp]
    off = 1 if (vector and comp is None) else 0
    for ax, i in enumerate(idxs):
        want = np.take(want, i, axis=ax + off)
    gone = [] if keep else [i for i, r in enumerate(red) if r]
    want = np.squeeze(want, axis=tuple(i + off for i in gone))
    full = all(s == ["s", None, None, None] for s in case["sels"])
    nontrivial(not full and any(len(i) < n for i, n in zip(idxs, shp)))
    label(how, spec.get("stag") or spec["center"], "vector" if vector else "scalar",
          *["t" + s[0] for s in case["sels"]])
    if any(s[0] == "s" and (s[3] or 1) < 0 for s in case["sels"]):
        label("backward")

    if want.size == 1 and not isinstance(got, viscid.field.Field):
        eq_arr(np.asarray(got).reshape(()), want.reshape(()), "scalar result")
        return
    if off and want.ndim == 1:
        raise Discard()
    if off and ambiguous(want.shape[1:], 3):
        raise Discard()
    require(isinstance(got, viscid.field.Field), "expected a field, got {0!r}", type(got))
    left = [i for i in range(len(axes)) if i not in gone]
    require(list(got.crds.axes) == [axes[i] for i in left], "axes are {0}", list(got.crds.axes))
    eq_arr(flat_vec(got) if off else np.asarray(got.data), want, "data of the region")
    for i in left:
        if not spec.get("stag"):
            close(got.get_crd(axes[i]), cent[i][idxs[i]], "coordinates along " + axes[i],
                  1e-9, 1e-9)
        close(got.crds.get_crd(axes[i], center="cell" if cc else "node"), cent[i][idxs[i]],
              "where the values along {0} are".format(axes[i]), 1e-9, 1e-9)


# --------------------------------------------------------------- datetimes
UNITS = {"s": 1, "m": 60, "h": 3600, "ms": 1e-3}


@st.composite
def time_cases(draw):
    n = draw(st.integers(3, 9))
    frac = st.sampled_from([0, 0, 0.2, 0.4, 0.6, 0.8])
    loc = st.tuples(st.integers(-1, n), frac).map(list)
    t = draw(st.sampled_from(["p", "s", "s", "s"]))
    case = {"n": n, "seed": draw(seeds), "axis": draw(st.sampled_from(["dt", "td"])),
            "unit": draw(st.sampled_from(["s", "ms", "us"])),
            "center": "node", "nx": draw(st.integers(1, 4)),
            "how": draw(st.sampled_from(["obj", "str", "onestr", "delta", "deltastr",
                                         "deltaonestr", "py"])),
            "named": draw(st.booleans())}
    if t == "p":
        case["sel"] = ["p", draw(loc)]
    else:
        end = st.one_of(st.none(), loc, loc)
        case["sel"] = ["s", draw(end), draw(end), draw(st.sampled_from([None, 2, -1]))]
    return case


def _tval(ms, loc):
    """times as integer milliseconds, on multiples of 10"""
    i, f = loc
    n = len(ms)
    if f == 0:
        return int(ms[min(max(i, 0), n - 1)])
    if i < 0:
        return int(ms[0] - f * 1000)
    if i >= n - 1:
        return int(ms[-1] + f * 1000)
    return int(ms[i] + round(f * (ms[i + 1] - ms[i])))


def _hms(ms, sub):
    h, r = divmod(ms, 3600000)
    m, r = divmod(r, 60000)
    s, r = divmod(r, 1000)
    return "{0:02d}:{1:02d}:{2:02d}.{3:03d}".format(h, m, s, r)


def check_time(case):
    r = rng(case["seed"])
    n = case["n"]
    # the axis, in ms: 10 s to 10 min apart
    ms = np.cumsum(np.concatenate([[0], r.randint(10, 600, size=n - 1) * 1000]))
    t0 = np.datetime64("2010-01-0{0}T1{1}:00:00".format(r.randint(1, 9), r.randint(0, 9)), "ms")
    how = case["how"]
    if case["axis"] == "dt":
        t = (t0 + ms.astype("m8[ms]")).astype("M8[{0}]".format(case["unit"]))
        base = ms
    else:
        ms = ms + r.randint(0, 100) * 1000
        t = ms.astype("m8[ms]").astype("m8[{0}]".format(case["unit"]))
        base = ms
    x = np.arange(float(case["nx"] + 1))
    data = rarr(case["seed"], (n, len(x)), "uniq")
    fld = viscid.arrays2field([t, x], data, crd_names="tx", center="node")

    def write(v):
        """v is ms after t0 (dt) or the timedelta itself (td)"""
        if case["axis"] == "dt":
            absolute = t0 + np.timedelta64(v, "ms")
            rel = v - int(ms[0])
            if how == "obj":
                return absolute
            if how == "py":
                return absolute.astype("M8[us]").item()
            if how == "str":
                return str(absolute)
            if how == "onestr":
                return "UT" + str(absolute)
            if rel < 0:
                raise Discard()
            if how == "delta":
                return np.timedelta64(rel, "ms")
            return ("T" if how == "deltaonestr" else "") + _hms(rel, True)
        if v < 0:
            raise Discard()
        if how in ("obj", "delta"):
            return np.timedelta64(v, "ms")
        if how == "py":
            return np.timedelta64(v, "ms").astype("m8[us]").item()
        if how in ("onestr", "deltaonestr"):
            return "T" + _hms(v, True)
        return _hms(v, True)

    sel = case["sel"]
    label(how, case["axis"], case["unit"], "t" + sel[0])
    if sel[0] == "p":
        v = _tval(base, sel[1])
        dist = np.abs(base - v)
        best = np.flatnonzero(dist == dist.min())
        if len(best) > 1:
            raise Discard()
        el = write(v)
        if isinstance(el, str) and not el.startswith(("U", "T")):
            el = ("UT" if "-" in el else "T") + el
        idx = best
    else:
        vals = [None if e is None else _tval(base, e) for e in sel[1:3]]
        idx = in_region(base, *[None if v is None else ("val", v) for v in vals], step=sel[3])
        els = [None if v is None else write(v) for v in vals]
        if len(idx) == 0:
            raise Discard()
        if how in ("onestr", "deltaonestr"):
            el = ":".join("" if e is None else e for e in els)
            if sel[3] is not None:
                el += ":{0}".format(sel[3])
            if case["named"]:
                el = "t = " + el
                label("named")
        else:
            el = slice(els[0], els[1], sel[3])
    got = fld[el]
    nontrivial(len(idx) < n)
    if sel[0] == "p":
        want = data[idx[0]]
    else:
        want = data[idx]
        eq_arr(np.asarray(got.get_crd("t")).astype("i8"), t[idx].astype("i8"), "time axis")
        require(np.asarray(got.get_crd("t")).dtype == t.dtype, "dtype of the time axis")
    eq_arr(got.data, want, "data in the time range")
    # slicing x too
    got = fld[el, ::-1]
    eq_arr(got.data, want[..., ::-1], "data in the time range, x reversed")


FACETS = [
    Facet("scalar", cases(), check, quick=2400,
          rule="the region leaves something out of at least one axis"),
    Facet("vector", cases(vector=True), check, quick=1200,
          rule="the region leaves something out of at least one axis"),
    Facet("times", time_cases(), check_time, quick=1200, rule="not the whole time axis is selected"),
]
