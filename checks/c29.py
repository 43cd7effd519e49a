"""C29: selecting times takes the steps inside of the selection, in order, however times are given"""
import datetime
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import viscid
from checks.c02 import in_region
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, require, rng, seeds

FRAC = st.sampled_from([0, 0, 1, 2, 3])   # quarters of the way to the next one


@st.composite
def one_loc(draw, n):
    return [draw(st.integers(-1, n)), draw(FRAC)]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 9))
    end = st.one_of(st.none(), one_loc(n).map(lambda v: ["v", v]), one_loc(n).map(lambda v: ["v", v]), st.integers(-n, n).map(lambda i: ["i", i]))
    kind = draw(st.sampled_from(["slice", "slice", "slice", "slice", "one", "idx"]))
    return {"n": n, "seed": draw(seeds), "kind": kind, "start": draw(end), "stop": draw(end), "step": draw(st.sampled_from([None, None, 1, 2, -1, -2, 3])),
            "one": draw(one_loc(n)), "i": draw(st.integers(-n, n - 1)), "how": [draw(st.sampled_from(["j", "f", "complex", "dt64", "dt", "UT", "ISO", "T", "td64", "td"])) for _ in range(2)],
            "form": draw(st.sampled_from(["py", "str"])), "base": draw(st.sampled_from(["1980-01-01", "2017-12-31T23:59:30.5", "1996-02-29T12:00"])),
            "nested": draw(st.integers(0, 2)), "deferred": draw(st.integers(0, 3)) == 0, "opt": draw(st.sampled_from(["no", "no", "no", "end", "interior"])),
            "big": draw(st.sampled_from([1, 1, 1000, 86400])), "where": draw(st.sampled_from(["set", "parent", "ctor"])), "even": draw(st.booleans()),
            "unit": draw(st.sampled_from(["s", "s", "s", "m", "h"]))}


def mk_times(case):
    r = rng(case["seed"])
    n = case["n"]
    d = np.full(n, 8) if case["even"] else 4 * r.randint(1, 9, n)
    return np.cumsum(d) * 0.125 * case["big"] + (r.randint(-8, 9) if r.randint(0, 2) else 0)


def loc(times, v):
    i, q = v
    n = len(times)
    d = times[1] - times[0] if n > 1 else 1.0
    if q == 0:
        return float(times[min(max(i, 0), n - 1)])
    f = q * 0.25
    if i < 0:
        return float(times[0] - f * d)
    if i >= n - 1:
        return float(times[-1] + f * d)
    return float(times[i] + f * (times[i + 1] - times[i]))


def hms(sec):
    h, sec = divmod(sec, 3600)
    m, sec = divmod(sec, 60)
    return "{0:02d}:{1:02d}:{2:09.6f}".format(int(h), int(m), sec)


def give(v, how, base, usec, form):
    """a value (in units of usec seconds) as something that selects it"""
    sec = v * usec
    us = int(round(sec * 1e6))
    inst = np.datetime64(base, "us") + np.timedelta64(us, "us")
    if form == "str":
        if how in ("complex", "j", "td64", "td"):
            return "{0!r}j".format(v)
        if how == "f":
            return "{0!r}f".format(v)
        if how == "T":
            if not 0 <= sec < 86400:
                return "{0!r}f".format(v)
            return "T" + hms(sec)
        return ("T" if how == "dt" else "UT") + str(inst)
    if how in ("ISO", "T") and form == "one":
        # colons would separate the parts of a slice
        form, how = "py", "UT" if how == "ISO" or not 0 <= sec < 86400 else "Tone"
    if how == "T" and not 0 <= sec < 86400:
        how = "td64"
    return {"j": lambda: "{0!r}j".format(v), "f": lambda: "{0!r}f".format(v), "complex": lambda: 1j * v, "dt64": lambda: inst, "UT": lambda: "UT" + str(inst),
            "dt": lambda: inst.item(), "ISO": lambda: str(inst), "T": lambda: hms(sec), "Tone": lambda: "T" + hms(sec), "td64": lambda: np.timedelta64(us, "us"), "td": lambda: datetime.timedelta(microseconds=us)}[how]()


def selection(case, times, usec):
    """-> (selection, indices)"""
    form = case["form"]
    n = len(times)
    if case["kind"] == "idx":
        return (str(case["i"]) if form == "str" else case["i"]), [case["i"] % n]
    if case["kind"] == "one":
        v = loc(times, case["one"])
        dist = np.abs(times - v)
        best = np.flatnonzero(dist <= dist.min() * (1 + 1e-9))
        if len(best) > 1:
            raise Discard()
        return give(v, case["how"][0], case["base"], usec, "one" if form == "py" else form), list(best)
    # what is close enough to the only one isn't said
    if n == 1 and any(e is not None and e[0] == "v" and e[1][1] for e in (case["start"], case["stop"])):
        raise Discard()
    b, py = [], []
    for e, how in zip((case["start"], case["stop"]), case["how"]):
        if e is None:
            b.append(None)
            py.append(None)
        elif e[0] == "v":
            v = loc(times, e[1])
            b.append(("val", v))
            py.append(give(v, how, case["base"], usec, form))
        else:
            b.append(("idx", e[1]))
            py.append(e[1])
    step = case["step"]
    sgn = 1 if step is None or step > 0 else -1
    if case["opt"] == "no":
        idx = in_region(times, b[0], b[1], step)
    elif case["opt"] == "end":
        lo = in_region(times, b[0], b[1], sgn)
        if b[1] is not None and b[1][0] == "val":
            inside = np.flatnonzero(times <= b[1][1]) if sgn > 0 else np.flatnonzero(times >= b[1][1])
            if len(inside):
                last = inside[-1] if sgn > 0 else inside[0]
                lo = [i for i in lo if (i < last if sgn > 0 else i > last)]
        idx = np.array(lo, dtype=int)[::abs(step or 1)]
    else:
        # expanded so that both values are inside
        if step not in (None, 1, -1) or any(e is None or e[0] != "val" or not times[0] <= e[1] <= times[-1] for e in b):
            raise Discard()
        a, z = b[0][1], b[1][1]
        if (z - a) * sgn < 0:
            raise Discard()
        if sgn > 0:
            idx = np.arange(np.flatnonzero(times <= a)[-1], np.flatnonzero(times >= z)[0] + 1)
        else:
            idx = np.arange(np.flatnonzero(times >= a)[0], np.flatnonzero(times <= z)[-1] - 1, -1)
    if form == "str":
        s = ":".join("" if p is None else str(p) for p in py)
        if step is not None:
            s += ":{0}".format(step)
        return s, list(idx)
    return slice(py[0], py[1], step), list(idx)


def build(case, times, usec):
    r = rng(case["seed"] + 5)
    crds = viscid.arrays2crds([np.arange(4.0), np.arange(3.0)])

    def grid(t, i):
        g = viscid.grid.Grid(name="g{0}".format(i))
        g.time = t
        g.set_crds(crds)
        g.add_field(viscid.wrap_field(np.full((3, 2), float(i)), crds, name="f", center="cell", time=t))
        return g

    kw = {"basetime": case["base"]} if case["where"] == "ctor" else {}
    ds = viscid.dataset.DatasetTemporal(**kw)
    for i in r.permutation(len(times)):
        if case["deferred"]:
            ds.add_deferred(float(times[i]), grid, callback_args=(times[i], int(i)))
        else:
            ds.add(grid(times[i], int(i)))
    top = ds
    for _ in range(case["nested"]):
        p = viscid.dataset.Dataset()
        p.add(top)
        top = p
    if case["where"] == "set":
        ds.basetime = case["base"]
    elif case["where"] == "parent":
        top.basetime = np.datetime64(case["base"])
    top.activate_time(0)
    return top, ds


def check_select(case):
    # times in minutes or hours, as told
    usec = {"s": 1, "m": 60, "h": 3600}[case["unit"]]
    times = mk_times(case)
    n = len(times)
    top, ds = build(case, times, usec)
    sel, want = selection(case, times, usec)
    if case["kind"] == "slice" and isinstance(sel, str) and sel.count(":") == 0:
        raise Discard()
    nontrivial(n > 2 and 0 < len(want) < n)
    label(case["kind"], case["opt"], "deferred" if case["deferred"] else "", case["unit"])
    kw = {"no": {}, "end": {"val_endpoint": False}, "interior": {"interior": True}}[case["opt"]]
    if case["kind"] != "slice":
        kw = {}
    if usec != 1:
        kw["tdunit"] = case["unit"]
    got = []
    for g in top.iter_times(sel, **kw):
        got.append(g.time)
        eq_arr(np.asarray(g["f"].data), np.full((3, 2), float(np.flatnonzero(times == g.time)[0])), "field")
    eq_arr(np.array(got), times[want], "times of {0!r} out of {1}".format(sel, times))
    eq_arr(np.array([g.time for g in top.get_times(sel, **kw)]), times[want], "get_times of {0!r}".format(sel))
    require(top.nr_times(sel, **kw) == len(want), "nr_times of {0!r}", sel)
    require(top.nr_times() == n, "all times")
    if want:
        require(top.get_time(sel, **kw).time == times[want[0]], "get_time of {0!r}", sel)
    if case["kind"] in ("one", "idx") and usec == 1:
        i = want[0]
        other = (i + 1 + case["seed"] % 7) % n
        top.activate_time(other)
        require(top.get_grid().time == times[other] and top["f"].time == times[other], "activated {0}", other)
        require(top.get_grid(time=sel).time == times[i], "grid at {0!r}", sel)
        f = top.get_field("f", time=sel)
        require(f.time == times[i] and np.all(np.asarray(f.data) == i), "field at {0!r}", sel)
        require(top.get_grid().time == times[other], "getting another grid activates it")
        top.activate_time(sel)
        require(top.get_grid().time == times[i] and np.all(np.asarray(top["f"].data) == i), "activated {0!r}", sel)
        # times in all forms
        g = top.get_grid()
        inst = np.datetime64(case["base"], "us") + np.timedelta64(int(round(times[i] * 1e6)), "us")
        if not case["nested"] and case["where"] != "ctor" or not case["deferred"]:
            require(g.time_as_datetime64() == inst and viscid.as_datetime64(g.time_as_datetime()) == inst, "{0}, expected {1}", g.time_as_datetime64(), inst)
            require(g.t2datetime64(g.time_as_timedelta64()) == inst, "sum")
        require(ds.active_child is not None, "active")
    for i in range(n):
        require(i in ds, "{0} isn't in a dataset of {1}", i, n)
    if case["kind"] == "slice" and case["opt"] == "no" and usec == 1:
        # the ends of a selection by value are the values, whatever there is
        lo, hi = top.tslc_range(sel)
        sgn = -1 if (case["step"] or 1) < 0 else 1
        for x, e, dflt in ((lo, case["start"], times[0 if sgn > 0 else -1]), (hi, case["stop"], times[-1 if sgn > 0 else 0])):
            if e is None:
                require(x == dflt, "range {0} - {1} of {2!r}", lo, hi, sel)
            elif e[0] == "i":
                require(x == times[min(e[1], n - 1)], "range {0} - {1} of {2!r}", lo, hi, sel)
            else:
                require(abs(float(x) - loc(times, e[1])) < 1e-6, "range {0} - {1} of {2!r}", lo, hi, sel)


@st.composite
def range_cases(draw):
    c = draw(cases())
    c["kind"], c["opt"], c["unit"] = "slice", "no", "s"
    for k in ("start", "stop"):
        if c[k] is not None and c[k][0] == "i" and not -c["n"] <= c[k][1] < c["n"]:
            c[k] = None
    return c


# --------------------------------------------------------- names of files
@st.composite
def glob_cases(draw):
    c = draw(cases())
    c.update(pre=draw(st.sampled_from(["run.3df.", "a_b.", "x[1]." if False else "x-1.", "f"])), post=draw(st.sampled_from([".xdmf", ".txt", "_p.dat"])),
             fmt=draw(st.sampled_from(["06d", "d", "g", "03d"])), glob=draw(st.booleans()), other=draw(st.booleans()))
    return c


_count = [0]


def check_glob(case):
    _count[0] += 1
    d = os.path.abspath("c29-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    n = case["n"]
    r = rng(case["seed"])
    times = (np.cumsum(r.randint(1, 30, n)) * 4).astype("f8")
    if case["fmt"] == "g":
        times = times * 0.25
    names = [case["pre"] + format(t if case["fmt"] == "g" else int(t), case["fmt"]) + case["post"] for t in times]
    for s in names:
        with open(os.path.join(d, s), "w"):
            pass
    if case["other"]:
        for s in (case["pre"] + "log" + case["post"], "zz" + case["post"] + "~", case["pre"] + "000010"):
            with open(os.path.join(d, s), "w"):
                pass
    c = dict(case, form="str", opt="no", how=["j" if h not in ("f", "T") else h for h in case["how"]])
    if c["step"] is not None and c["step"] < 0:
        c["step"] = -c["step"]
    sel, want = selection(c, times, 1)
    nontrivial(0 < len(want) < n)
    label(case["kind"])
    pre = case["pre"]
    if case["glob"]:
        pre = pre[0] + "*" + pre[1:] if len(pre) > 1 else "*" + pre
    pat = os.path.join(d, pre + "[" + sel + "]" + case["post"])
    got = viscid.slice_globbed_filenames(pat)
    require([os.path.basename(s) for s in got] == [names[i] for i in want], "{0} is {1}, expected {2} of {3}", sel, [os.path.basename(s) for s in got], [names[i] for i in want], names)
    require(viscid.glob2(pat) == got, "glob2")
    require(viscid.glob2(os.path.join(d, "nothing.[:].x")) == [], "glob2 of nothing")
    raises(lambda: viscid.slice_globbed_filenames(os.path.join(d, "nothing.[:].x")), "no files", IOError)
    allf = viscid.slice_globbed_filenames(os.path.join(d, case["pre"] + "*" + case["post"]))
    require(set(os.path.basename(s) for s in allf) >= set(names), "plain glob")


FACETS = [
    Facet("times", cases(), check_select, quick=2500, rule="some, but not all of three or more times"),
    Facet("names", glob_cases(), check_glob, quick=600, rule="some, but not all files"),
]
