"""C41: grids and datasets hold what was put into them, under the names it has"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Facet, eq_arr, label, nontrivial, raises, rarr, require, seeds

NAMES = ["a", "b", "vx", "rho", "x"]
KEYERR = (KeyError, IndexError)


# ------------------------------------------------------------------- grids
@st.composite
def grid_cases(draw):
    op = st.one_of(
        st.tuples(st.sampled_from(["set", "add", "del", "set", "add"]), st.sampled_from(NAMES), seeds),
        st.tuples(st.sampled_from(["clear", "iter", "one", "eqn", "slc", "crds", "copy", "time"]), st.sampled_from(NAMES), seeds),
        st.tuples(st.sampled_from(["removeall"]), st.just("a"), seeds))
    return {"n": [draw(st.integers(2, 4)) for _ in range(3)], "ops": draw(st.lists(op, min_size=1, max_size=12)), "crds": draw(st.booleans()), "time": draw(st.sampled_from([None, 3.5])),
            "center": draw(st.sampled_from(["node", "cell"])), "longterm": draw(st.booleans()), "layout": draw(st.sampled_from(["flat", "interlaced", None]))}


class AGrid(viscid.grid.Grid):
    def _get_twice(self):
        return 2 * self["a"]


def check_grid(case):
    arrs = [np.linspace(0, 1, 4), np.linspace(0, 2, 3) ** 2, np.linspace(-1, 1, 3)]
    crds = viscid.arrays2crds(arrs)
    shape = [len(a) - (case["center"] == "cell") for a in arrs]
    g = AGrid(name="g", time=case["time"])
    require(g.name == "g" and g.time == case["time"], "name {0} time {1}", g.name, g.time)
    g.longterm_field_caches = case["longterm"]
    if case["layout"]:
        g.force_vector_layout = case["layout"]
    g.set_info("run", "r7")
    if case["crds"]:
        g.set_crds(crds)
    model = {}
    gone = []

    def make(name, seed):
        if seed % 3:
            d = rarr(seed, shape)
            f = viscid.wrap_field(d.copy(), crds, name=name, center=case["center"], fldtype="scalar")
        else:
            d = rarr(seed, [3] + shape)
            f = viscid.wrap_field(np.array(np.moveaxis(d, 0, -1) if seed % 2 else d), crds, name=name, center=case["center"], fldtype="vector", layout="interlaced" if seed % 2 else "flat")
        return f, d

    def same(f, name, what):
        fld, d = model[name]
        require(f.name == fld.name and f.center == case["center"], "{0}: {1} named {2}", what, name, f.name)
        x = np.asarray(f.data)
        if d.ndim == 4:
            if case["layout"]:
                require(f.layout == case["layout"], "{0}: layout is {1}, not {2}", what, f.layout, case["layout"])
            if f.layout == "interlaced":
                x = np.moveaxis(x, -1, 0)
        eq_arr(x, d, what + ": " + name)
        require(f.find_info("run", None) == "r7", "{0}: info of {1}", what, name)

    nops = 0
    for op, name, seed in case["ops"]:
        label(op)
        if op in ("set", "add"):
            nm = name
            if op == "set" and seed % 5 == 0:
                # it may be called differently
                f, d = make("other", seed)
                g[nm] = f
            else:
                f, d = make(nm, seed)
                if op == "add":
                    g.add_field(f)
                else:
                    g[nm] = f
            if nm in model:
                gone.append(model.pop(nm)[0])
            model[nm] = (f, d)
            require(g in f.parents, "the grid is no parent of {0}", nm)
            nops += 1
        elif op == "del":
            if name in model:
                del g[name]
                gone.append(model.pop(name)[0])
            else:
                def rm():
                    del g[name]
                raises(rm, "deleting {0}, which is not there".format(name), KEYERR)
        elif op == "removeall":
            g.remove_all_items()
            gone += [m[0] for m in model.values()]
            model.clear()
        elif op == "clear":
            g.clear_cache()
        elif op == "iter":
            names = sorted(model)
            sub = [n for i, n in enumerate(names) if (seed >> i) & 1]
            got = list(g.iter_field_items(fld_names=sub))
            require([n for n, _ in got] == sub, "items {0} of {1}", got, sub)
            for n, f in got:
                same(f, n, "iter_field_items")
            for n, f in zip(sub, g.iter_fields(fld_names=sub)):
                same(f, n, "iter_fields")
            dct = g.field_dict()
            require(sorted(dct) == names, "field_dict has {0}, expected {1}", list(dct), names)
            for n in names:
                same(dct[n], n, "field_dict")
        elif op == "one":
            if name in model:
                same(g[name], name, "g[name]")
                same(g.get_field(name, time=3), name, "get_field")
                same(g.get_grid().get_field(name, force_longterm_caches=True), name, "get_field")
            elif name != "x":
                raises(lambda: g[name], "g[{0!r}], which is not there".format(name), KEYERR)
                raises(lambda: g.get_field(name), "get_field({0!r}), which is not there".format(name), KEYERR)
        elif op == "eqn" and "a" in model:
            d = model["a"][1]
            got = g["twice"]
            x = np.asarray(got.data)
            if d.ndim == 4 and got.layout == "interlaced":
                x = np.moveaxis(x, -1, 0)
            eq_arr(x, 2 * d, "a field made by a method of the grid")
        elif op == "slc" and name in model:
            i = seed % shape[2]
            got = g.get_field(name, slc="z={0}".format(i))
            full = g.get_field(name)
            want = full.slice_and_keep("z={0}".format(i))
            eq_arr(got.data, want.data, "get_field with a slice")
            eq_arr(np.asarray(got.data).ravel(), np.asarray(full["z={0}".format(i)].data).ravel(), "get_field with a slice")
            require(got.crds.shape_nc[2] <= 2, "the slice has {0} nodes", got.crds.shape_nc)
        elif op == "crds" and (model or case["crds"]):
            for i, ax in enumerate("xyz"):
                eq_arr(g.get_crd_nc(ax), arrs[i], "get_crd_nc of " + ax)
                eq_arr(g.get_crd_cc(i), 0.5 * (arrs[i][1:] + arrs[i][:-1]), "get_crd_cc of " + ax)
                eq_arr(g.get_crds_nc()[i], arrs[i], "get_crds_nc")
                eq_arr(g.get_crds_cc(shaped=True)[i].ravel(), 0.5 * (arrs[i][1:] + arrs[i][:-1]), "get_crds_cc")
                eq_arr(g.crds.get_crd(ax), arrs[i], "crds of " + ax)
                if ax not in model:
                    eq_arr(g[ax], arrs[i], "crd as item")
            eq_arr(g.xl_nc, [a[0] for a in arrs], "xl_nc")
            eq_arr(g.xh_nc, [a[-1] for a in arrs], "xh_nc")
            eq_arr(g.xl_cc, [0.5 * (a[0] + a[1]) for a in arrs], "xl_cc")
            eq_arr(g.xh_cc, [0.5 * (a[-1] + a[-2]) for a in arrs], "xh_cc")
        elif op == "time":
            require(g.nr_times() == 1 and list(g.iter_times()) == [g] and g.get_times() == [g] and g.get_time() is g, "times of a grid")
            t = float(seed % 10)
            g.time = t
            for n in model:
                if not model[n][0].has_info("time"):
                    require(g[n].time == t, "time of {0} is {1}, not {2}", n, g[n].time, t)
        # always
        require(len(g) == len(model), "{0} fields, expected {1}", len(g), sorted(model))
        require(sorted(g.field_names) == sorted(model), "names {0}, expected {1}", g.field_names, sorted(model))
        for n in NAMES:
            require((n in g) == (n in model), "{0!r} in grid is {1}", n, n in g)
        for f in gone:
            require(g not in f.parents or any(f is m[0] for m in model.values()), "a field that is not there is a child of the grid")
    for n in model:
        same(g[n], n, "at the end")
    nontrivial(nops > 2)


# ---------------------------------------------------------------- datasets
DNAMES = ["a", "b", "c", "d"]


@st.composite
def ds_cases(draw):
    op = st.tuples(st.sampled_from(["add", "add", "add", "addq", "deferred", "setitem", "activate", "del", "removeall", "in", "get", "iter", "times"]), st.sampled_from(DNAMES), st.integers(0, 1000))
    return {"temporal": draw(st.booleans()), "ops": draw(st.lists(op, min_size=1, max_size=14)), "nest": draw(st.booleans())}


def mk_grid(name, val, time=None):
    g = viscid.grid.Grid(name=name, time=time)
    crds = viscid.arrays2crds([np.linspace(0, 1, 3)] * 2)
    g.add_field(viscid.wrap_field(np.full((2, 2), float(val)), crds, name="q", center="cell"))
    g.add_field(viscid.wrap_field(np.full((2, 2), -float(val)), crds, name="only{0}".format(val), center="cell"))
    return g


def check_ds(case):
    temporal = case["temporal"]
    ds = viscid.dataset.DatasetTemporal(name="ds") if temporal else viscid.dataset.Dataset(name="ds")
    top = ds
    if case["nest"]:
        top = viscid.dataset.Dataset(ds, name="top")
    calls = []
    model = []          # [key, value]
    active = None
    gone = []
    nadd = 0

    def find(key):
        return next((m for m in model if m[0] == key), None)

    def deferred(name, val, time=None):
        calls.append(val)
        return mk_grid(name, val, time)

    def val_of(g):
        v = np.unique(g.get_field("q").data)
        require(v.shape == (1, ), "values {0}", v)
        return int(v[0])

    for op, name, k in case["ops"]:
        label(op)
        # no two children have the same time
        key = float(k) if temporal else name
        if op in ("add", "addq", "deferred", "setitem"):
            if temporal and (find(key) or op == "setitem"):
                continue
            val = k + 1000 * len(calls) + 100000 * nadd
            nadd += 1
            old = find(key)
            if old:
                # the name goes to the last one
                old[0] = None
            g = None
            if op == "deferred":
                ncalls = len(calls)
                if temporal:
                    ds.add_deferred(key, deferred, callback_args=(name, val), callback_kwargs={"time": key})
                else:
                    ds.add_deferred(key, deferred, callback_args=(name, val))
                require(len(calls) == ncalls, "a deferred child was made when it was added")
            else:
                g = mk_grid(name, val, time=key if temporal else None)
                if op == "addq":
                    ds.add(g, set_active=False)
                elif op == "setitem":
                    g.name = "something else"
                    ds[name] = g
                    require(g.name == name, "the name is {0}, not {1}", g.name, name)
                else:
                    ds.add(g)
                require(ds in g.parents, "the dataset is no parent of its child")
            entry = [key, val, g]
            model.append(entry)
            if temporal:
                model.sort(key=lambda m: m[0])
            if op != "addq":
                active = entry
        elif op == "activate":
            if find(key):
                (top if k % 2 and temporal else ds).__getattribute__("activate_time" if temporal and k % 2 else "activate")("{0}f".format(key) if temporal else key)
                active = find(key)
            elif not temporal:
                raises(lambda: ds.activate(key), "activating {0}, which is not there".format(key), KEYERR)
        elif op == "del":
            item = "{0}f".format(key) if temporal else key
            if find(key):
                del ds[item]
                if active is find(key):
                    active = None
                gone.append(find(key)[2])
                model.remove(find(key))
            elif not temporal:
                def rm():
                    del ds[item]
                raises(rm, "deleting {0}, which is not there".format(key), KEYERR)
        elif op == "removeall":
            ds.remove_all_items()
            gone += [m[2] for m in model]
            model = []
            active = None
        elif op == "in":
            for m in model:
                require(m[0] is None or ("{0}f".format(m[0]) if temporal else m[0]) in ds, "{0} is not in the dataset", m[0])
            require("none" not in ds, "what is not there is in the dataset")
            if active is not None:
                require("q" in ds and "q" in top, "a field of the active grid is not in the dataset")
                for m in model:
                    require(("only{0}".format(m[1]) in ds) == (m is active), "a field of {0} in the dataset", m[0])
            if not temporal:
                for n in DNAMES:
                    require((n in ds) == bool(find(n)), "{0} in dataset is {1}", n, n in ds)
        elif op == "get":
            for i, m in enumerate(model):
                if m[0] is None:
                    continue
                item = "{0}f".format(m[0]) if temporal else m[0]
                require(val_of(ds.get_child(item)) == m[1] and (temporal or val_of(ds[item]) == m[1]), "child {0} is {1}, expected {2}", item, val_of(ds.get_child(item)), m[1])
                if temporal:
                    require(val_of(ds.get_child(i)) == m[1], "child number {0}", i)
                    require(np.all(np.asarray(top.get_field("q", time=i).data) == m[1]), "q at time {0}", i)
                    require(ds.get_grid(time=i).time == m[0], "grid at time {0}", i)
                if m[2] is not None:
                    require(ds.get_child(item) is m[2], "child {0} is another one", item)
            if not temporal and not find(name) and active is not None:
                raises(lambda: ds[name], "ds[{0!r}], which is not there".format(name), KEYERR)
        elif op == "iter":
            got = [val_of(c) for c in ds]
            require(got == [m[1] for m in model], "children {0}, expected {1}", got, model)
        elif op == "times" and temporal:
            require(top.nr_times() == len(model), "{0} times, expected {1}", top.nr_times(), len(model))
            require([g.time for g in top.iter_times()] == [m[0] for m in model], "times {0}", model)
        # always
        require(len(ds) == len(model), "{0} children, expected {1}", len(ds), model)
        if active is not None:
            require(val_of(top.get_grid()) == active[1], "the active grid is {0}, expected {1}", val_of(top.get_grid()), active)
            require(np.all(np.asarray(top["q"].data) == active[1]), "ds['q'] is not of the active grid")
            require(np.all(np.asarray(top.get_field("q").data) == active[1]), "get_field('q') is not of the active grid")
            want = {"q": active[1], "only{0}".format(active[1]): -active[1]}
            for got in (top.field_dict(), dict(top.iter_field_items()), dict((f.name, f) for f in top.iter_fields())):
                require(sorted(got) == sorted(want), "fields {0}, expected {1}", sorted(got), want)
                for n in got:
                    require(np.all(np.asarray(got[n].data) == want[n]), "{0} of the active grid", n)
        for g in gone:
            require(g is None or ds not in g.parents, "what is not there is a child of the dataset")
    nontrivial(nadd > 2)


FACETS = [
    Facet("grids", grid_cases(), check_grid, quick=500, thorough=10000, rule="more than two fields were put in"),
    Facet("datasets", ds_cases(), check_ds, quick=500, thorough=10000, rule="more than two children were put in"),
]
