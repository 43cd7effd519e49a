"""C30: names, handles, formulas and parents lead to what was put there, also after a history of changes"""
import gc
import os
import shutil
import weakref

import h5py
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import field as vfield
from viscid import tree
from viscid.bucket import Bucket
from viscid.calculator import evaluator
from viscid.dataset import Dataset, DatasetTemporal
from viscid.grid import Grid
from viscid.readers.vfile import DataWrapper
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, require, rng, seeds


# ---------------------------------------------------------------- buckets
HANDLES = ["a", "b", "c", "d", 0, 1, 2, ("t", 1), None]


class Item(object):
    def __init__(self, i):
        self.i = i


class Unhashable(Item):
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Unhashable)


@st.composite
def bucket_cases(draw):
    few = draw(st.booleans())
    h = st.integers(0, 1 if few else len(HANDLES) - 1)
    it = st.integers(0, 1 if few else 5)
    op = st.one_of(
        st.tuples(st.just("set"), st.lists(h, max_size=3), it, st.booleans(), st.booleans()),
        st.tuples(st.just("set"), st.lists(h, max_size=3), it, st.booleans(), st.booleans()),
        st.tuples(st.just("item"), h, it), st.tuples(st.just("del"), h), st.tuples(st.just("delitem"), it),
        st.tuples(st.just("rm"), it), st.tuples(st.just("rmh"), h), st.tuples(st.just("unref"), it, st.integers(1, 2)),
        st.tuples(st.just("unrefh"), h, st.integers(1, 2)), st.tuples(st.just("clear")))
    return {"ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=20))], "ordered": draw(st.booleans()),
            "unhash": draw(st.lists(it, max_size=3, unique=True)) if not few or draw(st.booleans()) else []}


class Model(object):
    """items in order of insertion: [item, handles, number of references]"""
    def __init__(self):
        self.ents = []
        self.n = 0

    def of_item(self, i):
        return next((e for e in self.ents if e[0] == i), None)

    def of_handle(self, h):
        return next((e for e in self.ents if any(x == h for x in e[1])), None)

    def set(self, hs, i, index, ref):
        e = self.of_item(i)
        hs = list(hs)
        if e is None and index:
            hs.append(self.n)
            self.n += 1
        new = [] if e is None else e[1]
        for h in hs:
            if any(x == h for x in new):
                continue
            o = self.of_handle(h)
            if o is not None:
                o[1] = [x for x in o[1] if x != h]
                if not o[1]:
                    self.ents.remove(o)
            new.append(h)
        if e is None:
            if new:
                self.ents.append([i, new, 1])
        elif ref:
            e[2] += 1


def check_bucket(case):
    items = [Unhashable(i) if i in case["unhash"] else Item(i) for i in range(6)]
    b = Bucket(ordered=case["ordered"])
    m = Model()
    hij = 0
    for op in case["ops"]:
        k = op[0]
        if k == "set":
            hs = [HANDLES[h] for h in op[1] if HANDLES[h] is not None]
            hij += any(m.of_handle(h) is not None and m.of_handle(h)[0] != op[2] for h in hs)
            give = list(hs)
            if len(op[1]) > 2:
                # what can't be a handle is left out
                give.insert(op[2] % 3, ["no", "handle"])
            keep = list(give)
            b.set_item(give, items[op[2]], index_handle=op[3], _add_ref=op[4])
            require(give == keep, "set_item changed the list of handles {0} to {1}", keep, give)
            m.set(hs, op[2], op[3], op[4])
        elif k == "item":
            h = HANDLES[op[1]]
            b[h] = items[op[2]]
            # tuples and lists are many handles
            m.set([] if h is None else list(h) if isinstance(h, tuple) else [h], op[2], True, False)
        elif k in ("del", "rmh", "unrefh"):
            h = HANDLES[op[1]]
            e = m.of_handle(h)
            f = {"del": lambda: b.__delitem__(h), "rmh": lambda: b.remove_item_by_handle(h), "unrefh": lambda: b.remove_reference(h, _ref_count=op[-1])}[k]
            if e is None:
                raises(f, "{0} of {1!r}, which isn't there".format(k, h), KeyError)
            else:
                f()
                if k == "unrefh":
                    e[2] -= op[2]
                if k != "unrefh" or e[2] <= 0:
                    m.ents.remove(e)
        elif k in ("delitem", "rm", "unref"):
            it = items[op[1]]
            e = m.of_item(op[1])
            f = {"delitem": lambda: b.__delitem__(it), "rm": lambda: b.remove_item(it), "unref": lambda: b.remove_reference(it, _ref_count=op[-1])}[k]
            if e is None:
                raises(f, "{0} of an item that isn't there".format(k), (KeyError, TypeError))
            else:
                f()
                if k == "unref":
                    e[2] -= op[2]
                if k != "unref" or e[2] <= 0:
                    m.ents.remove(e)
        else:
            b.remove_all_items()
            m.ents = []
        # everything that can be seen
        require(len(b) == len(m.ents), "{0} items after {1}, expected {2}", len(b), op, len(m.ents))
        for h in HANDLES + ["t"]:
            e = m.of_handle(h)
            require(b.contains_handle(h) == (e is not None), "contains_handle({0!r}) after {1}", h, op)
            if e is not None:
                require(b[h] is items[e[0]], "handle {0!r} leads to item {1} after {2}, expected {3}", h, b[h].i, op, e[0])
                require(h in b, "{0!r} not in the bucket after {1}", h, op)
            else:
                raises(lambda: b[h], "handle {0!r} after {1}".format(h, op), KeyError)
        for i, it in enumerate(items):
            require(b.contains_item(it) == (m.of_item(i) is not None), "contains_item({0}) after {1}", i, op)
            require((it in b) == (m.of_item(i) is not None), "item {0} in the bucket after {1}", i, op)
        got = [x.i for x in b.values()]
        require(got == [e[0] for e in m.ents], "values {0} after {1}, expected {2}", got, op, [e[0] for e in m.ents])
        require([x.i for x in b] == got and [x.i for x in b.items_as_list()] == got, "iteration differs from values after {0}", op)
        for (hs, it), e, ks in zip(list(b.items()), m.ents, list(b.keys())):
            require(it.i == e[0] and list(hs) == e[1] and list(ks) == e[1], "handles {0} of item {1} after {2}, expected {3}", hs, it.i, op, e)
        require(b.get_primary_handles() == [e[1][0] for e in m.ents], "primary handles {0} after {1}, expected {2}", b.get_primary_handles(), op, m.ents)
    nontrivial(hij > 0)


# ------------------------------------------------------------------- trees
@st.composite
def tree_cases(draw):
    n = draw(st.integers(2, 8))
    return {"n": n, "parents": [draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)) for _ in range(n)],
            "cyc": draw(st.booleans()),
            "info": [draw(st.dictionaries(st.sampled_from(["a", "b", "c", "basetime"]), st.integers(0, 99), max_size=3)) for _ in range(n)],
            "times": [draw(st.one_of(st.none(), st.integers(0, 50))) for _ in range(n)],
            "attrs": [draw(st.sampled_from([None, None, "no", 1, 2])) for _ in range(n)],
            "ops": [list(o) for o in draw(st.lists(st.one_of(
                st.tuples(st.just("update"), st.integers(0, n - 1), st.sampled_from("abc"), st.integers(100, 199)),
                st.tuples(st.just("set"), st.integers(0, n - 1), st.sampled_from("abc"), st.integers(100, 199)),
                st.tuples(st.just("adopt"), st.integers(0, n - 1), st.integers(0, n - 1)),
                st.tuples(st.just("orphan"), st.integers(0, n - 1), st.integers(0, n - 1))), max_size=6))]}


def levels(i, par):
    """nodes by distance, the ones of the same distance in order"""
    seen, out, this = {i}, [[i]], [i]
    while this:
        nxt = []
        for j in this:
            for p in par[j]:
                if p not in seen:
                    seen.add(p)
                    nxt.append(p)
        if nxt:
            out.append(nxt)
        this = nxt
    return out


def check_tree(case):
    n = case["n"]
    base = "2001-02-03T00:00:00"
    par = [[p for p in ps if p != i and (case["cyc"] or p > i)] for i, ps in enumerate(case["parents"])]
    info = [dict(d) for d in case["info"]]
    for d in info:
        if "basetime" in d:
            d["basetime"] = str(np.datetime64(base) + np.timedelta64(d["basetime"], "D"))
    nodes = []
    for i in range(n):
        nd = tree.Node("n{0}".format(i), info=dict(info[i]))
        if case["times"][i] is not None:
            nd.time = case["times"][i]
            info[i]["time"] = float(case["times"][i])
        if case["attrs"][i] is not None:
            nd.quirk = NotImplemented if case["attrs"][i] == "no" else case["attrs"][i]
        nodes.append(nd)
    for i in range(n):
        for p in par[i]:
            nodes[p].prepare_child(nodes[i])

    def owner(i, key):
        for lev in levels(i, par):
            have = [j for j in lev if key in info[j]]
            if have:
                return have
        return []

    def look():
        for i, nd in enumerate(nodes):
            for key in ("a", "b", "c", "time", "basetime", "none"):
                own = owner(i, key)
                if not own:
                    raises(lambda: nd.find_info(key), "info {0} of {1}".format(key, i), KeyError)
                    require(nd.find_info(key, default="dflt") == "dflt", "default of info {0} of {1}", key, i)
                    raises(lambda: nd.find_info_owner(key), "owner of {0} of {1}".format(key, i), KeyError)
                    continue
                want = [info[j][key] for j in own]
                got = nd.find_info(key, default="dflt")
                require(got == want[0], "info {0} of node {1} is {2}, expected {3}", key, i, got, want)
                require(nd.find_info_owner(key) is nodes[own[0]], "owner of {0} for node {1}", key, i)
                require(nd.get_all_info().get(key) == want[0], "all info has {0} = {1} for node {2}, expected {3}", key, nd.get_all_info().get(key), i, want)
            require(set(nd.get_all_info()) == {k for lev in levels(i, par) for j in lev for k in info[j]}, "keys of all info of node {0}", i)
            own = owner(i, "time")
            require(nd.time == (info[own[0]]["time"] if own else None), "time of node {0} is {1}", i, nd.time)
            own = owner(i, "basetime")
            if own:
                require(nd.basetime == np.datetime64(info[own[0]]["basetime"]), "basetime of node {0} is {1}", i, nd.basetime)
            else:
                raises(lambda: nd.basetime, "basetime of node {0}".format(i), viscid.NoBasetimeError)
            require(nd.has_info("a") == ("a" in info[i]), "has_info of node {0}", i)
            # attributes
            want = next((j for lev in levels(i, par) for j in lev if case["attrs"][j] not in (None, "no")), None)
            if want is None:
                raises(lambda: nd.find_attr("quirk"), "attribute of node {0}".format(i), AttributeError)
                require(nd.find_attr("quirk", default=5) == 5, "default of an attribute of node {0}", i)
            else:
                require(nd.find_attr("quirk") == case["attrs"][want], "attribute of node {0} is {1}, expected {2}", i, nd.find_attr("quirk"), case["attrs"][want])

    look()
    nontrivial(any(len(levels(i, par)) > 2 for i in range(n)))
    for op in case["ops"]:
        if op[0] == "update":
            own = owner(op[1], op[2])
            if not own:
                raises(lambda: nodes[op[1]].update_info(op[2], op[3], fallback=False), "update without fallback", KeyError)
            nodes[op[1]].update_info(op[2], op[3])
            info[own[0] if own else op[1]][op[2]] = op[3]
        elif op[0] == "set":
            nodes[op[1]].set_info(op[2], op[3])
            info[op[1]][op[2]] = op[3]
        elif op[0] == "adopt":
            if op[1] == op[2]:
                continue
            nodes[op[1]].prepare_child(nodes[op[2]])
            if op[1] not in par[op[2]]:
                par[op[2]].append(op[1])
        else:
            nodes[op[1]].tear_down_child(nodes[op[2]])
            if op[1] in par[op[2]]:
                par[op[2]].remove(op[1])
        look()


# -------------------------------------------------------- grids, datasets
class Lazy(DataWrapper):
    _hypersliceable = False

    def __init__(self, arr):
        self.arr = arr
        self.reads = 0

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.arr.dtype

    def __array__(self, *args, **kwargs):
        self.reads += 1
        return np.array(self.arr)

    def read_direct(self, arr, **kwargs):
        self.reads += 1
        arr[...] = self.arr

    def len(self):
        return len(self.arr)

    __len__ = len

    def __getitem__(self, item):
        self.reads += 1
        return self.arr[item]


class MyGrid(Grid):
    def _get_twice_a(self):
        return 2.0 * self["a"]

    def _process_neg(self, fld):
        return -1.0 * fld


NAMES = ["a", "b", "c", "neg", "x", "v1"]


@st.composite
def grid_cases(draw):
    nm = st.sampled_from(NAMES)
    op = st.one_of(
        st.tuples(st.just("add"), nm, seeds, st.sampled_from(["eager", "lazy", "lazy", "vec", "lazyvec"])),
        st.tuples(st.just("add"), nm, seeds, st.sampled_from(["eager", "lazy", "lazy", "vec", "lazyvec"])),
        st.tuples(st.just("del"), nm), st.tuples(st.just("get"), nm), st.tuples(st.just("get"), nm), st.tuples(st.just("hold"), nm),
        st.tuples(st.just("clear")), st.tuples(st.just("with")), st.tuples(st.just("iter")), st.tuples(st.just("drop")))
    return {"shape": [draw(st.integers(4, 6)) for _ in range(3)], "center": draw(st.sampled_from(["cell", "node"])),
            "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=14))], "long": draw(st.booleans()),
            "layout": draw(st.sampled_from(["default", "flat", "interlaced"])), "slc": draw(st.sampled_from([None, "x=1:3", "y=2", ":,:,1:"]))}


def check_grid(case):
    crds = viscid.arrays2crds([np.linspace(i, i + 2.0, n + (case["center"] == "cell")) for i, n in enumerate(case["shape"])])
    g = MyGrid(name="g", info={"gamma": 5})
    g.force_vector_layout = {"default": vfield.LAYOUT_DEFAULT, "flat": vfield.LAYOUT_FLAT, "interlaced": vfield.LAYOUT_INTERLACED}[case["layout"]]
    g.longterm_field_caches = case["long"]
    g.set_crds(crds)
    top = Dataset(g, name="top", info={"run": "r1"})
    model, held, ghosts = {}, [], []

    def value(nm):
        sgn = -1.0 if nm == "neg" else 1.0
        return sgn * model[nm][0]

    def verify(f, nm, what):
        dat = np.array(f)
        if model[nm][1]:
            dat = np.moveaxis(np.asarray(f.data), f.nr_comp, -1)
        eq_arr(dat, value(nm), "{0} {1}".format(what, nm))
        require(f.find_info("gamma") == 5 and f.find_info("run", default=None) == "r1", "info of {0}, {1}", nm, what)
        require(f.center.lower() == case["center"], "center of {0}", nm)
        for ax in "xyz":
            eq_arr(f.get_crd_nc(ax), crds.get_nc(ax), "crds of {0}".format(nm))
        if model[nm][1] and case["layout"] != "default":
            require(f.layout == (vfield.LAYOUT_FLAT if case["layout"] == "flat" else vfield.LAYOUT_INTERLACED), "layout of {0} is {1}", nm, f.layout)

    for op in case["ops"]:
        if op[0] == "add":
            nm = op[1]
            vec = op[3] in ("vec", "lazyvec")
            lazy = op[3].startswith("lazy")
            arr = rng(op[2]).uniform(-1, 1, size=case["shape"] + ([3] if vec else []))
            src = Lazy(arr) if lazy else arr.copy()
            fld = vfield.wrap_field(src, crds, name=nm, fldtype="vector" if vec else "scalar", center=case["center"], layout=vfield.LAYOUT_INTERLACED) if vec else \
                vfield.wrap_field(src, crds, name=nm, center=case["center"])
            g.add_field(fld)
            # one that loses its name may stay as a number
            ghosts += [nm] * (nm in model)
            model.pop(nm, None)
            model[nm] = (arr, vec, lazy)
        elif op[0] == "del":
            if op[1] in model:
                del g[op[1]]
                del model[op[1]]
            else:
                raises(lambda: g.__delitem__(op[1]), "deleting {0}".format(op[1]), KeyError)
        elif op[0] in ("get", "hold"):
            nm = op[1]
            if nm in model:
                f = g[nm]
                verify(f, nm, "get")
                require(f.name == nm or nm == "neg", "name of {0} is {1}", nm, f.name)
                if op[0] == "hold":
                    held.append((f, nm, value(nm), model[nm][1]))
                elif model[nm][2] and nm != "neg":
                    w = weakref.ref(f.data)
                    same = any(h[0] is f or h[0].data is f.data for h in held)
                    del f
                    gc.collect()
                    if not same:
                        require((w() is not None) == case["long"], "data of {0} {1} after the field is gone", nm, "isn't kept" if case["long"] else "is kept")
                f2 = g.get_field(nm, slc=case["slc"] if case["slc"] else Ellipsis)
                if case["slc"]:
                    want = g[nm].slice_and_keep(case["slc"])
                    eq_arr(np.array(f2), np.array(want), "{0} sliced on the way".format(nm))
                else:
                    verify(f2, nm, "get_field")
            elif nm == "x":
                if model:
                    eq_arr(g["x"], crds["x"], "coordinate by name")
            else:
                raises(lambda: g[nm], "field {0} that isn't there".format(nm), KeyError)
        elif op[0] == "clear":
            g.clear_cache()
        elif op[0] == "with":
            with g as gg:
                for nm in model:
                    verify(gg[nm], nm, "with")
        elif op[0] == "iter" and not ghosts:
            names = []
            for nm, f in g.iter_field_items():
                names.append(nm)
                dat = np.array(f) if not model[nm][1] else np.moveaxis(np.array(f.data), f.nr_comp, -1)
                eq_arr(dat, model[nm][0], "iterated {0}".format(nm))
            require(names == list(model), "iterated names {0}, expected {1}", names, list(model))
            require([f.name for f in g.iter_fields()] == list(model), "iter_fields")
            require(list(g.field_dict()) == list(model), "field_dict")
        elif op[0] == "drop":
            del held[:]
        require(ghosts or list(g.field_names) == list(model), "names {0} after {1}, expected {2}", g.field_names, op, list(model))
        require(ghosts or len(g) == len(model), "{0} fields after {1}", len(g), op)
        for nm in NAMES:
            require((nm in g) == (nm in model), "{0} in the grid after {1}", nm, op)
        if "a" in model:
            t = g["twice_a"]
            d = np.array(t) if not model["a"][1] else np.moveaxis(np.asarray(t.data), t.nr_comp, -1)
            close(d, 2.0 * model["a"][0], "calculated field after {0}".format(op))
        for f, nm, want, vec in held:
            d = np.array(f) if not vec else np.moveaxis(np.asarray(f.data), f.nr_comp, -1)
            eq_arr(d, want, "held {0} after {1}".format(nm, op))
    nontrivial(len(model) >= 2 and any(o[0] in ("clear", "with", "del") for o in case["ops"]))


# ---------------------------------------------------------------- datasets
@st.composite
def dset_cases(draw):
    kids = [[draw(st.sampled_from(["grid", "grid", "temporal", "deferred", "dataset"])), draw(st.integers(1, 3))] for _ in range(draw(st.integers(1, 4)))]
    op = st.one_of(st.tuples(st.just("activate"), st.integers(0, 3)), st.tuples(st.just("time"), st.integers(0, 25)),
                   st.tuples(st.just("sub"), st.integers(0, 3), st.integers(0, 3)))
    return {"kids": kids, "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=6))], "order": draw(seeds),
            "set_active": [draw(st.booleans()) for _ in kids]}


def check_dset(case):
    crds = viscid.arrays2crds([np.linspace(0, 1, 4)] * 2, crd_names="xy")
    count = [0]

    def mk(time=None, name=None):
        count[0] += 1
        tag = float(count[0])
        g = Grid(name=name or "g{0}".format(count[0]), time=time)
        g.add_field(viscid.wrap_field(np.full((4, 4), tag) + np.arange(4.0), crds, name="f", center="node"))
        g.add_field(viscid.wrap_field(np.full((4, 4), -tag) + np.arange(4.0), crds, name="u{0}".format(count[0]), center="node"))
        return g, tag

    top = Dataset(name="top")
    tops = []
    active = None
    for j, ((kind, n), act) in enumerate(zip(case["kids"], case["set_active"])):
        name = "k{0}".format(j)
        if kind == "grid":
            g, tag = mk(name=name)
            top.add(g, set_active=act)
            ent = {"kind": "grid", "tag": tag}
        elif kind == "dataset":
            d = Dataset(name=name)
            tags = []
            for k in range(n):
                g, tag = mk(name="s{0}".format(k))
                d.add(g)
                tags.append(tag)
            top.add(d, set_active=act)
            ent = {"kind": "dataset", "tags": tags, "active": n - 1}
        else:
            d = DatasetTemporal(name=name)
            times = [10.0 * (k + 1) for k in range(n)]
            tags = {}
            last = None
            for k in rng(case["order"] + j).permutation(n):
                g, tag = mk(time=times[k], name="t{0}".format(k))
                if kind == "deferred":
                    d.add_deferred(times[k], lambda g=g: g)
                else:
                    d.add(g)
                tags[k] = tag
                last = k
            top.add(d, set_active=act)
            ent = {"kind": "temporal", "tags": [tags[k] for k in range(n)], "active": last, "times": times}
        tops.append(ent)
        if act:
            active = j

    def tag_of(j):
        e = tops[j]
        return e["tag"] if e["kind"] == "grid" else e["tags"][e["active"]]

    def verify(what):
        if active is None:
            return
        tag = tag_of(active)
        want = np.full((4, 4), tag) + np.arange(4.0)
        eq_arr(np.array(top["f"]), want, "dataset[name] " + what)
        eq_arr(np.array(top.get_field("f")), want, "get_field " + what)
        eq_arr(np.array(top.get_grid()["f"]), want, "get_grid " + what)
        un = "u{0}".format(int(tag))
        require(un in top and "f" in top, "{0} isn't in the dataset {1}", un, what)
        require("nope" not in top, "nope is in the dataset")
        require(list(top.field_dict()) == ["f", un], "field_dict {0} {1}", list(top.field_dict()), what)
        require([n for n, _ in top.iter_field_items()] == ["f", un], "iter_field_items {0}", what)
        require([f.name for f in top.iter_fields()] == ["f", un], "iter_fields {0}", what)
        for j, e in enumerate(tops):
            ch = top["k{0}".format(j)]
            require(ch is top.get_child("k{0}".format(j)) and ch.name == "k{0}".format(j), "child {0}", j)
            eq_arr(np.array(ch["f"]), np.full((4, 4), tag_of(j)) + np.arange(4.0), "field of child {0} {1}".format(j, what))
            require(top in ch.parents, "parents of child {0}", j)
        if tops[active]["kind"] == "temporal":
            e = tops[active]
            for k, t in enumerate(e["times"]):
                for sel in (t * 1j, k):
                    w = np.full((4, 4), e["tags"][k]) + np.arange(4.0)
                    eq_arr(np.array(top.get_field("f", time=sel)), w, "get_field at time {0} {1}".format(sel, what))
                    eq_arr(np.array(top.get_grid(time=sel)["f"]), w, "get_grid at time {0} {1}".format(sel, what))
                    eq_arr(np.array(list(top.iter_fields(time=sel))[0]), w, "iter_fields at time {0} {1}".format(sel, what))
                    eq_arr(np.array(top.field_dict(time=sel)["f"]), w, "field_dict at time {0} {1}".format(sel, what))
                    require(top.get_grid(time=sel).time == t, "time of the grid at {0}", sel)
        tk = [e for e in tops if e["kind"] in ("temporal", "grid")]

    verify("at first")
    require(len(top) == len(tops), "number of children")
    require([c.name for c in top] == ["k{0}".format(j) for j in range(len(tops))], "children in order")
    for op in case["ops"]:
        if op[0] == "activate":
            j = op[1] % len(tops)
            top.activate("k{0}".format(j))
            active = j
        elif op[0] == "sub":
            j = op[1] % len(tops)
            e = tops[j]
            if e["kind"] == "dataset":
                k = op[2] % len(e["tags"])
                top["k{0}".format(j)].activate("s{0}".format(k))
                e["active"] = k
            elif e["kind"] == "temporal":
                k = op[2] % len(e["tags"])
                top["k{0}".format(j)].activate(k)
                e["active"] = k
        else:
            t = float(op[1])
            for e in tops:
                if e["kind"] == "temporal":
                    d = np.abs(np.array(e["times"]) - t)
                    if (np.sort(d)[:2] == d.min()).sum() > 1:
                        raise Discard()
            top.activate_time(t * 1j)
            for e in tops:
                if e["kind"] == "temporal":
                    e["active"] = int(np.argmin(np.abs(np.array(e["times"]) - t)))
        verify("after {0}".format(op))
    nontrivial(len(tops) > 1 and any(e["kind"] == "temporal" and len(e["tags"]) > 1 for e in tops))


# ---------------------------------------------------------------- formulas
UN = ["sqrt", "abs", "exp", "sin", "cos", "arctan", "log1p", "tanh"]
BIN2 = ["arctan2", "maximum", "minimum", "hypot"]


@st.composite
def expr(draw, depth=3):
    k = draw(st.sampled_from(["var", "num", "bin", "bin", "bin", "neg", "un", "fn2", "pow", "par"] if depth else ["var", "var", "num"]))
    if k == "var":
        return ["v", draw(st.sampled_from(["rho", "p", "e1", "i2", "_u", "V2x"]))]
    if k == "num":
        return ["n", draw(st.sampled_from(["2", "0.5", "3.", "1e1", "2.5e-1", "1.e1", ".5", "10", "4.e-1", "1E0"]))]
    if k == "bin":
        return ["b", draw(st.sampled_from("+-*/")), draw(expr(depth=depth - 1)), draw(expr(depth=depth - 1))]
    if k == "neg":
        return ["m", draw(expr(depth=depth - 1))]
    if k == "un":
        return ["f", draw(st.sampled_from(UN)), draw(expr(depth=depth - 1))]
    if k == "fn2":
        return ["g", draw(st.sampled_from(BIN2)), draw(expr(depth=depth - 1)), draw(expr(depth=depth - 1))]
    if k == "pow":
        return ["b", "**", ["p", draw(expr(depth=depth - 1))], ["n", draw(st.sampled_from(["2", "3", "2.", "1.5"]))]]
    return ["p", draw(expr(depth=depth - 1))]


@st.composite
def formula_cases(draw):
    return {"e": draw(expr()), "sp": draw(st.sampled_from(["", " ", "  "])), "seed": draw(seeds), "center": draw(st.sampled_from(["cell", "node"])),
            "shape": [draw(st.integers(4, 6)) for _ in range(draw(st.integers(1, 3)))], "slc": draw(st.sampled_from([None, None, "x=1:3", "x=::2"])),
            "how": draw(st.sampled_from(["getitem", "numpy", "numexpr", "dset"])), "vec": draw(st.sampled_from([None, None, None, "magnitude", "sum", "div", "dot"])),
            "lazy": draw(st.booleans())}


def text(e, sp):
    k = e[0]
    if k in "vn":
        return e[1]
    if k == "b":
        # so that the formula means what the tree says
        return "({0}){3}{1}{3}({2})".format(text(e[2], sp), e[1], text(e[3], sp), sp)
    if k == "m":
        return "-({0})".format(text(e[1], sp))
    if k == "f":
        return "{0}{2}({1})".format(e[1], text(e[2], sp), sp)
    if k == "g":
        return "{0}({1},{3}{2})".format(e[1], text(e[2], sp), text(e[3], sp), sp)
    return "({0})".format(text(e[1], sp))


def value(e, env):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "n":
        return float(e[1]) if not e[1].isdigit() else int(e[1])
    if k == "b":
        a, b = value(e[2], env), value(e[3], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: np.true_divide(a, b), "**": lambda: np.asarray(a, dtype=float) ** b}[e[1]]()
    if k == "m":
        return -value(e[1], env)
    if k == "f":
        return getattr(np, e[1])(value(e[2], env))
    if k == "g":
        return getattr(np, e[1])(value(e[2], env), value(e[3], env))
    return value(e[1], env)


def names_of(e):
    return {e[1]} if e[0] == "v" else set().union(*[names_of(x) for x in e[1:] if isinstance(x, list)], set())


def with_field(e):
    """no operations between numbers only, python would do these itself"""
    if e[0] in "vn":
        return e
    out = [e[0]] + [with_field(x) if isinstance(x, list) else x for x in e[1:]]
    if not names_of(out):
        k = next(i for i, x in enumerate(out) if isinstance(x, list))
        out[k] = ["v", "rho"]
    return out


def check_formula(case):
    r = rng(case["seed"])
    shape = case["shape"]
    axes = "xyz"[:len(shape)]
    off = case["center"] == "cell"
    crds = viscid.arrays2crds([np.linspace(0.0, 1.0 + i, n + off) for i, n in enumerate(shape)], crd_names=axes)
    g = Grid(name="g", time=3.0)
    env = {}
    for nm in ["rho", "p", "e1", "i2", "_u", "V2x"]:
        arr = r.uniform(0.5, 2.0, size=shape) if nm != "i2" else r.randint(1, 5, size=shape)
        env[nm] = arr
        g.add_field(viscid.wrap_field(Lazy(arr) if case["lazy"] else arr.copy(), crds, name=nm, center=case["center"]))
    varr = r.uniform(-1, 1, size=shape + [3])
    g.add_field(viscid.wrap_field(varr, crds, name="vec", fldtype="vector", center=case["center"], layout=vfield.LAYOUT_INTERLACED))
    e = with_field(case["e"])
    if not names_of(e):
        e = ["b", "+", ["v", "rho"], e]
    label(case["how"])
    nontrivial(len(names_of(e)) > 1)
    eqn = text(e, case["sp"])
    evaluator.enabled = False
    raises(lambda: g["q=" + eqn], "a formula while they are disabled", RuntimeError)
    slc = case["slc"]
    vec = case["vec"] if len(shape) == 3 and not slc and min(shape) > 2 else None
    evaluator.enabled = True
    old = np.seterr(all="ignore")
    try:
        want = value(e, env)
        if vec == "magnitude":
            eqn = "({0}) * magnitude(vec)".format(eqn)
            want = want * np.sqrt((varr**2).sum(axis=-1))
        elif vec == "dot":
            eqn = "({0}) * dot(vec, vec)".format(eqn)
            want = want * (varr**2).sum(axis=-1)
        elif vec == "sum":
            eqn = "({0}) * sum(p)".format(eqn)
            want = want * env["p"].sum()
        elif vec == "div":
            if case["center"] != "node" and min(shape) < 4:
                raise Discard()
            eqn = "div(vec)"
            want = np.array(viscid.div(g["vec"]))
        if case["how"] == "getitem":
            f = g.get_field("q = " + eqn, slc=slc) if slc else g["q=" + eqn]
        elif case["how"] == "dset":
            d = DatasetTemporal(g, name="d")
            f = d.get_field("q = " + eqn, slc=slc) if slc else d["q=" + eqn]
        else:
            f = evaluator.evaluate(g, "q", eqn, try_numexpr=case["how"] == "numexpr", slc=slc if slc else Ellipsis)
    finally:
        np.seterr(**old)
        evaluator.enabled = False
    ref = g["rho"]
    if slc:
        ref = ref.slice_and_keep(slc)
        step = {"x=1:3": slice(1, 3), "x=::2": slice(None, None, 2)}[slc]
        want = want[step]
    if want.size == 1:
        raise Discard()
    close(np.array(f), want, "q={0}".format(eqn), rtol=1e-9, atol=1e-9)
    require(f.name == "q" and f.pretty_name == "q", "name of the result is {0}, {1}", f.name, f.pretty_name)
    if vec != "div":
        require(f.center == ref.center, "center {0}, not {1}", f.center, ref.center)
        for ax in ref.crds.axes:
            eq_arr(f.get_crd(ax), ref.get_crd(ax), "crd {0} of the result".format(ax))
    require(f.time == g["rho"].time, "time of the result is {0}", f.time)
    # nothing was changed on the way
    for nm, arr in env.items():
        eq_arr(np.array(g[nm]), arr, "{0} after evaluating".format(nm))


# ------------------------------------------------------------------- files
_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c30-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


@st.composite
def file_cases(draw):
    w = st.integers(0, 3)
    op = st.one_of(st.tuples(st.just("load"), w, st.sampled_from(["abs", "rel", "env", "list"])), st.tuples(st.just("load"), w, st.sampled_from(["abs", "rel", "env", "glob"])),
                   st.tuples(st.just("write"), w, seeds), st.tuples(st.just("write"), w, seeds), st.tuples(st.just("force"), w), st.tuples(st.just("reload"), w),
                   st.tuples(st.just("unload"), w), st.tuples(st.just("method"), w), st.tuples(st.just("with"), w), st.tuples(st.just("all")),
                   st.tuples(st.just("break"), w), st.tuples(st.just("junk"), w), st.tuples(st.just("cache"), w))
    return {"ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=14))], "ext": [draw(st.sampled_from(["npz", "xdmf"])) for _ in range(4)]}


class TaggedGrid(viscid.grid.Grid):
    """grids can be of any type"""


def check_files(case):
    """files on disk have a version; a loaded file has the version of when it was last read"""
    d = fresh()
    os.environ["C30DIR"] = d
    cwd = os.getcwd()
    paths = [os.path.join(d, "f{0}.{1}".format(i, e)) for i, e in enumerate(case["ext"])]
    crds = viscid.arrays2crds([np.linspace(0, 1, 4)] * 3)
    disk, loaded, seen = {}, {}, []
    junk = set()
    failed = False

    def arr(seed):
        return rng(seed).uniform(-1, 1, size=(4, 4, 4))

    def write(i, seed):
        # files are replaced, so that open ones keep what they were
        tmp = os.path.join(d, "tmp")
        os.makedirs(tmp)
        fld = viscid.wrap_field(arr(seed), crds, name="q", center="node", time=0.0)
        name = os.path.basename(paths[i])
        viscid.save_field(os.path.join(tmp, name.replace(".xdmf", ".h5")), fld)
        for fn in os.listdir(tmp):
            os.replace(os.path.join(tmp, fn), os.path.join(d, fn))
        os.rmdir(tmp)
        disk[i] = seed
        junk.discard(i)

    for i in range(4):
        write(i, i)
    nload = 0
    try:
        for op in case["ops"]:
            k = op[0]
            i = op[1] if len(op) > 1 else None
            if k == "write":
                write(i, op[2])
                if i in loaded:
                    # old or new, depends on what was read before
                    loaded[i][1] = None
            elif k == "break":
                if i in loaded:
                    continue
                for fn in os.listdir(d):
                    if fn.startswith("f{0}.".format(i)):
                        os.remove(os.path.join(d, fn))
                disk.pop(i, None)
            elif k == "junk":
                if i in loaded:
                    continue
                write(i, 0)
                fn = paths[i].replace(".xdmf", ".h5")
                os.remove(fn)
                with open(fn, "wb") as fh:
                    fh.write(b"no such format")
                del disk[i]
                junk.add(i)
            elif k == "load":
                p = paths[i]
                if op[2] == "rel":
                    p = os.path.relpath(p)
                elif op[2] == "env":
                    p = os.path.join("$C30DIR", os.path.basename(p))
                elif op[2] == "glob":
                    p = os.path.join(d, "f{0}*.{1}".format(i, case["ext"][i]))
                if i not in disk:
                    try:
                        f = viscid.load_files([p]) if op[2] == "list" else viscid.load_file(p)
                    except Exception:  # whichever
                        f = None
                    # the hdf5 file of one that can't be read may stay open
                    failed = failed or i in junk
                    require(f is None or len([x for x in f if x is not None] if op[2] == "list" else f) == 0, "a file that doesn't exist loads as {0}", f)
                    continue
                kw = dict(grid_opts={"tag": i}, grid_type=TaggedGrid)
                f = viscid.load_files([p], **kw)[0] if op[2] == "list" else viscid.load_file(p, **kw)
                require(f is not None, "file {0} doesn't load after {1}", i, case["ops"])
                if i in loaded:
                    require(f is loaded[i][0], "loading {0} again gives another object", i)
                else:
                    loaded[i] = [f, disk[i]]
                    nload += 1
            elif k == "force":
                if i not in disk:
                    continue
                f = viscid.load_file(paths[i], force_reload=True, grid_opts={"tag": i}, grid_type=TaggedGrid)
                if i in loaded:
                    require(f is loaded[i][0], "force_reload of {0} gives another object", i)
                loaded[i] = [f, disk[i]]
            elif k == "reload":
                if i not in disk or i not in loaded:
                    if i not in loaded:
                        raises(lambda: viscid.reload_file(paths[i]), "reloading {0}, which isn't loaded".format(i), KeyError)
                    continue
                viscid.reload_file(paths[i])
                loaded[i][1] = disk[i]
            elif k in ("unload", "method", "with"):
                if i not in loaded:
                    raises(lambda: viscid.unload_file(paths[i]), "unloading {0}, which isn't loaded".format(i), KeyError)
                    continue
                if k == "unload":
                    viscid.unload_file(paths[i])
                elif k == "method":
                    loaded[i][0].unload()
                else:
                    with viscid.load_file(paths[i]) as f:
                        require(f is loaded[i][0], "with load_file gives another object")
                del loaded[i]
            elif k == "cache":
                if i in loaded:
                    loaded[i][0].clear_cache()
            else:
                viscid.unload_all_files()
                loaded.clear()
            for j in range(4):
                if j in loaded:
                    f = viscid.get_file(paths[j])
                    require(f is loaded[j][0], "get_file of {0} after {1}", j, op)
                    g = f.get_grid()
                    require(isinstance(g, TaggedGrid) and g.find_info("tag", None) == j, "grid_type and grid_opts of file {0} gave {1} with {2}", j, type(g), g.find_info("tag", None))
                    if loaded[j][1] is None:
                        continue
                    eq_arr(np.array(f["q"]).reshape(4, 4, 4), arr(loaded[j][1]), "values of file {0} after {1}".format(j, op))
                else:
                    raises(lambda: viscid.get_file(paths[j]), "get_file of {0}, which isn't loaded, after {1}".format(j, op), KeyError)
            # hdf5 files of unloaded xdmf files are gone too
            bucket = viscid.readers.__filebucket__
            n = sum(2 if case["ext"][j] == "xdmf" else 1 for j in loaded)
            require(failed or len(bucket) == n, "{0} open files after {1}, expected {2}", len(bucket), op, n)
    finally:
        os.chdir(cwd)
        viscid.unload_all_files()
    nontrivial(nload > 1 and any(o[0] in ("unload", "method", "with", "all", "force") for o in case["ops"]))


FACETS = [
    Facet("bucket", bucket_cases(), check_bucket, quick=800, rule="a handle moves to another item"),
    Facet("tree", tree_cases(), check_tree, quick=500, rule="more than two levels"),
    Facet("grid", grid_cases(), check_grid, quick=400, rule="two or more fields, caches cleared or fields deleted"),
    Facet("datasets", dset_cases(), check_dset, quick=300, rule="more than one child, one of them with more than one time"),
    Facet("formulas", formula_cases(), check_formula, quick=600, rule="more than one field in the formula"),
    Facet("files", file_cases(), check_files, quick=150, rule="more than one file, unloaded or reloaded"),
]
