"""C37: fluid elements go where the flow takes them"""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds


# ---------------------------------------------------------------- curators
@st.composite
def cur_cases(draw):
    return {"kind": draw(st.sampled_from(["base", "replace", "replace0", "continuous"])), "dim": draw(st.sampled_from(["3d", "3d", "flat", "2d"])), "center": draw(st.sampled_from(["cell", "node"])),
            "ob": draw(st.sampled_from([None, None, "array", "list"])), "ib": draw(st.sampled_from([None, None, 0.5])), "obr": draw(st.sampled_from([None, None, 1.2])), "n": draw(st.integers(1, 12)), "m": draw(st.integers(1, 3)),
            "seed": draw(seeds), "mask": draw(st.booleans()), "times": draw(st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0]), min_size=1, max_size=6)), "cad": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "back": draw(st.booleans())}


def check_cur(case):
    r = rng(case["seed"])
    dim = case["dim"]
    lo, hi = np.array([-1.0, -1.2, -0.8]), np.array([1.0, 0.9, 1.1])
    nodes = [np.linspace(a, b, k) for a, b, k in zip(lo, hi, (6, 5, 7))]
    if dim == "flat":
        nodes[2] = np.array([-0.1, 0.1]) if case["center"] == "cell" else np.array([0.0])
    names = "xyz"
    if dim == "2d":
        nodes, names = nodes[:2], "xy"
    crds = viscid.arrays2crds(nodes, crd_names=names)
    v = viscid.zeros(crds, nr_comps=3, center=case["center"])
    v.time = 10.0
    xl, xh = np.array(crds.xl_nc), np.array(crds.xh_nc)
    nd = len(nodes)
    kw = {}
    free = dim != "3d"  # nothing leaves along z
    b0, b1 = lo.copy(), hi.copy()
    if case["ob"]:
        b0, b1 = lo * 0.7, hi * 0.6
        conv = list if case["ob"] == "list" else np.array
        kw.update(obound0=conv(b0[:nd]), obound1=conv(b1[:nd]))
    given = {k: np.array(w) for k, w in kw.items()}
    if case["ib"]:
        kw["ibound"] = case["ib"]
    if case["obr"]:
        kw["obound_r"] = case["obr"]
    kind = case["kind"]
    label(kind + " " + dim)
    n = case["n"]
    mk = lambda k, s=1.4: np.array([r.uniform(-s, s, size=k), r.uniform(-s, s, size=k), np.zeros(k) if dim == "2d" else r.uniform(-s, s, size=k)])

    def outside(p):
        o = np.zeros(p.shape[1], dtype=bool)
        for i in range(2 if free else 3):
            o |= (p[i] < b0[i]) | (p[i] > b1[i])
        rad = np.sqrt((p ** 2).sum(axis=0))
        if case["ib"]:
            o |= rad < case["ib"]
        if case["obr"]:
            o |= rad > case["obr"]
        return o
    orig = mk(n)
    new = mk(case["m"], 0.5)
    if kind == "base":
        c = viscid.SeedCurator(**kw)
    elif kind == "replace":
        c = viscid.ReplacementCurator(orig.copy(), **kw)
    elif kind == "replace0":
        c = viscid.ReplacementCurator(**kw)
    else:
        c = viscid.ContinuousCurator(new.copy(), cadence=case["cad"], **kw)
    t, last, p = 0.0, None, orig.copy()
    removed = 0
    for k, dt in enumerate(case["times"]):
        if k and p.shape[1]:
            p = p + r.uniform(-0.4, 0.4, size=p.shape) * np.array([[1], [1], [dim != "2d"]])
        mask = r.uniform(size=p.shape[1]) < 0.3 if case["mask"] else None
        before = p.copy()
        kws = {} if mask is None else {"delmask": mask.copy()}
        got = np.asarray(c.update(v, p.copy(), time=t, **kws))
        o = outside(before) | (mask if mask is not None else False)
        removed += o.sum()
        if kind == "base":
            want = before[:, ~o]
        elif kind in ("replace", "replace0"):
            if kind == "replace0" and k == 0:
                orig = before.copy()
            want = np.where(o[None, :], orig, before)
        else:
            if last is None:
                last = t
            if abs(t - last) > case["cad"]:
                want = np.concatenate([before[:, ~o], new], axis=1)
                last = t
            else:
                # what is outside may stay until then
                require(got.shape[1] in (before.shape[1], (~o).sum()), "{0} seeds of {1} between additions", got.shape[1], before.shape[1])
                want = before if got.shape[1] == before.shape[1] else before[:, ~o]
        eq_arr(got, want, "seeds of {0} after update {1} at time {2}".format(kind, k, t))
        p = got
        t += -dt if case["back"] else dt
    for k, w in given.items():
        eq_arr(np.array(kw[k]), w, "the given " + k)
    eq_arr(np.array(v.crds.xl_nc), xl, "lower corner of the field")
    eq_arr(np.array(v.crds.xh_nc), xh, "upper corner of the field")
    nontrivial(removed > 0 and len(case["times"]) > 1)


# ------------------------------------------------------------------ follow
@st.composite
def fol_cases(draw):
    nt = draw(st.integers(1, 5))
    return {"nt": nt, "gaps": [draw(st.sampled_from([0.5, 1.0, 1.5])) for _ in range(nt)], "t0": draw(st.sampled_from([0.0, 2.0, -1.5])), "flow": draw(st.sampled_from(["uniform", "uniform", "linear"])),
            "dt": draw(st.sampled_from([None, 0.25, 0.5, -0.25, 1.0])), "dti": draw(st.sampled_from([None, None, 0.5, 0.75])), "dur": draw(st.sampled_from([None, None, 0.75, 1.5, -1.0])), "range": draw(st.sampled_from([None, None, "fwd", "back"])),
            "scale": draw(st.sampled_from([1.0, 0.5, 2.0])), "key": draw(st.sampled_from(["v", "u"])), "anc": draw(st.booleans()), "slc": draw(st.sampled_from([None, None, "y=1:"])), "sel": draw(st.sampled_from(["all", "all", "first", "rev", "tail"])),
            "cur": draw(st.sampled_from([None, "base", "replace", "continuous"])), "out": draw(st.booleans()), "ns": draw(st.integers(1, 4)), "seed": draw(seeds), "center": draw(st.sampled_from(["cell", "node"])), "method": draw(st.sampled_from([None, "rk45", "rk4", "euler1a"])),
            "layout": draw(st.sampled_from(["interlaced", "flat"])), "opts": draw(st.booleans()), "raw": draw(st.booleans())}


def check_fol(case):
    r = rng(case["seed"])
    nt = case["nt"]
    times = case["t0"] + np.cumsum([0] + case["gaps"][:nt - 1])
    L = 10.0
    nodes = [np.linspace(-L, L, k) for k in (7, 6, 8)]
    key = case["key"]
    lin = case["flow"] == "linear"
    V = r.uniform(-1, 1, size=(nt, 3)) * (4.0 if case["out"] else 0.5)
    G = r.uniform(-1, 1, size=(nt, 3, 3)) * 0.3
    if not lin:
        G = G * 0
    S = r.normal(size=nt)
    # field values are known at points, so linear flow is exact
    dset = viscid.dataset.DatasetTemporal(name="fluid")
    for k, t in enumerate(times):
        crds = viscid.arrays2crds([c.copy() for c in nodes])
        g = viscid.grid.Grid("g", time=t)
        g.set_crds(crds)
        pts = [0.5 * (c[1:] + c[:-1]) if case["center"] == "cell" else c for c in nodes]
        X = np.stack(np.meshgrid(*pts, indexing="ij"), axis=-1)
        arr = X.dot(G[k].T) + V[k]
        lay = viscid.field.LAYOUT_INTERLACED
        if case["layout"] == "flat":
            arr, lay = np.ascontiguousarray(np.moveaxis(arr, -1, 0)), viscid.field.LAYOUT_FLAT
        g.add_field(viscid.wrap_field(arr, crds, name=key, fldtype="vector", center=case["center"], layout=lay, time=t))
        g.add_field(viscid.wrap_field(np.full(X.shape[:3], S[k]), crds, name="s", center=case["center"], time=t))
        dset.add(g)
    p0 = r.uniform(-0.5, 0.5, size=(3, case["ns"])) * L * (1.7 if case["out"] else 0.6)
    scale = case["scale"]
    # ---- which times, which way
    use = list(range(nt))
    kw = {}
    if case["sel"] == "first":
        use, kw["time_slice"] = use[:1], slice(0, 1)
    elif case["sel"] == "rev":
        use, kw["time_slice"] = use[::-1], slice(None, None, -1)
    elif case["sel"] == "tail" and nt > 1:
        use, kw["time_slice"] = use[1:], slice(1, None)
    ut = times[use]
    tdir = 1.0
    span = ut.max() - ut.min()
    if len(use) > 1 and ut[-1] < ut[0]:
        tdir = -1.0
    dt, dti, dur = case["dt"], case["dti"], case["dur"]
    tstart = tstop = None
    if case["range"]:
        if span == 0:
            raise Discard()
        tstart, tstop = ut.min() + 0.25, ut.max() - 0.125
        if case["range"] == "back":
            tstart, tstop = ut.max() - 0.25, ut.min() + 0.125
        if tstart == tstop:
            raise Discard()
        tdir = np.sign(tstop - tstart)
        kw.update(tstart=tstart, tstop=tstop)
        if dur is not None:
            dur = None
    elif (dt is not None and dt < 0) or (dur is not None and dur < 0):
        tdir = -1.0
    elif len(use) == 1:
        tdir = 1.0
    if dt is not None:
        kw["dt"] = dt
    if dti is not None:
        kw["dt_interp"] = dti
    if dur is not None:
        kw["duration"] = dur
    if tstart is None:
        tstart = ut.min() if tdir > 0 else ut.max()
        tstop = tstart + tdir * abs(dur) if dur is not None else (ut.max() if tdir > 0 else ut.min())
        if case["sel"] == "first" and nt > 1 and dur is None:
            # a slice of indices ranges to the time of its last index
            if tdir < 0:
                raise Discard()
            tstop = times[1]
    dta = abs(dt) if dt is not None else (np.abs(np.diff(ut)).min() if len(use) > 1 else 1.0)
    dtia = dti if dti is not None else dta
    # the last of the times holds from there on
    order = np.argsort(ut)

    def at(t, a):
        return np.array([np.interp(t, ut[order], x) for x in a[use][order].reshape(len(use), -1).T]).reshape(a.shape[1:])
    if dur is not None and tstop > ut.max() + 1e-9 and tdir < 0 or tstart < ut.min() or tstart > ut.max():
        raise Discard()
    # ---- model
    lo, hi = np.full(3, -L), np.full(3, L)
    if case["slc"]:
        lo[1] = nodes[1][1]
        p0[1] = np.maximum(p0[1], lo[1] + 0.5)
    exp = []
    p, t = p0.copy(), tstart
    orig, last = p0.copy(), None
    new = r.uniform(-1, 1, size=(3, 2))
    cur = case["cur"]
    curator = {None: None, "base": viscid.SeedCurator(), "replace": viscid.ReplacementCurator(p0.copy()) if case["raw"] else viscid.ReplacementCurator(), "continuous": viscid.ContinuousCurator(new.copy(), cadence=0.4)}[cur]
    if cur == "replace" and case["out"]:
        # without the originals they would be the first to be updated
        curator = viscid.ReplacementCurator(p0.copy())
    elif cur == "continuous" and case["out"]:
        raise Discard()
    near = False
    while tdir * (t - tstop) <= 0:
        v, gr, s = at(t, V), at(t, G), at(t, S)
        tn = t + tdir * dtia
        while tdir * (t - tn) < 0 and tdir * (t - tstop) <= 0:
            A = np.zeros((4, 4))
            A[:3, :3], A[:3, 3] = gr, v
            E = expm(A * scale * tdir * dta)
            q = E[:3, :3].dot(p) + E[:3, 3:]
            exp.append((t, p, q, v, gr, s))
            o = ((q < lo[:, None]) | (q > hi[:, None])).any(axis=0)
            for b in (lo, hi):
                near |= bool((np.abs(q - b[:, None]) < (2.6 if lin else 1e-5)).any())
            if cur == "replace":
                q = np.where(o[None, :], orig, q)
            elif cur == "continuous":
                last = t if last is None else last
                if abs(t - last) > 0.4:
                    q = np.concatenate([q[:, ~o], new], axis=1)
                    last = t
            else:
                q = q[:, ~o]
            p = q
            t += tdir * dta
    if near or len(exp) > 40 or (lin and case["out"]):
        raise Discard()
    calls = []

    def callback(i, t, seeds=None, v_field=None, anc_fields=None, grid0=None, grid1=None, streamlines=None, extra=None, **kws):
        calls.append((i, t, np.array(seeds), v_field, anc_fields, grid0, grid1, [np.array(s) for s in streamlines], extra, kws))
    opts = {"ds0": 0.05, "largest_ds_frac": 3.0}
    if case["method"]:
        opts["method"] = case["method"]
    keep = dict(opts)
    seeds_ = viscid.Point(p0.copy())
    if case["anc"]:
        kw["anc_keys"] = ("s",)
    if case["slc"]:
        kw["fld_slc"] = "y=1:"
    res = viscid.follow_fluid(dset, seeds_, curator=curator, callback=callback, speed_scale=scale, v_key=key, callback_kwargs={"extra": 7}, stream_opts=opts, **kw)
    require(opts == keep, "the given options became {0}", opts)
    eq_arr(seeds_.get_points(), p0, "the given seeds")
    label("{0} {1} dir {2:g}".format(case["flow"], cur, tdir))
    require([c[0] for c in calls] == list(range(len(calls))), "numbers of the steps {0}", [c[0] for c in calls])
    require(len(calls) == len(exp), "{0} steps at {1}, expected {2}", len(calls), [c[1] for c in calls], [e[0] for e in exp])
    tol = 3e-2 if lin else 1e-4 if case["method"] != "rk45" and case["method"] else 1e-4
    if lin:
        tol *= max(1.0, np.abs(scale * dta))
    for k, (c, e) in enumerate(zip(calls, exp)):
        i, t, sd, vf, anc, g0, g1, lines, extra, kws = c
        et, p, q, v, gr, s = e
        require(abs(t - et) < 1e-9, "step {0} at {1}, expected {2}", k, t, et)
        require(extra == 7 and not kws, "callback got {0} {1}", extra, kws)
        require(sd.shape == p.shape, "{0} seeds at step {1}, expected {2}", sd.shape, k, p.shape)
        close(sd, p, "seeds at step {0}".format(k), rtol=0, atol=tol * (k + 1))
        require(len(lines) == p.shape[1], "{0} lines", len(lines))
        for j, ln in enumerate(lines):
            close(ln[:3, 0], sd[:, j], "start of line {0}".format(j), rtol=0, atol=1e-9)
            if all((lo < a[:, j]).all() and (a[:, j] < hi).all() for a in (p, q)):
                close(ln[:3, -1], q[:, j], "end of line {0} at step {1}".format(j, k), rtol=0, atol=tol * (k + 2))
        m = np.asarray(vf.as_flat().data.reshape(3, -1))
        if not lin:
            close(m, np.repeat(v[:, None], m.shape[1], axis=1), "velocity at {0}".format(t), atol=1e-9)
        require(abs(g0.time - min(ut, key=lambda x: abs(x - g0.time))) < 1e-9, "grid0 is at {0}", g0.time)
        if g0 is not g1:
            require(min(g0.time, g1.time) - 1e-9 <= t <= max(g0.time, g1.time) + dtia + 1e-9 if tdir > 0 else True, "between grids {0} and {1} at {2}", g0.time, g1.time, t)
        if case["anc"]:
            require(list(anc) == ["s"], "ancillary {0}", list(anc))
            close(np.asarray(anc["s"]).reshape(-1), np.full(anc["s"].size, s), "ancillary at {0}".format(t), atol=1e-9)
        else:
            require(not anc, "ancillary {0}", anc)
        if case["slc"]:
            require(abs(vf.crds.xl_nc[1] - lo[1]) < 1e-9 and (not case["anc"] or abs(anc["s"].crds.xl_nc[1] - lo[1]) < 1e-9), "the slice was not taken: {0}", vf.crds.xl_nc)
    if exp:
        # the points of the last step are returned
        require(res is not None, "nothing is returned")
        res = np.asarray(res)
        close(res, p_last(exp, cur, orig, lo, hi, new, case, res), "points returned", rtol=0, atol=tol * (len(exp) + 2))
    nontrivial(len(exp) > 1 and len(use) > 1)


def p_last(exp, cur, orig, lo, hi, new, case, res):
    q = exp[-1][2]
    o = ((q < lo[:, None]) | (q > hi[:, None])).any(axis=0)
    if cur == "replace":
        return np.where(o[None, :], orig, q)
    if cur == "continuous":
        return q if res.shape[1] == q.shape[1] else np.concatenate([q[:, ~o], new], axis=1)
    return q[:, ~o]


FACETS = [
    Facet("curators", cur_cases(), check_cur, quick=400, rule="several updates and some seeds outside"),
    Facet("follow", fol_cases(), check_fol, quick=500, thorough=2500, rule="several steps through several times"),
]
