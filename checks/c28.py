"""C28: VPIC's binary output loads as written, for any decomposition, time and order of access"""
import os
import shutil
import struct

import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import amr_field
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds

FIELDS = [("Electric Field", "VECTOR", 3), ("Electric Field Divergence Error", "SCALAR", 1), ("Magnetic Field", "VECTOR", 3),
          ("Magnetic Field Divergence Error", "SCALAR", 1), ("TCA Field", "VECTOR", 3), ("Bound Charge Density", "SCALAR", 1),
          ("Free Current Field", "VECTOR", 3), ("Charge Density", "SCALAR", 1)]
HYDRO = [("Current Density", "VECTOR", 3), ("Charge Density", "SCALAR", 1), ("Momentum Density", "VECTOR", 3),
         ("Kinetic Energy Density", "SCALAR", 1), ("Stress Tensor", "TENSOR", 6)]
COMPS = {1: [""], 3: [" X", " Y", " Z"], 6: [" XX", " YY", " ZZ", " YZ", " ZX", " XY"]}
ALIAS = {"e": "Electric Field", "b": "Magnetic Field"}
HALIAS = {"j": "Current Density", "rhov": "Momentum Density"}


@st.composite
def cases(draw):
    return {"ld": [draw(st.integers(1, 5)) for _ in range(3)], "topo": [draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 3))],
            "dx": [draw(st.sampled_from([1.0, 2.0, 0.5, 0.3, 5.0])) for _ in range(3)], "x0": [draw(st.sampled_from([0.0, -32.0, 2.5, -0.3])) for _ in range(3)],
            "nsp": draw(st.integers(0, 2)), "order": draw(st.booleans()), "steps": sorted(draw(st.sets(st.integers(0, 12000), min_size=1, max_size=4))),
            "hdir": draw(st.sampled_from(["hydro", "fields", "out/hydro"])), "extra": draw(st.booleans()), "perm": draw(seeds), "seed": draw(seeds),
            "how": draw(st.sampled_from(["activate", "iter", "grid"])), "layout": draw(st.sampled_from(["none", "flat", "interlaced"])),
            "names": draw(st.lists(st.sampled_from(["bx", "by", "bz", "ex", "ey", "ez", "b", "e", "dive", "divb", "n_q", "full", "j_e", "rhov_e", "jx_e", "jy_e", "jz_e",
                                                    "n_e", "ek_e", "Pxx_e", "Pyy_e", "Pzz_e", "Pxy_e", "Pyz_e", "Pzx_e", "rhovx_e", "rhovy_e", "rhovz_e"]), min_size=1, max_size=6))}


def name_of(short, sp):
    """list of (basename, long name, component)"""
    if short in ALIAS:
        return [("fields", ALIAS[short], k) for k in range(3)]
    if short[:1] in "eb" and len(short) == 2:
        return [("fields", ALIAS[short[0]], "xyz".index(short[1]))]
    if short in ("dive", "divb"):
        return [("fields", ALIAS[short[-1]] + " Divergence Error", 0)]
    if short == "n_q":
        return [("fields", "Charge Density", 0)]
    base = short[:-2]
    if base in HALIAS:
        return [(sp, HALIAS[base], k) for k in range(3)]
    if base[0] == "P":
        return [(sp, "Stress Tensor", ["xx", "yy", "zz", "yz", "zx", "xy"].index(base[1:]))]
    if base in ("n", "ek"):
        return [(sp, "Charge Density" if base == "n" else "Kinetic Energy Density", 0)]
    return [(sp, HALIAS[base[:-1]], "xyz".index(base[-1]))]


_count = [0]


def check_vpic(case):
    _count[0] += 1
    d = os.path.abspath("c28-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    r = rng(case["seed"])
    species = ["ehydro", "Hhydro"][:case["nsp"]]
    ld, topo, dx, x0 = (np.array(case[k]) for k in ("ld", "topo", "dx", "x0"))
    nrank = int(np.prod(topo))
    if nrank * np.prod(ld) * len(case["steps"]) > 1500:
        raise Discard()
    flds, hyd = list(FIELDS), list(HYDRO)
    if case["order"]:
        flds = [flds[i] for i in r.permutation(len(flds))]
        hyd = [hyd[i] for i in r.permutation(len(hyd))]
    lines = ["# comment", "VPIC_HEADER_VERSION 1.0.0", "", "DATA_HEADER_SIZE 123", "GRID_DELTA_T 0.36", "GRID_CVAC 1.0", "GRID_EPS0 1.0"]
    for x, a, n, h in zip("XYZ", x0, ld, dx):
        lines += ["GRID_EXTENTS_{0} {1:.6f} {2:.6f}".format(x, a, a + n * h), "GRID_DELTA_{0} {1:.6f}".format(x, h)]
    lines += ["GRID_TOPOLOGY_{0} {1}".format(x, n) for x, n in zip("XYZ", topo)]
    lines += ["FIELD_DATA_DIRECTORY fields", "FIELD_DATA_BASE_FILENAME fields", "FIELD_DATA_VARIABLES {0}".format(len(flds))]
    lines += ['"{0}" {1} {2} FLOATING_POINT 4'.format(*f) for f in flds]
    lines += ["", "# species", "NUM_OUTPUT_SPECIES {0}".format(len(species))]
    for s in species:
        lines += ["SPECIES_DATA_DIRECTORY " + case["hdir"], "SPECIES_DATA_BASE_FILENAME " + s, "# c", "HYDRO_DATA_VARIABLES {0}".format(len(hyd))]
        lines += ['"{0}" {1} {2} FLOATING_POINT 4'.format(*f) for f in hyd]
    with open(os.path.join(d, "global.vpc"), "w") as f:
        f.write("\n".join(lines) + "\n")
    vals = {}
    for t in case["steps"]:
        for base, sub, lst in [("fields", "fields", flds)] + [(s, case["hdir"], hyd) for s in species]:
            dd = os.path.join(d, sub, "T.{0}".format(t))
            os.makedirs(dd, exist_ok=True)
            for i in range(nrank):
                with open(os.path.join(dd, "{0}.{1}.{2}".format(base, t, i)), "wb") as f:
                    f.write(struct.pack("=5b", 8, 2, 4, 4, 8) + struct.pack("=HIfd", 0xcafe, 0xdeadbeef, 1.0, 1.0))
                    f.write(struct.pack("=6i10f", 1, 0, t, ld[0], ld[1], ld[2], 0.36, dx[0], dx[1], dx[2], 0, 0, 0, 1, 1, 0))
                    f.write(struct.pack("=3i1f5i", i, nrank, 0, 1.0, 4, 3, ld[0] + 2, ld[1] + 2, ld[2] + 2))
                    for nm, _, nc in lst:
                        for k in range(nc):
                            a = r.uniform(-9, 9, tuple(ld + 2)).astype("f4")
                            vals[base, nm, k, t, i] = a[1:-1, 1:-1, 1:-1]
                            f.write(a.tobytes(order="F"))
    if case["extra"]:
        with open(os.path.join(d, "fields", "notes"), "w") as f:
            f.write("x")
    nontrivial(nrank > 1 and len(case["steps"]) > 1)
    label("ranks" if nrank > 1 else "one rank", case["how"])
    G = viscid.readers.vpic.VPIC_Grid
    old = G.force_vector_layout
    G.force_vector_layout = {"none": viscid.field.LAYOUT_DEFAULT, "flat": viscid.field.LAYOUT_FLAT, "interlaced": viscid.field.LAYOUT_INTERLACED}[case["layout"]]
    try:
        f = viscid.load_file(os.path.join(d, "global.vpc"))
        require(f.nr_times() == len(case["steps"]) and [g.time for g in f.get_times()] == case["steps"], "times {0}, expected {1}", [g.time for g in f.get_times()], case["steps"])
        if case["how"] == "iter":
            for t, g in zip(case["steps"], f.iter_times(":")):
                _look(g, t, case, species, vals, ld, topo, dx, x0)
        else:
            for k in rng(case["perm"]).permutation(len(case["steps"])):
                t = case["steps"][k]
                if case["how"] == "grid":
                    g = f.get_grid(time=int(k))
                else:
                    f.activate_time(int(k))
                    g = f.get_grid()
                    if k % 2:
                        g = f
                _look(g, t, case, species, vals, ld, topo, dx, x0)
    finally:
        G.force_vector_layout = old
        viscid.unload_all_files()


def _look(g, t, case, species, vals, ld, topo, dx, x0):
    nrank = int(np.prod(topo))
    for k, short in enumerate(case["names"]):
        if short == "full":
            base = (["fields"] + species)[(t + k) % (1 + len(species))]
            nm, _, nc = (FIELDS if base == "fields" else HYDRO)[(case["seed"] + k) % 5]
            c = (case["seed"] + t) % nc
            comps = [(base, nm, c)]
            fld = g[nm + (" ({0})".format(base) if base != "fields" else "") + COMPS[nc][c]]
        else:
            sp = None
            if short[-2:] == "_e":
                if not species:
                    continue
                sp = species[(t + k) % len(species)]
                if sp == "Hhydro":
                    short = short[:-1] + "i"
            comps = name_of(short, sp)
            fld = g[short]
        if nrank > 1:
            require(isinstance(fld, amr_field.AMRField) and fld.nr_patches == nrank, "{0} has {1} patches, expected {2}", short, getattr(fld, "nr_patches", 1), nrank)
        patches = fld.patches if nrank > 1 else [fld]
        for i, p in enumerate(patches):
            want = np.array([vals[b, n, c, t, i] for b, n, c in comps])
            require(p.time == t, "time of {0} is {1}, expected {2}", short, p.time, t)
            require(p.center.lower() == "cell", "center")
            ijk = np.array([i % topo[0], i // topo[0] % topo[1], i // (topo[0] * topo[1])])
            for ax, x in enumerate("xyz"):
                lo = x0[ax] + ijk[ax] * ld[ax] * dx[ax]
                close(p.get_crd_nc(x), lo + dx[ax] * np.arange(ld[ax] + 1), "nodes of rank {0} along {1}".format(i, x), 1e-9, 1e-6)
            if len(comps) == 1:
                eq_arr(np.asarray(p.data), want[0], "{0} of rank {1} at {2}".format(short, i, t))
            else:
                if 3 in want.shape[1:] or 1 in want.shape[1:]:
                    continue
                require(p.nr_comps == 3, "components")
                for c in range(3):
                    eq_arr(np.asarray(p["xyz"[c]].data), want[c], "component {0} of {1} of rank {2} at {3}".format(c, short, i, t))


FACETS = [Facet("vpic", cases(), check_vpic, quick=400, rule="more than one rank and time step")]
