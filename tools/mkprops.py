#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the list below (one entry per check)"""
import json
import os
import re

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = []


def P(id, title, statement, text, why, files, mech, note, over=("inputs",), technique=None,
      design=""):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                      files=files, mech=mech, note=note,
                      design=design,
                      technique=technique or "property-based testing (hypothesis) against a "
                                             "reference model"))


P("C01", "Slicing a field by index is NumPy slicing of its data and its coordinates",
  "Selecting from a scalar or vector field by index (integers, slices with any start / stop / step "
  "and sign, ellipsis, new axes, boolean masks or integer lists along one axis, in tuple or string "
  "form, 'axis=' named or positional) gives exactly the data NumPy selects. The coordinates of the "
  "result are exactly the selected nodes or cells, the axes that are left keep their names, center, "
  "time and metadata, and slice_keep / slice_reduce only differ in which length one axes survive. "
  "Selecting a vector component by name gives that component on the same coordinates.",
  "all 1-3D grids, uniform or not, node or cell centered, scalars and vectors in both layouts, all nonempty "
  "selections and chains of selections",
  "The tests slice a handful of fields with a fixed list of selections; corner cases depend on the "
  "combination of step sign, centering, uniformity, length and position of the axis.",
  ["viscid/field.py", "viscid/sliceutil.py", "viscid/coordinate.py"],
  [("selection parsing", "viscid/sliceutil.py"), ("coordinate slicing", "viscid/coordinate.py _make_slice"),
   ("data slicing", "viscid/field.py slice / slice_keep / slice_reduce / _finalize_slice")],
  "reference model in plain NumPy for data and coordinates; grids of up to 3 axes and a few nodes")

P("C02", "Slicing a field by location selects exactly the points inside the interval",
  "Selecting by location ('x=-3.0j:5.2j', f.loc[...], imaginary numbers, dates on a time axis) keeps "
  "exactly the grid points (nodes or cell centers) that are inside of the given interval, and a "
  "single location gives the nearest grid point. This holds on decreasing axes and for "
  "datetime / timedelta axes too, mixed with index selections on other axes, for scalars and vectors.",
  "all 1-3D grids and all locations: between points, on points, outside of the grid; time axes of "
  "datetime64 / timedelta64 / plain seconds with all ways to write a time",
  "The tests use a few locations on one or two grids; the answer depends on rounding, direction of "
  "the axis, centering and step.",
  ["viscid/sliceutil.py", "viscid/field.py", "viscid/coordinate.py", "viscid/npdatetime.py"],
  [("locations to indices", "viscid/sliceutil.py sel2slice / _closest_index"),
   ("loc indexer", "viscid/field.py _FldSlcProxy")],
  "reference model scans all grid points; locations nearer than 1e-9 to a decision boundary are avoided")

P("C03", "Assigning through a selection changes the selected elements and no others",
  "fld[selection] = value and fld.loc[selection] = value (set_slice) store exactly what NumPy "
  "assignment stores at exactly the elements that reading the same selection returns. All other "
  "elements, and the coordinates, are unchanged, for scalars, vectors in both layouts and single "
  "components, for numbers, arrays and fields on the right hand side.",
  "all grids, selections by index and location, and kinds of right hand sides",
  "Only one assignment is tested; writes through views, index arrays and component names take different "
  "paths.",
  ["viscid/field.py", "viscid/sliceutil.py"],
  [("set_slice", "viscid/field.py __setitem__ / set_slice / _FldSlcProxy")],
  "differential against NumPy assignment on a copy of the data")

P("C05", "How a field is stored never shows in what is read from it",
  "Reading a field, whole or through any selection, gives the same values whether its data is an "
  "array in memory, an HDF5 dataset, or a lazy wrapper, stored in z-y-x or x-y-z order, with "
  "reflected axes, as flat or interlaced vector, loaded before or after slicing. Converting "
  "between layouts never changes a value, and turning a reversed slice into a forward one plus a "
  "flip selects the same elements.",
  "all stores x grids x selections by index and location, before or after loading",
  "Tests read sample files whole; which reads happen before and after slicing, transposing, "
  "reflecting and relayout is a product of options that fixed files do not span.",
  ["viscid/field.py", "viscid/sliceutil.py", "viscid/readers/hdf5.py", "viscid/readers/vfile.py",
   "viscid/coordinate.py"],
  [("lazy slicing", "viscid/field.py _finalize_slice / _src_data_to_ndarray"),
   ("make_fwd_slice", "viscid/sliceutil.py"), ("reflection", "viscid/coordinate.py reflect_axes"),
   ("layouts", "viscid/field.py as_layout")],
  "differential between stores; the data of an in memory copy is the oracle", over=("inputs", "configurations"))

P("C06", "Cells lie between their nodes and fields can change grid without moving samples",
  "However coordinates are described (arrays, uniform limits, clists, with reflected axes), extents, shapes, "
  "spacings, node, cell, edge and face locations agree: cell centers are midpoints of nodes, extents are the "
  "first and last location. Changing the centering of a field, adding or dropping axes, rescaling or renaming "
  "coordinates and copying keep every sample value, and keep it at its location (inside of its new cell, for "
  "node to cell). Field constructors (zeros, ones, full, ..._like, arrays2field, dat2field, mfield, "
  "scalar_fields_to_vector, wrap_field) make fields of the asked shape, center, dtype and values.",
  "all 1-3D grids, uniform and nonuniform, all centers, reflected and lazily loaded fields",
  "The tests check a few grids; extents, centers and shapes are computed by different code for "
  "each kind of coordinates.",
  ["viscid/coordinate.py", "viscid/field.py", "viscid/vutil.py"],
  [("coordinate arrays", "viscid/coordinate.py"), ("centering", "viscid/field.py as_centered / as_cell_centered"),
   ("constructors", "viscid/field.py empty / arrays2field / dat2field")],
  "independent formulas for every coordinate array; samples tracked through each operation")

P("C07", "Arithmetic on fields is NumPy arithmetic on their data, on the same grid",
  "Operators, ufuncs, comparisons, reductions (with axis, by number or name, and keepdims), "
  "transposes, swapaxes and in-place operators on fields give exactly the values NumPy gives for their data, also between "
  "scalars and vectors of either layout, and the operands are not changed. The result lives on the "
  "coordinates that are left, in the right order. A downsampled field has the means of pairs of values where those are.",
  "all grids x layouts x operators x kinds of operands (numbers, arrays, scalar and vector fields)",
  "Tests compare a few sums; broadcasting vectors against scalars depends on layout, shape and order "
  "of operands.",
  ["viscid/field.py", "viscid/calculator/calc.py"],
  [("wrapping of results", "viscid/field.py wrap / __array_wrap__ / _ow"), ("transpose", "viscid/field.py"),
   ("integrals", "viscid/calculator/calc.py")],
  "differential against NumPy, integrals against the trapezoid rule and cumulative sums")

P("C09", "Interpolation is exact multilinear / nearest interpolation of the grid data",
  "Interpolating a field onto points gives the multilinear combination of the 2^d surrounding samples "
  "(clamped at the edges), or the value of the nearest sample, for every node or cell centered, "
  "uniform or nonuniform 1D, 2D or 3D grid, for scalar and vector fields of all supported dtypes; each point stands for itself, "
  "and neither field nor points are changed. Interpolating to a seed object or another grid gives "
  "those same values wrapped on the shape and coordinates of the target, and slicing a field at a "
  "location with interpolated_slice gives the linear interpolation to that location.",
  "all grids x dtypes x layouts x seed types x points in, on and outside of the grid",
  "The tests interpolate one analytic function and compare to a tolerance of the grid spacing.",
  ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx", "viscid/field.py", "viscid/coordinate.py"],
  [("interpolation kernels", "viscid/cython/cycalc.pyx"), ("grid setup", "viscid/cython/cyfield.pyx"),
   ("interpolated_slice", "viscid/field.py")],
  "a plain Python reference interpolator; nearest is not judged where two samples are equally near")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())


def main():
    lines, checks = [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        chk = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if not os.path.exists(chk):
            print("no check yet:", p["id"])
            continue
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        n = p["statement"].count(". ") + 1
        if n > 3:
            print(p["id"], "statement has", n, "sentences?")
        lines.append(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))))
        checks.append(dict(
            property=p["id"], quick_cmd="bin/check " + p["id"],
            thorough_cmd="bin/check {0} --tier thorough".format(p["id"]),
            evidence_file="evidence/{0}.json".format(p["id"]),
            technique=p["technique"], level="exploration",
            level_note="Random search with shrinking: absence of violations is shown for the generated "
                       "cases only. " + p["note"][0].upper() + p["note"][1:] + "."))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash /opt/vp/build.sh >/dev/null 2>&1; true", checks=checks,
                       not_applicable=[],
                       notes="Every check is generated-input search driven by vf/runner.py (hypothesis); "
                             "no hooks are needed in /repo."), f, indent=1)
        f.write("\n")
    design(sorted(PROPS, key=lambda p: p["id"]))


def bugs():
    """the table of planted bugs"""
    d = os.path.join(HERE, "seeded")
    out = ["| bug | property | result | needs | breaks |", "|---|---|---|---|---|"]
    for b in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, b, "meta.json")))
        out.append("| {0} | {1} | {2} | {3} | {4} |".format(b, m["property"], m.get("result", "caught"), m["needs"], m["what_it_breaks"]))
    return "\n".join(out)


def design(props):
    out = []
    for p in props:
        chk = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if not os.path.exists(chk):
            continue
        facets = re.findall(r'Facet\("(\w+)"', open(chk).read())
        out.append("### {0} {1}\n\n{2}\n\n*Domain*: {3}.  *Oracle and bounds*: {4}.  *Beyond the tests*: "
                   "{5}  Facets: {6}.  {7}\n".format(
                       p["id"], p["title"], p["statement"], p["text"], p["note"], p["why"],
                       ", ".join(facets), p["design"]))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixed = "\n".join("* " + f for f in known["fixed"])
    fixed += "".join("\n* known: {0} {1}".format(k["property"], k["what"]) for k in known["known"])
    s = open(os.path.join(HERE, "tools", "design.tmpl.md")).read()
    s = s.replace("@@PROPS@@", "\n" + "\n".join(out)).replace("@@FIXED@@", fixed)
    s = s.replace("@@EXTRA@@", open(os.path.join(HERE, "tools", "design_extra.md")).read())
    s = s.replace("@@BUGS@@", bugs())
    open(os.path.join(HERE, "DESIGN.md"), "w").write(s)


main()
