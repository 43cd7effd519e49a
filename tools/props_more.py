P("C11", "Streamlines follow the field and end as reported, however they are computed",
  "Each streamline goes through its seed, and each of its segments is one step of the requested integrator along the "
  "linearly interpolated field (adaptive steps within max_error, smallest_ds and largest_ds); it goes on until, and only until, it crosses "
  "the inner / outer boundaries, reaches maxit, max_length or max_t, or a null, and topology reports exactly those reasons. "
  "Lines and topology do not depend on nr_procs, threads, chunking, the order or kind of the seeds or the outputs asked for; "
  "reversing the field reverses the lines, and in a constant field lines are straight with exactly the length or time asked for.",
  "all 2D / 3D grids x fields (f4/f8/i4, both layouts and centers) x seeds x integrators x limits x ways to run in parallel",
  "The tests look at a dipole plot and compare a few topologies with another run; they never check single steps, "
  "limits or end flags.",
  ["viscid/cython/streamline.pyx", "viscid/cython/integrate.pyx", "viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx",
   "viscid/parallel.py", "viscid/seed.py"],
  [("tracing", "viscid/cython/streamline.pyx"), ("integrators", "viscid/cython/integrate.pyx"),
   ("chunking", "viscid/parallel.py")],
  "a vectorized reference interpolator and Butcher tableaus; rk45 is not judged in noise and next to nulls (its step "
  "can't be found from the segment), points within 1e-9 of a boundary are left open",
  over=("inputs", "schedules"))

P("C13", "Derivatives of fields are central differences, exact for linear fields",
  "Gradient, divergence, curl and convective derivative of node or cell centered fields are the central differences on the actual (also nonuniform) "
  "coordinates, one sided on the boundaries when asked to keep them, on the same grid and center as the field, and the same for every backend and layout. "
  "They are exact for linear fields, linear in the field, and curl of a gradient and divergence of a curl vanish; jacobians, divergence and curl at a point or index agree. "
  "Extending a field repeats or extrapolates data and coordinates next to the unchanged interior.",
  "all 3D grids (and 2D grids made 3D) x centers x layouts x f4/f8/i4 x backends x boundary modes",
  "The tests compare one analytic field per operator with a tolerance of the grid spacing, only cell centered.",
  ["viscid/calculator/calc.py", "viscid/calculator/necalc.py", "viscid/field.py", "viscid/coordinate.py"],
  [("numpy operators", "viscid/calculator/calc.py"), ("numexpr operators", "viscid/calculator/necalc.py")],
  "reference differences in numpy; staggered fields are in C15; corners of extended fields and shapes whose layout is ambiguous are not judged")

P("C14", "Field algebra, flux functions and plasma beta are their formulas on the data",
  "Sums, differences, products, norms, magnitudes, dot and cross products, projections and linear combinations of fields are the "
  "formula applied to the data, with every backend, layout, center, precision and number of dimensions; the result has the coordinates, center and precision "
  "of the operands, which stay unchanged. The flux function of a 2D field, or a 3D field with an invariant axis, starts at 0 and changes "
  "along each edge by the flux through it, and beta is 2 p / B^2 times the scale.",
  "all 1D - 3D grids (axes in any order for flux functions) x centers x layouts x f4/f8/i4 x operators x backends",
  "The tests compare a few backends with each other on one cell centered field and plot one flux function.",
  ["viscid/calculator/calc.py", "viscid/calculator/necalc.py", "viscid/calculator/plasma.py"],
  [("operators", "viscid/calculator/calc.py"), ("numexpr", "viscid/calculator/necalc.py"), ("psi, beta", "viscid/calculator/plasma.py")],
  "numpy formulas in f8; the sign of relative_diff is not judged (documentation and code disagree); shapes whose layout is ambiguous are not judged")

P("C15", "Face and edge centered fields keep each component at its own place",
  "Averages of face or edge centered fields to cell centers and their divergence use exactly the values on both sides of each cell, also when the faces are stored "
  "above instead of below the cells or in flipped (x, y) order and when an axis is invariant, and the coordinates of the result are the centers of those cells. "
  "The divergence of the curl of an edge centered potential vanishes in each cell. "
  "Interpolating such a field takes each component at its own points.",
  "all 3D grids (also with an invariant axis) x face / edge x leading / trailing x flipped x layouts x f4/f8/i4 x boundary modes",
  "The tests compare one analytic face field with a loose tolerance and never use edges, trailing or flipped fields.",
  ["viscid/calculator/ecfc.py", "viscid/field.py", "viscid/coordinate.py"],
  [("face and edge fields", "viscid/calculator/ecfc.py"), ("component coordinates", "viscid/field.py")],
  "reference averages in numpy; with bnd=True only the inner part and held values next to faces are judged; fields with two invariant axes and ambiguous layouts are not judged")

P("C16", "Seed generators put their points where they say, in the order of their axes",
  "Points of lines, planes, volumes, splines, spheres, caps, circles and patches are the documented ones for any center, pole, roll, limits, endpoints, coordinate system and "
  "number of points; iterating, meshes, local and uv coordinates all use the same order, and values wrapped on the seeds stay with their points. "
  "Closed meshes contain every seed, close the seam and the poles (with the mean around them) and have their normals outside. Generators don't change their arguments.",
  "all seed generators x parameters x ways to give them x values on the points",
  "The tests plot fields interpolated on one example per generator without looking at coordinates or order.",
  ["viscid/seed.py"], [("generators", "viscid/seed.py")],
  "reference formulas in numpy; the in-plane axis for a pole at exactly -z is arbitrary (only distances and angles are judged); order of (n, m, 3) point arrays isn't documented and left open")

P("C17", "Matrices, Euler angles, quaternions and axis-angles are the same rotation",
  "For all axis orders, conventions (extrinsic / intrinsic, order of transformation / multiplication), units, single rotations and stacks, each conversion gives the rotation of a reference implementation, "
  "and converting back gives the same rotation, also next to gimbal lock, half turns and the identity. Products and rotated vectors agree between matrices and quaternions. "
  "a2b_rot turns a to b the shortest way for any two vectors, then by roll around b, or so that x is along new_x; arguments stay unchanged (with one known finding).",
  "all angles, axes, quaternions (also integer and unnormalized ones) and vectors, single and stacked",
  "The repository's test tries a fixed set of angles and compares functions with their own inverses; its reference data files aren't in the repository.",
  ["viscid/rotation.py"], [("conversions", "viscid/rotation.py")],
  "scipy.spatial.transform.Rotation and Hamilton products; tolerance grows as 1e-14 / distance to gimbal lock; a2b_rot normalizes arrays of doubles in place: known finding")

P("C18", "Geocentric coordinate transformations are rotations that agree with each other",
  "At any time the transformations between gei, geo, gse, gsm, sm, mag and mhd are those of Hapgood (1992) with the IGRF dipole of that time: they are rotations, "
  "compose, invert each other and take vectors of any shape without changing them. 1 Jan 1967 has no tilt (unless asked), angles given by hand "
  "replace the dipole of the time, the dipole moment points along -z in sm, and moments, angles, axis and angle describe the same transformation. "
  "Fields, grids and datasets find their own system and transformation; what isn't known or implemented raises.",
  "all pairs of systems x times 1900 - 2100 x ways to give them x tilt / gsm angles x 3 or 4 dimensional matrices x vectors",
  "The tests look at two times and plot them; most pairs are 'untested' by the module's own comments.",
  ["viscid/cotr.py", "viscid/npdatetime.py", "viscid/tree.py"],
  [("transformations", "viscid/cotr.py"), ("decimal years", "viscid/npdatetime.py")],
  "reference matrices in numpy from integer dates; how to count decimal years is left open (1e-3 degrees); between 5 and 24 h from 1967-01-01 the no-tilt rule isn't judged")

P("C19", "Dipole fields and maps along their lines are those of the moment",
  "Fields and points filled with a dipole have the analytic dipole field of the moment (given as vector, strength or time) where each value (also of face and "
  "edge centered components) lives, only inside of the mask if there is one, and carry the transformation of that moment. Spherical masks are exactly the shell "
  "of points; weighted sums in a region change nothing else. Points mapped along dipole lines keep L shell, hemisphere and longitude, end at the radius asked for "
  "iff their line reaches it, and map back; mapped values are the ones at the mapped points.",
  "moments x strengths x times x systems x grids x centers x layouts x f4/f8 x masks (also with the origin in them) x points",
  "The tests use dipoles as input for other things and never look at the values.",
  ["viscid/dipole.py", "viscid/mapfield.py", "viscid/cotr.py", "viscid/field.py"],
  [("fill and masks", "viscid/dipole.py"), ("maps", "viscid/dipole.py")],
  "analytic formulas; points next to the center, the axis, the sm equator and the top of a line are left out; make_dipole's wiggle for nonuniform grids is taken from its coordinates; guess_dipole_moment (documented as inaccurate) is not judged")

P("C21", "Spherical, map and cartesian coordinates describe the same points",
  "Cartesian, spherical and latitude-longitude points convert into each other and back, in degrees or radians, for one point or many, also for integers. "
  "Fields on theta / phi or lat / lon turned into map, sphere or polar fields have every value at the same place on the sphere, with increasing axes in the order and unit asked for; "
  "polar fields have exactly the values within the bounding latitude of their pole, and the seam closes when asked to. "
  "Great circles start and end at their points, stay in one plane with the center, take the shorter way in even steps and change the radius linearly.",
  "points x units x all orders of axes x (non)uniform x centers x scalars / vectors x latitude ranges x hemispheres x bounding latitudes",
  "The tests draw map fields of one file and never look at coordinates.",
  ["viscid/mapfield.py", "viscid/coordinate.py", "viscid/field.py"],
  [("conversions", "viscid/mapfield.py"), ("fields", "viscid/mapfield.py")],
  "numpy formulas; each value of a field is unique, so that it can be followed; bounding latitudes on a ring of points and selections of one ring are left out; periodic seams are judged for full circles")

P("C20", "Times convert, add and print exactly, and never overflow silently",
  "Dates in ISO form, as OpenGGCM's YYYY:MM:DD:hh:mm:ss.ms, native or numpy, and numbers or H:M:S.ms strings of intervals, become the same instant whatever "
  "form, container or unit they came in. Sums and differences are exact in the most precise unit that holds everything; otherwise they are coarsened, or raise if asked "
  "not to be rounded (to zero). Ranges start and end where asked in even steps. Rounding to n decimals and formatting give the digits of the documented styles, "
  "with carries. A node's time relative to its basetime reads back the same in every form.",
  "dates 1700 - 2250 x formats x units as .. W x magnitudes up to 64 bits x options; numbers with up to 16 decimals; all documented format styles",
  "The tests plot a handful of dates; overflow, carries and lost digits show at particular magnitudes only.",
  ["viscid/npdatetime.py", "viscid/tree.py"],
  [("conversions and arithmetic", "viscid/npdatetime.py"), ("time of a node", "viscid/tree.py")],
  "exact integer attoseconds; conversions between units that numpy refuses must raise; rounding to a coarser unit may truncate; values within 2e16 of the 64 bit limit, and unit together with most_precise, are left out")

P("C23", "Fields saved to npz, HDF5 / XDMF or text files load as they were saved",
  "For any set of fields (scalars and vectors in either layout, cell or node centered, floats, integers and booleans, uniform and nonuniform crds, any name), saving and loading "
  "gives the same values, dtype kinds, names, coordinates and centering; HDF5 / XDMF pairs also keep time, basetime to the microsecond and crd_system, and may be moved together. "
  "Writing the file again replaces what was there, and what was loaded can be saved again. "
  "Columns of text files load as one field per column along the first one.",
  "fields x names x dtypes x layouts x grids of 1 - 3 dimensions x times x ways to give the fields x compression",
  "The tests load files made by other programs; nothing is ever written and read back except one plotted example.",
  ["viscid/readers/numpy_binary.py", "viscid/readers/hdf5.py", "viscid/readers/xdmf.py", "viscid/readers/ascii.py", "viscid/readers/vfile.py"],
  [("npz", "viscid/readers/numpy_binary.py"), ("hdf5", "viscid/readers/hdf5.py"), ("xdmf", "viscid/readers/xdmf.py"), ("ascii", "viscid/readers/ascii.py")],
  "vectors whose layout can't be told from the shape (number of components equals an axis length) are left out; npz files don't keep times; 1d and 2d HDF5 files are padded with axes of one node (names of axes not judged)")

P("C24", "OpenGGCM's fortran output loads as written, turned to gse when it should be",
  "3d, plane and ionosphere output (fortbin and jrrle) of any run has, for every time step asked for by any means and in any order, exactly the values of the file's records, at the coordinates "
  "of its grid2 file, with the time and basetime of its headers, no matter which fields were read before. "
  "Coordinates, components and vectors are turned from mhd to gse exactly when the setting or what is known of the run says so, staggered components where the run's log says they live. "
  "Parameters of log files come as numbers, lists or strings as written; names group into time series, however they are sorted.",
  "runs x grids x planes x times x fields x number formats x settings x logs x order of access",
  "The tests load one sample run per format and look at a plot; nothing compares values to what is in the file.",
  ["viscid/readers/openggcm.py", "viscid/readers/ggcm_fortbin.py", "viscid/readers/ggcm_jrrle.py", "viscid/readers/_fortfile_wrapper.py", "viscid/readers/ggcm_logfile.py", "viscid/readers/vfile.py"],
  [("files", "viscid/readers/ggcm_jrrle.py"), ("mhd2gse", "viscid/readers/openggcm.py"), ("groups", "viscid/readers/vfile.py")],
  "own writers of the formats in vf/ggcm.py; the side of a plane that isn't turned is left out (FIXME of the code); basetimes to 0.1 s")

P("C26", "XDMF files load what they describe, in whatever way they describe it",
  "Uniform and rectilinear grids, alone or in spatial and temporal collections, with data inline or in HDF5 files, of any number type, centering and name, scalar or vector, load with exactly "
  "the values, coordinates, times and information of the file; so do grids included from other files, wherever the files and the working directory are. "
  "OpenGGCM's XDMF output also has the right basetime, unit and coordinate system for its settings and logs, also for values that are sliced before they are loaded.",
  "grids x attributes x number types x formats x collections x ways to give times x includes x directories; OpenGGCM's x settings x logs x slices",
  "The tests load files of few kinds, and mostly compare to plots made before.",
  ["viscid/readers/xdmf.py", "viscid/compat/_xdmf_include.py", "viscid/readers/hdf5.py", "viscid/readers/ggcm_xdmf.py", "viscid/readers/openggcm.py", "viscid/field.py"],
  [("xdmf", "viscid/readers/xdmf.py"), ("includes", "viscid/compat/_xdmf_include.py"), ("openggcm", "viscid/readers/ggcm_xdmf.py"), ("lazy slices", "viscid/field.py")],
  "vectors whose layout can't be told from the shape are left out; topology / geometry that cascade from a parent grid, Range times, Tree / Subset grids and unstructured meshes aren't implemented by the reader")

P("C10", "Fields on many patches act as one field, and each patch as itself",
  "For any tiling of space with blocks, some of them refined once or twice, patches are neighbors iff they touch; arithmetic, comparisons, numpy functions and component selections "
  "act patch by patch, reductions over all values of all patches. A slice is made of exactly the patches it touches, each with the values in it. "
  "Interpolated values are the ones of the patch that holds the point, and streamlines cross the borders between patches, whichever patch was looked up before. "
  "AMR time series in files load with the patches of each time step.",
  "tilings x blocks x scalars / vectors x centers x operations x slices (also on and between the faces of patches) x points / seeds x methods x time steps",
  "No test makes an AMR field but from one sample; neighbor tables and cached patches depend on tilings and order.",
  ["viscid/amr_field.py", "viscid/amr_grid.py", "viscid/cython/cycalc.pyx", "viscid/cython/cyamr.pyx", "viscid/cython/streamline.pyx", "viscid/readers/xdmf.py"],
  [("patches", "viscid/amr_grid.py"), ("operations, slices", "viscid/amr_field.py"), ("interpolation", "viscid/cython/cycalc.pyx")],
  "single fields on each patch as the reference; slices in which a patch keeps no or one value are left out")

P("C25", "Athena's output loads as written, and derived fields follow from it",
  "Binary, tab, history and XDMF / HDF5 output of any grid of 1 - 3 dimensions, in either byte order and precision, loads for every time step in any order with exactly the values, cells and times of the files. "
  "Velocity, energy and pressure, whichever of conserved or primitive variables are in the file, are those of an ideal gas of the file's gamma, and vectors are made of their components.",
  "grids x variables (hydro / mhd, adiabatic / isothermal, conserved / primitive, scalars) x byte order x precision x times x order",
  "The tests load one run of Athena and compare plots.",
  ["viscid/readers/athena.py", "viscid/readers/athena_bin.py", "viscid/readers/athena_tab.py", "viscid/readers/athena_hst.py", "viscid/readers/athena_xdmf.py"],
  [("bin", "viscid/readers/athena_bin.py"), ("tab", "viscid/readers/athena_tab.py"), ("hst", "viscid/readers/athena_hst.py"), ("derived", "viscid/readers/athena.py")],
  "own writers of the formats; tab files with an x3 but no x2 axis do not occur")

P("C27", "Gkeyll and PSC output loads as written, moments and vectors included",
  "Gkeyll's HDF5 files of any number of dimensions, uniform or structured, load with every component under its name at its cells and time; velocities, pressures and vectors "
  "of each fluid are those of its five or ten moments. PSC's XDMF output loads for every time step with values, axes and vectors as in the files.",
  "grids x one - two fluids of 5 / 10 moments x times x staggering x components x order",
  "No test reads a Gkeyll or PSC file with more than one kind of fluid or mesh.",
  ["viscid/readers/gkeyll.py", "viscid/readers/psc.py", "viscid/readers/xdmf.py"],
  [("gkeyll", "viscid/readers/gkeyll.py"), ("psc", "viscid/readers/psc.py")],
  "own writers of the formats; formulas for the moments in numpy")

P("C28", "VPIC's binary output loads as written for any decomposition",
  "For any size, topology of ranks, stride and set of output times, every variable of fields and hydro dumps loads with the values the ranks wrote without their ghost cells, at their positions and "
  "times, scalar by scalar or as vectors, in any order of access, one patch per rank.",
  "local sizes x topologies x domains x dumps x species x times x order",
  "No test reads VPIC output.",
  ["viscid/readers/vpic.py", "viscid/amr_field.py", "viscid/dataset.py"],
  [("files", "viscid/readers/vpic.py"), ("deferred times", "viscid/dataset.py")],
  "own writer of the format; integer material fields are not judged")

P("C29", "Selecting times takes the steps in the selection, in order",
  "Whether given as index, value, date, interval, string or slice of them, with any step, relative to any basetime and in any unit, a selection of times from a dataset takes exactly "
  "the steps in it, in the order asked for, and times iterate with their values. Globs with a slice in the name of files take the files the slice asks for by their number.",
  "datasets of 1 - 9 times x basetimes x units x selections x forms; sets of file names x slices",
  "The tests try some selections of one list of times.",
  ["viscid/sliceutil.py", "viscid/dataset.py", "viscid/vutil.py"],
  [("times", "viscid/dataset.py"), ("names", "viscid/vutil.py")],
  "own selection in exact arithmetic; bare H:M:S as a single selection splits at the colons and is left out, so is the order of negative steps of globs")

P("C30", "Looking up fields by name, formula or handle finds the one that is meant",
  "In any tree of files, datasets and grids, looking up a field by name, by handle, by attribute of a parent or by formula gives the field, or the value of the formula with ordinary precedence, at "
  "the grid and time that is active, and raises for what is not there. Files opened by name, number, glob or again are the same files until they are closed, then they are gone from the bucket.",
  "histories of adding and removing handles; nested datasets x times x names x kinds and options of grids; random formulas; sets of files x globs",
  "The tests look up one field in one file; formulas, handles and histories are not tested.",
  ["viscid/bucket.py", "viscid/tree.py", "viscid/grid.py", "viscid/dataset.py", "viscid/calculator/evaluator.py", "viscid/readers/vfile_bucket.py"],
  [("handles", "viscid/bucket.py"), ("trees", "viscid/tree.py"), ("formulas", "viscid/calculator/evaluator.py"), ("files", "viscid/readers/vfile_bucket.py")],
  "reference models: dict of handles, python arithmetic; replacing a field in a grid leaves the old one under its number (documented)")

P("C31", "Work split over threads, processes and patches gives what one worker gives",
  "For any number of workers and any list, chunks hold every element once, in order, in nearly equal parts; mapping a function over a list with threads, processes, a given pool or none "
  "gives the results of a plain loop in order, and an exception in a worker reaches the caller. Fields, grids, datasets, seeds and transformations sent to another process, pickled or deep copied, arrive as they were, and are independent of what they were made from. make_multiplot plots each time of the selection once, in order, with its grid, whatever the number of workers.",
  "lengths x workers x argument forms x pools; failing workers; fields, grids, datasets, seeds, transformations, AMR fields and files x ways to send them; multiplot tasks",
  "The tests map one function over one list.",
  ["viscid/parallel.py", "viscid/multiplot.py"],
  [("chunks and map", "viscid/parallel.py"), ("plots of many times", "viscid/multiplot.py")],
  "reference: a plain loop, the object that was sent; processes are few, to keep the checks short; jrrle and VPIC files can not be pickled")

P("C32", "Settings, JSON and options are read as they are written",
  "JSON with comments and trailing commas loads as the same text without them, whatever strings hold. Settings in a viscidrc, in JSON or YAML, set the attributes they name and nothing else, and "
  "run the actions of the classes they touched. Python literals are read as what they spell, anything else in them is refused and never executed, and plot options are read as the names and values they spell.",
  "random JSON with comments; random settings trees; random literals and options",
  "The tests read one file of settings.",
  ["viscid/vjson.py", "viscid/_rc.py", "viscid/pyeval.py", "viscid/plot/vpyplot.py"],
  [("JSON", "viscid/vjson.py"), ("settings", "viscid/_rc.py"), ("literals", "viscid/pyeval.py"), ("options", "viscid/plot/vpyplot.py")],
  "reference: json of the uncommented text, python literals")

P("C33", "Minimum variance and magnetopause properties are those of the data",
  "Minimum variance directions are right handed, orthonormal and have the variances of the finite samples on the line, with l along the given basis or, where there is none or it is along the normal, "
  "the direction of most variance. Edges, width, shear, pressure and parallel field of the magnetopause are those of each column of cells, the fit is the best paraboloid, and cached results are the ones saved.",
  "vector series (f4/f8/i2/i4; with equal variances or large means); fields x lines x bases; current sheets x layouts x masks x caches",
  "No test computes any of it.",
  ["viscid/calculator/minvar_tools.py", "viscid/calculator/mpause.py"],
  [("directions", "viscid/calculator/minvar_tools.py"), ("magnetopause", "viscid/calculator/mpause.py")],
  "reference: covariance and per column loops in numpy; fits that say they did not converge are left out")

P("C22", "Nulls, clusters and separators are where the field has them",
  "In a field that is linear in a cell the null point is found where the field vanishes, whatever the axes, layout and precision, and a trilinear field has a null in each cell where one solution exists, "
  "inside that cell, and none elsewhere. Clusters hold the neighbors of each other, once, across periodic seams if there are any, and are averaged there. Bits of topology are those of the neighborhood, and separators lie where all four topologies of an analytic map meet.",
  "linear and trilinear fields x axes x layouts x precision; sets of points on periodic arrays; analytic and random topology maps x depths x seams x poles x seeds",
  "The tests find the nulls and one separator of a single analytic field.",
  ["viscid/cython/null_tools.pyx", "viscid/calculator/topology.py", "viscid/calculator/cluster.py", "viscid/calculator/separator.py"],
  [("nulls", "viscid/cython/null_tools.pyx"), ("topology", "viscid/calculator/topology.py"), ("clusters", "viscid/calculator/cluster.py"), ("separators", "viscid/calculator/separator.py")],
  "reference: exact null of a linear field, Newton from many starts in each cell, union-find, corners of analytic maps; seeds exactly on a separatrix and cells with pairs of nulls are left out")

P("C35", "Lines are resampled, integrated along, joined and colored as given",
  "Resampling lines gives the number of points asked for, on the lines, with their ends, and integrals and projections of a field along lines are those of its values at their points, each line by itself. "
  "Joining lines for plots keeps all points in order, connects each line to nothing but itself, and gives each point the color or value of its line or vertex, whatever form it is given in. "
  "Paths with patterns find exactly the items that match, and what is given is left as it was.",
  "lists of lines x factors x kinds; fields x reductions x masks; forms of colors; trees x patterns",
  "Tests only plot lines; none looks at the values.",
  ["viscid/calculator/calc.py", "viscid/vutil.py"],
  [("resample, integrate, project", "viscid/calculator/calc.py"), ("prepare_lines, resolve_path", "viscid/vutil.py")],
  "reference: numpy on each line; shapes that could be colors or values are left out")

P("C37", "Fluid elements go where the flow takes them, and curators keep their seeds",
  "Following fluid through a dataset in time, forward or backward, advances each seed by the velocity of its time, interpolated between the two times around it and scaled as asked for, over each time step from the "
  "start to the stop; each step is called back once, with the seeds, fields and lines of it, and the last points are returned. Curators remove exactly the seeds that are out of bounds or marked, "
  "or put them back where they were, or add new ones at their cadence, and nothing that was given to them is changed.",
  "datasets of 1 - 5 times x flows x time options x curators; histories of updates x bounds x fields",
  "No test follows fluid.",
  ["viscid/fluidtrace.py", "viscid/cython/streamline.pyx"],
  [("curators and follow_fluid", "viscid/fluidtrace.py")],
  "reference: exact solution for uniform and linear flow, own update of sets of seeds; starts before the first time are left out")

P("C38", "Plots show the data of the fields, lines and points they are given",
  "A 2D plot of a field shows each value in its cell, a contour lies where the field has its level, and a 1D plot goes through the values at their coordinates, scaled, flipped, masked and limited in color as the options say, "
  "with the labels, limits and bars asked for; options mean the same as keywords, as a string or as yaml. Lines are drawn through their points in the plane asked for with the values or colors of their points, arrows and streams show "
  "the vectors in the plane, points are where they are, and the earth has its size in the plane and its day toward the sun. Maps of the sphere show each value at its longitude and distance to the pole, with midnight down, north or south of the bounding latitude, and axes of dates and times stand where those times are. The field, lines and points are unchanged by it.",
  "fields x centerings x planes x options of plots x forms of options; lines x values x planes; vectors x layouts x steps; points; planes of the earth; maps x coordinates x hemispheres x bounds; axes of dates x slices x limits",
  "Tests only save pictures; none compares what they show.",
  ["viscid/plot/vpyplot.py"],
  [("fields", "viscid/plot/vpyplot.py plot2d_field, plot1d_field"), ("lines", "viscid/plot/vpyplot.py _prep_lines"), ("vectors, points, earth", "viscid/plot/vpyplot.py")],
  "reference: numpy; judged are the artists that matplotlib is given (meshes, segments, offsets, limits), not pixels")

P("C39", "The command line tools report and write what they were asked about",
  "viscid_diff finds exactly the fields, coordinates and times in which two files differ by more than the tolerances. Time series and 2D plots of files, alone or in several processes, have every selected time and variable with its values, "
  "options and names of files. Converted Athena output loads as the original does, and the small tools name the bits, colors and slices of lists of files as documented.",
  "pairs of files x differences x tolerances; files x times x selections x variables x options; runs of Athena x blocks; numbers, colors, names of files",
  "No test runs any of the tools.",
  ["scripts/viscid_diff", "scripts/viscid_ts", "scripts/viscid_2d", "scripts/athena2xdmf", "scripts/bitmaskbits", "scripts/rgb2hex", "scripts/fnslice", "viscid/multiplot.py"],
  [("diff", "scripts/viscid_diff"), ("time series", "scripts/viscid_ts"), ("plots", "viscid/multiplot.py, scripts/viscid_2d"), ("athena", "scripts/athena2xdmf"), ("small tools", "scripts/bitmaskbits, rgb2hex, fnslice")],
  "the scripts are run inside the checking process, with their standard output captured; reference: the arrays that the files were made of")

P("C40", "Labels next to lines, color maps and tick options are as asked for",
  "Labels next to lines have the text, color and size asked for and point to a place on their line; of the places around it that may be used, each takes one that overlaps least with the lines and labels drawn before, and among those the one next to the magnet. "
  "Sizes of texts and positions in points, pixels or fractions of the axes are what matplotlib draws. Color maps made from lists, names, tables or strings have exactly those colors, also reversed, and symmetric plots use limits and colors symmetric about zero. "
  "Locators and formatters given as options set the ticks and labels of their axis or color bar.",
  "lines x labels x paddings x candidates x zooms x scales; figures x resolutions; color maps x sources x numbers of colors; formats x locators x axes",
  "Tests only save pictures.",
  ["viscid/plot/mpl_direct_label.py", "viscid/plot/vpyplot.py", "viscid/plot/_cm_tools.py", "viscid/plot/_cm_cubehelix.py"],
  [("labels", "viscid/plot/mpl_direct_label.py"), ("ticks, symmetric colors", "viscid/plot/vpyplot.py"), ("color maps", "viscid/plot/_cm_tools.py, _cm_cubehelix.py")],
  "judged are the artists that matplotlib is given, not pixels")

P("C41", "Grids and datasets hold what was put into them, under the names it has",
  "Whatever the history of adding, replacing, naming and deleting, a grid has each field once, under its name and in the order it came, and a dataset has each of its children, by name and by index; a name that several have being the last one's; asking for anything else is an error. "
  "The active child of a dataset is the one chosen last that is still there, and what is asked from the dataset is asked from it. "
  "Deferred children are not made when they are added but when they are needed, and the coordinates of a grid are those of its fields.",
  "histories of operations on grids, datasets and datasets in time x deferred children x nesting x names",
  "Tests only load files.",
  ["viscid/grid.py", "viscid/dataset.py", "viscid/bucket.py", "viscid/tree.py"],
  [("grids", "viscid/grid.py"), ("datasets", "viscid/dataset.py")],
  "reference: lists and dicts")
