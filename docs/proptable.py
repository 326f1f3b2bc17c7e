ALLPY = ["pixell/enmap.py","pixell/curvedsky.py","pixell/utils.py","pixell/wcsutils.py","pixell/fft.py","pixell/lensing.py","pixell/pointsrcs.py","pixell/reproject.py","pixell/multimap.py","pixell/tilemap.py","pixell/interpol.py","pixell/coordinates.py","pixell/analysis.py","pixell/wavelets.py","pixell/uharm.py","pixell/aberration.py"]
NATIVE = ["cython/cmisc.pyx","cython/distances.pyx","cython/srcsim.pyx","cython/cmisc_core.c","cython/distances_core.c","cython/srcsim_core.c","fortran/interpol.F90","fortran/array_ops.F90","fortran/colorize.f90"]
PROPS = [
 dict(id="C01", title="Array arguments are left as they were",
  statement="Calling a public function or method never changes the contents, shape or element order of an array, list or dict the caller passed in, unless that argument is a documented output of the call (an out/omap-style target, an in-place option that was switched on, or copying switched off).",
  over=["inputs","configurations"], quant="all inputs and all combinations of option values of every public function and method, including the compiled kernels they call",
  why="A test sees the mutation only if it keeps the input and compares it afterwards, for the one option combination, memory layout and dtype under which the array is not copied on the way.",
  files=ALLPY+["cython/cmisc.pyx","cython/distances.pyx","cython/srcsim.pyx"], mech=[("documented output arguments","contracts/effects.json (audited table)"),("views and copies","pixell/enmap.py ndmap; pixell/utils.py")],
  note="May-alias/may-write analysis over all paths; sound up to the library models; in-place operators on arguments that may be plain numbers are reported as undecided."),
 dict(id="C02", title="The coordinate system of a map argument is never altered",
  statement="No operation changes the WCS or geometry object of a map, or a WCS passed to it: slicing, resampling, projecting, padding or recentering a map yields a new coordinate system and leaves the original's reference pixel, reference value, pixel size and axis types untouched. Copying a map copies its coordinate system.",
  over=["inputs","histories"], quant="all maps, geometries and sequences of operations on maps that may share a WCS object",
  why="Maps derived from each other may share one WCS object, so a write in one rarely used function silently re-registers other maps; tests look at the map they made, not at its relatives.",
  files=["pixell/enmap.py","pixell/wcsutils.py","pixell/curvedsky.py","pixell/reproject.py","pixell/tilemap.py","pixell/multimap.py"], mech=[("slicing","pixell/enmap.py ndmap.__getitem__, slice_geometry"),("geometry functions","pixell/enmap.py, pixell/wcsutils.py")],
  note="Access-path alias analysis of .wcs objects, with sharing behaviour of ndmap hooks derived from the source on every run."),
 dict(id="C03", title="Calls do not influence later calls",
  statement="What a function or method returns depends on its arguments (and its object's constructor arguments) alone: no result depends on the clock, the environment, or earlier calls through module variables, default-argument objects, caches with incomplete keys, memoised mutable results or attributes stored as a side effect; process-wide settings (warning filters, numpy error state, random state other than by documented seeding) are left as found.",
  over=["histories","inputs"], quant="every sequence of calls of public functions and methods in one process",
  why="Hidden state shows only in particular call sequences (same key with another parameter, second call with a mutated default); unit tests call each function once in a fresh state.",
  files=ALLPY+["pixell/memory.py","pixell/bunch.py"], mech=[("line-of-sight profile cache","pixell/utils.py tsz_profile_los"),("mutable default arguments","spin=[0,2], extra={} ... throughout"),("fft engine selection","pixell/fft.py set_engine")],
  note="Effect and dependence analysis; writes to state outside the audited list are violations unless the cache key depends on everything the cached value does."),
 dict(id="C04", title="Method and function forms of an operation agree",
  statement="A method of a map, multi-map, tile map or geometry object that offers the same operation as a library function gives the same result as that function called with the object and the same options: every option of the method is handed on to the corresponding option of the function, and options they share have the same default. A property that passes on an attribute of a contained object passes on that attribute and not another one.",
  over=["inputs","configurations"], quant="all wrapper methods, all options and option values",
  why="Each wrapper has up to a dozen options and tests call it with one or two, so an option that is dropped, crossed or given another default goes unnoticed.",
  files=["pixell/enmap.py","pixell/multimap.py","pixell/tilemap.py","pixell/uharm.py"], mech=[("ndmap methods","pixell/enmap.py class ndmap"),("ndmaps methods","pixell/multimap.py class ndmaps")],
  note="Per call site flow facts of options, plus comparison of default expressions."),
 dict(id="C05", title="Options given by the caller are honoured",
  statement="An option a function accepts is not silently dropped: each option reaches the lower-level operations it is meant to control on every code path that performs them, and no documented option is without any effect on result, side effects or errors.",
  over=["inputs","configurations"], quant="all functions, all options, all code paths (method selection, dimensionality, dtype)",
  why="Functions dispatch to several implementations and forward many keyword options to each; tests exercise the default options on one path.",
  files=ALLPY, mech=[("dispatch to sht methods","pixell/curvedsky.py alm2map, map2alm"),("source simulation","pixell/pointsrcs.py"),("reprojection","pixell/reproject.py"),("fft engines","pixell/fft.py")],
  note="Flow facts are existence claims per call site: they show an option arrives, not that the arithmetic done with it is right."),
 dict(id="C06", title="No code path fails on an internal inconsistency",
  statement="No branch of any public operation can stop with an error that is the library's own inconsistency rather than a verdict on the input: reading a name or attribute that does not exist, reading a local variable that the taken path never assigned, calling a library function with arguments it does not accept, or unpacking the wrong number of values.",
  over=["inputs","configurations"], quant="every statement of every module on every feasible path",
  why="Such errors sit in branches selected by unusual options; the tests cover a fraction of the branches and Python reports the error only when the line runs.",
  files=ALLPY+["pixell/enplot.py","pixell/colorize.py","pixell/cgrid.py","pixell/mpiutils.py","pixell/bunch.py","pixell/device.py","pixell/powspec.py","pixell/resample.py","pixell/sqlite.py"], mech=[("all modules","pixell/*.py")],
  note="Whole-tree scope, definite-assignment and call conformance analysis. Loops are assumed to run at least once; receivers of unknown class are only checked against the universe of known attribute names."),
 dict(id="C07", title="No result contains memory that was never given a value",
  statement="Every element of every array the library returns, and every value it computes from, was given a value by the operation itself or by the caller: pixels outside a footprint, multipoles beyond the input's, empty tiles, components without a transformation, padding and work arrays hold their documented default (normally zero), never whatever the allocator left behind, and this on every path through the options. Only the functions named empty hand out memory without a value.",
  over=["inputs","configurations","histories"], quant="every allocation in the Python, Cython, C and Fortran sources, every path from it to a read or a return, all option settings, all sizes",
  why="Fresh memory is usually zero, so a missing initialization gives the right answer in a test and garbage in a long-running process; which elements are affected depends on the footprint, the options and the allocation history.",
  files=ALLPY+NATIVE, mech=[("accumulation targets","pixell/pointsrcs.py, pixell/curvedsky.py, pixell/tilemap.py"),("padding and resampling","pixell/fft.py, pixell/enmap.py"),("work arrays of the kernels","cython/*_core.c, fortran/interpol.F90"),("partially filled outputs","pixell/curvedsky.py, pixell/reproject.py")],
  note="Typestate analysis per allocation site. That the indices of a loop together cover an array is taken for granted here (index ranges are the subject of C23), as is that unknown library functions fill an output they are given."),
 dict(id="C09", title="Unknown choices and unusable requests are refused",
  statement="Where an option selects one of a fixed set of named methods, modes, borders, projections, variants, formats or layouts, an unknown name is refused with an error and never silently treated as one of the others or ignored; every documented name is accepted and selects the implementation it names. Requests a function checks for and cannot honour (arguments of the wrong shape or dtype, counts that do not match, options the chosen method does not support) are refused with an error rather than processed.",
  over=["inputs","configurations"], quant="all functions with named choices, every string value of the option, all settings of the other options; all argument checks",
  why="The set of wrong names is infinite and tests use the right ones; a choice that falls through to a default gives a plausible but different result.",
  files=["pixell/enmap.py","pixell/curvedsky.py","pixell/utils.py","pixell/interpol.py","pixell/reproject.py","pixell/pointsrcs.py","pixell/lensing.py","pixell/fft.py","pixell/wcsutils.py","pixell/aberration.py","pixell/powspec.py","pixell/bunch.py","pixell/colorize.py"], mech=[("sht method selection","pixell/curvedsky.py alm2map, map2alm, get_method"),("interpolation modes","pixell/utils.py _ip_get_mode; pixell/interpol.py map_coordinates"),("rounding modes, projections, file formats","pixell/enmap.py subinds, create_wcs, read_map, write_map")],
  note="The unknown value is folded through comparisons, dispatch dictionaries and calls; branches that depend on it in a way not understood make the option undecided. Loops are taken to run at least once."),
 dict(id="C10", title="A simulation is determined by its seed",
  statement="When a seed is given to a map or harmonic-coefficient simulation function, its result is a function of the arguments alone: every random number drawn, under any option setting, is determined by the seed and not by the prior state of the random generator or an unseeded source, and every seed argument affects the result. Simulation functions without a seed argument draw only from numpy's global generator.",
  over=["inputs","histories","configurations"], quant="all seeds including 0, all option settings, all prior states of the generator",
  why="Checking equal results for two calls in a fresh process cannot show independence of every prior generator state, nor that every draw in every option branch is seeded.",
  files=["pixell/curvedsky.py","pixell/enmap.py","pixell/lensing.py","pixell/uharm.py","pixell/analysis.py"], mech=[("white alms","pixell/curvedsky.py rand_alm_white, fill_gauss"),("flat-sky simulations","pixell/enmap.py rand_map"),("lensed simulations","pixell/lensing.py rand_alm, rand_map")],
  note="The generator state is tracked as a value through seeding and drawing."),
 dict(id="C16", title="Compiled cores give the same result for any number of threads",
  statement="The result of every compiled operation that runs in parallel (alm algebra, distance transforms, source simulation, interpolation, array operations, colour mapping) does not depend on the number of threads or the order in which they run: no thread reads or overwrites what another may be writing, sums over threads lose no contribution, and no thread's private work values leak into another's.",
  over=["schedules","inputs","configurations"], quant="every parallel region, every number of threads, every interleaving and assignment of iterations to threads, all inputs",
  why="A race shows only under particular timing, with several threads and enough work; tests run small cases, often with one thread, and a corrupted pixel among millions is not looked for.",
  files=[f for f in NATIVE if not f.endswith(".pyx")], mech=[("parallel loops over m and l","cython/cmisc_core.c"),("heap and propagation work arrays","cython/distances_core.c"),("cells and thread-local maps","cython/srcsim_core.c"),("interpolation and its transpose","fortran/interpol.F90"),("per-pixel matrices","fortran/array_ops.F90"),("colour tables","fortran/colorize.f90")],
  note="Sharing analysis per element; index arrays that hold different places are an audited list. Floating-point sums may differ in rounding order between schedules where the code uses atomic sums; that is not counted."),
 dict(id="C17", title="Results are independent of the arguments unless documented",
  statement="A returned array does not share memory with an array argument, so that changing one later leaves the other alone, except where the result is by design a view or the given array itself (slicing, axis reordering, in-place options, copying switched off, output arguments). Output arguments, where given, receive the result and are what is returned, as are arrays processed in place.",
  over=["inputs","configurations"], quant="all public functions, all option settings, all inputs including those for which the operation is trivial",
  why="Sharing is invisible in the returned values; it matters only when the caller later modifies one of the arrays, which tests of values never do.",
  files=ALLPY, mech=[("copy and inplace options","pixell/curvedsky.py, pixell/enmap.py, pixell/utils.py"),("output arguments","out=/omap= throughout")],
  note="May-alias analysis against an audited table."),
 dict(id="C22", title="Units, signs, axis order and pixel origin are converted as documented",
  statement="Angles are in radians, positions in [dec,ra] order and pixels 0-based in [y,x] order everywhere in the interface, while WCS objects and FITS headers hold degrees in (ra,dec) order with 1-based reference pixels; resolutions, beam widths, frequencies, wavenumbers and physical constants have their documented units. Every quantity that is handed on, whether returned, stored in an attribute or array element, or passed to another function, carries the conversion factor, sign, axis order, element index and offset that its destination expects, on every path and for every option setting.",
  over=["inputs","configurations"], quant="all functions of the Python layer and of the compiled cores, all paths, all input values",
  why="The conversions are spread over some thousand expressions in branches chosen by projection, option and dimensionality; a half-pixel offset, swapped axis or missing unit in one branch gives plausible numbers for square, symmetric or origin-centred test maps.",
  files=ALLPY+NATIVE, mech=[("pixel and sky coordinates","pixell/enmap.py pix2sky, sky2pix, slice_geometry, geometry"),("WCS construction","pixell/wcsutils.py"),("wavenumbers and extents","pixell/enmap.py laxes, extent_*"),("catalogues","pixell/pointsrcs.py read/write"),("coordinate transforms","pixell/coordinates.py, pixell/aberration.py")],
  note="Affine-relation analysis against an audited table; products and sums of sources are followed exactly, other functions are opaque. A formula rewritten in terms of other sources is undecided."),
 dict(id="C23", title="Loops, blocks, slices and limits address exactly the elements they should",
  statement="Work that is done block by block, tile by tile or chunk by chunk gives every row, sample and pixel its turn exactly once whatever the sizes of the map and the block; slices, pads, crops, wraps and quadrants of Fourier space start and end at exactly the elements their geometry says, also for odd sizes and zero widths; loops run the intended number of times; limits (multipoles, ranges, thresholds) are inclusive or exclusive as documented; whole-number divisions round in the intended direction.",
  over=["inputs","configurations"], quant="all functions of the Python layer and of the compiled cores; all array sizes, block sizes, pad widths and limits",
  why="An off-by-one in a bound shows only for sizes in a particular relation to the block size, for odd lengths, or for values exactly at a limit; tests use a few sizes, mostly smaller than one block.",
  files=ALLPY+NATIVE, mech=[("block loops","pixell/enmap.py posmap, pixshapemap, project; pixell/curvedsky.py calc_locinfo; pixell/lensing.py; pixell/reproject.py"),("pads, crops and extracts","pixell/enmap.py pad, crop_geometry, subinds; pixell/utils.py sbox_*"),("fourier quadrants","pixell/enmap.py resample_fft; pixell/resample.py; pixell/fft.py"),("tiles","pixell/tilemap.py; pixell/enmap.py Padtiler"),("binning","pixell/utils.py bin_data, expbin"),("multipole loops and pixel boxes of the cores","cython/cmisc_core.c, cython/srcsim_core.c, cython/distances_core.c")],
  note="Bounds as polynomials in sizes and parameters, compared with an audited table; in addition a covering rule for block loops and a rule against bounds counted from the end by a possibly zero width, both decided without the table. Elements selected by computed index arrays are not followed."),
 dict(id="C24", title="Compiled code releases its memory exactly once and never uses it afterwards",
  statement="Every compiled operation releases all the memory it allocates for its own use before it returns, on every path through it, releases nothing twice, and never reads, writes or hands on memory that has been released; the arrays it returns stay valid for as long as the caller keeps them. Pointers it keeps refer only to arrays that are kept alive, and objects that own memory release all of it when they are destroyed.",
  over=["inputs","histories"], quant="all C functions and Cython wrappers, all inputs, every path through the code, any number of calls",
  why="A leak or a use after release changes no result until memory runs out or is reused by something else, so a test of a single call cannot see it; it often needs a particular early exit, an empty input or a buffer that has to grow.",
  files=[f for f in NATIVE if f.startswith("cython")], mech=[("growing lists and heaps","cython/distances_core.c pointvec_*, pointheap_*; cython/srcsim_core.c intlist_*"),("cells of the distance transform","cython/distances_core.c allocate_cell, fill_cell, cell_solve_until, finish_cell"),("work arrays of the source simulation","cython/srcsim_core.c sim_objects, assign_cells, process_cell, calloc_pppf"),("results handed to python","cython/distances.pyx find_edges*, healpix_info; cython/srcsim.pyx")],
  note="Ownership analysis on every path with calls inlined. For the elements of arrays of pointers it is decided that some release exists, not that each element is released exactly once. Allocation is taken to succeed; exits through a failed assertion in the wrappers are not judged. The Fortran cores use allocatable arrays, which the language releases."),
]
NA = [
 dict(id="N01", title="Spherical harmonic transforms are accurate and mutually adjoint",
  statement="Synthesising a band-limited set of coefficients onto a supported pixelisation and analysing the map gives the coefficients back to numerical precision, and each transform's adjoint satisfies the dot-product identity with it.",
  over=["inputs"], quant="all band-limited coefficient sets and supported geometries", why="Tests sample a few geometries and band limits.", files=["pixell/curvedsky.py"], mech=[("transforms","pixell/curvedsky.py alm2map, map2alm")],
  reason="Numerical accuracy of ducc0's transforms and of the ring/pixel bookkeeping depends on floating point values; no static argument in reach bounds it. Option forwarding, purity and buffer handling of these functions are covered by C01, C05 and C17."),
 dict(id="N02", title="Sky and pixel coordinates are inverse to each other",
  statement="Converting pixel indices to sky coordinates and back returns the same indices to numerical precision for every supported projection, and derived geometries (slices, crops, pads, up- and downgrades) put each pixel at the same sky position as the original.",
  over=["inputs"], quant="all geometries, pixels and derived geometries", why="Tests sample a few projections and pixels.", files=["pixell/enmap.py","pixell/wcsutils.py"], mech=[("pix2sky, sky2pix","pixell/enmap.py"),("slice_geometry","pixell/enmap.py")],
  reason="A statement about floating point values computed by wcslib and by arithmetic on reference pixels; deciding it needs execution or symbolic algebra rather than dataflow."),
 dict(id="N03", title="Interpolation, lensing, reprojection and aberration are accurate",
  statement="Interpolated, lensed, aberrated and reprojected maps agree with the exact values at the displaced positions to the documented tolerance.",
  over=["inputs"], quant="all maps and displacements", why="Tests compare a few maps.", files=["pixell/interpol.py","pixell/lensing.py","pixell/reproject.py","pixell/aberration.py"], mech=[("interpolation kernels","fortran/interpol.F90")],
  reason="Quantitative accuracy over runtime data; outside what dataflow can decide."),
 dict(id="N04", title="Distance transforms give true distances",
  statement="Distances from points and masks computed with the fast methods equal the brute-force angular distances to the documented accuracy.",
  over=["inputs"], quant="all point sets and masks", why="Tests sample a few point sets.", files=["pixell/enmap.py","cython/distances_core.c"], mech=[("wavefront propagation","cython/distances_core.c")],
  reason="Correctness of the wavefront approximation is numerical; memory and threading aspects of the kernels are separate properties."),
]
