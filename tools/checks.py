"""Registry of the checks: which harness decides which property, and within what bounds."""


def cpp(prop, explanation, quick, thorough, **kw):
    c = {
        "binary": kw.pop("binary", prop),
        "sources": kw.pop("sources", [(prop + ".cc", [])]),
        "explanation": explanation,
        "bounds": {"quick": quick, "thorough": thorough},
        "args": kw.pop("args", []),
    }
    c.update(kw)
    return c


CHECKS = {}

CHECKS["T01"] = cpp(
    "T01",
    "every construction word (including none types and both spellings of the first bit) is built through every public "
    "route and compared with a word model: predicates, Id round trip, printed name; equality and order on all pairs",
    "all types up to dimension 13; all pairs up to dimension 8 and within dimensions 9 to 11",
    "all types up to dimension 15; all pairs up to dimension 10 and within dimension 11")
CHECKS["T02"] = cpp(
    "T02",
    "every type of every dimension is indexed and looked up again; the index tables are compared with a counting model",
    "all types up to dimension 16", "all types up to dimension 20")
CHECKS["T03"] = cpp(
    "T03",
    "every type is dispatched to compile-time code; every sequence of singleton requests over a small alphabet of "
    "(type, key, static or dynamic) is executed against a map model",
    "all types up to dimension 5; request sequences up to length 5 over 4 types x 2 keys",
    "all types up to dimension 5; request sequences up to length 6 over 4 types x 2 keys")

CHECKS["R01"] = cpp(
    "R01",
    "every reference element is compared with an explicit face lattice built from vertex lists: sizes, types, numbers of "
    "sub-entities of sub-entities, ordered lists, membership, comparisons, hashes, all access routes",
    "all topologies up to dimension 6 (double), 4 (float); all (i, c, ii, cc)",
    "all topologies up to dimension 7 (double), 4 (float); all (i, c, ii, cc)")
CHECKS["R02"] = cpp(
    "R02",
    "positions are compared with corner means, volumes with the exact integer reciprocal, outer normals with the "
    "determinant construction from the facet's own frame and with the closed-surface identity",
    "all topologies up to dimension 7 (double), 4 (float), 3 (long double); all sub-entities",
    "all topologies up to dimension 8 (double), 4 (float), 3 (long double); all sub-entities")
CHECKS["R03"] = cpp(
    "R03",
    "every lattice point in a box around the element is classified and compared with exact integer membership; every "
    "boundary lattice point is also moved across each of its faces by a rounding error and by a real distance",
    "all topologies up to dimension 6; lattice spacings 1/64 (1d), 1/64 and 1/12 (2d), 1/32 and 1/6 (3d), 1/8 (4d), 1/4 (5d, 6d)",
    "all topologies up to dimension 7; spacings 1/64 (1d), 1/256 (2d), 1/64 (3d), 1/16 (4d), 1/8 (5d), 1/4 (6d), 1/2 (7d)")
CHECKS["R04"] = cpp(
    "R04",
    "every sub-entity embedding is evaluated on all lattice points of the sub-entity and compared with the affine model map "
    "of its corners: value, derivative, inverse, measure, type, and consistency with numbering and positions",
    "all topologies up to dimension 5 (double), 3 (float); all sub-entities; lattice spacing 1/4 or 1/2",
    "all topologies up to dimension 6 (double), 3 (float); all sub-entities; lattice spacing 1/4 or 1/2")

CHECKS["G01"] = cpp(
    "G01",
    "every full-rank integer matrix over a small entry range is used as the linear part of an affine geometry built through "
    "every constructor; all results are compared with exact linear algebra on all lattice points, on points outside of the cell and off the image",
    "all topologies up to dimension 3 in up to 4 coordinates; matrix entries -3..3 (1d, 2x2), -1..1 (3x2, 4x2, 3x3), 0..1 (4x3; 4x4 for three topologies)",
    "the same with entries -5..5 (2x2), -2..2 (3x2) and -1..1 (4x3), all topologies of dimension 4")
CHECKS["G02"] = cpp(
    "G02",
    "every choice of axes and every box over a small alphabet of bounds per coordinate is compared with the scaling map, inside and outside of the unit cube",
    "dimensions up to 4 in up to 4 coordinates; 3 lower ends x 3 extents per coordinate (above, at and below the lower end off the axes); every axis set",
    "the same, and dimensions 2 and 5 in 5 coordinates")
G03_SOURCES = [("G03.cc", ["-DPART=%d" % i]) for i in range(4)]
CHECKS["G03"] = cpp(
    "G03",
    "every assignment of displacements from a small alphabet to the corners of every topology, over several base maps and all "
    "corner storages, is compared on all lattice points (and close to the tips of cones) with an independent corner-interpolating map and its derivative",
    "all topologies up to dimension 3 (all corner subsets moved, by two vectors) and 4 (one corner moved), cdim up to 4; lattice spacing 1/8 to 1/2",
    "the same with three displacement vectors per corner in 2d and spacing 1/8 in 3d",
    sources=G03_SOURCES, args=["--param", "mode=forward"])
CHECKS["G04"] = cpp(
    "G04",
    "for every corner assignment of the family the image of every lattice point is mapped back and compared with the point",
    "all topologies up to dimension 3 (all corner subsets moved, by two vectors) and 4 (one corner moved), cdim up to 4; lattice spacing 1/8 to 1/2",
    "the same with three displacement vectors per corner in 2d and spacing 1/8 in 3d",
    binary="G03", sources=G03_SOURCES, args=["--param", "mode=inverse"])
CHECKS["G06"] = cpp(
    "G06",
    "every sequence of calls (queries, copies, assignments from another geometry) up to a length is executed on a caching "
    "geometry and every answer is compared with the non-caching class; affine and non-affine geometries in all roles",
    "all topologies up to dimension 3; 12 operations; histories up to length 5 (1d, 2d) and 4 (3d)",
    "all topologies up to dimension 3; 12 operations; histories up to length 6 (1d, 2d) and 5 (3d)")
CURVED = dict(binary="curved", sources=[("curvedmain.cc", []), ("G07.cc", []), ("G08.cc", [])])
CHECKS["G07"] = cpp(
    "G07",
    "quadratic mappings with every single and every pair of coefficients perturbed are composed with multilinear, affine and "
    "sub-entity geometries and compared with the exact polynomial composition and its derivative on all lattice points",
    "all topologies up to dimension 3; all coefficient pairs; inner geometries with every corner moved (3d: three of them)",
    "all topologies up to dimension 3; all coefficient pairs; inner geometries with every corner moved", args=["--param", "mode=forward", "--param", "which=mapped"], **CURVED)
CHECKS["G08"] = cpp(
    "G08",
    "Lagrange elements of order 1 to 3 with every subset (small elements) or every pair (large elements) of nodes moved are "
    "compared on all lattice points with the exact polynomial they interpolate; all constructors, copies and assignments",
    "line, triangle, quadrilateral, tetrahedron, prism, pyramid, hexahedron; orders 1 to 3; curves and surfaces in up to 3 coordinates; all node subsets of elements with up to 10 nodes",
    "the same with all node subsets of the biquadratic surface and finer lattices",
    args=["--param", "mode=forward", "--param", "which=elements"], **CURVED)
CHECKS["G09"] = cpp(
    "G09",
    "for every curved geometry of the two families the images of all lattice points are inverted, with every iteration limit "
    "and tolerance of a small alphabet, and targets off the image are inverted; every returned point must solve the problem",
    "the geometries of G07 and G08; iteration limits 0 to 3 and default; tolerances default and 1e-2",
    "the geometries of G07 and G08 (thorough bounds); iteration limits 0 to 3 and default; tolerances default and 1e-2",
    args=["--param", "mode=inverse", "--param", "which=both"], **CURVED)
CHECKS["G10"] = cpp(
    "G10",
    "the volume of every curved geometry of the two families is compared with an independent tensor Gauss integration, for "
    "several tolerances and for explicit rules",
    "the geometries of G07 and G08; tolerances 1e-2, 1e-5, default", "the geometries of G07 and G08 (thorough bounds)",
    args=["--param", "mode=volume", "--param", "which=both"], **CURVED)

CHECKS["G12"] = cpp(
    "G12",
    "every corner assignment of the family and every box is scaled, stretched and moved by exact powers of two; the answers of all geometry "
    "classes, scaled back, are compared on all lattice points with the model of the original cell",
    "all topologies up to dimension 3 in up to 3 coordinates; sizes 2^-60 to 2^60, proportions up to 2^8, distances up to 2^20 sizes; all corner subsets (3d: single corners) moved",
    "all topologies up to dimension 3 in up to 3 coordinates; sizes 2^-70 to 2^70 in 14 steps, proportions up to 2^8, distances up to 2^20 sizes; all corner subsets moved")

CHECKS["G13"] = cpp(
    "G13",
    "every integer matrix of each shape with entries in a small range, at three scales, is handed to the matrix routines of the geometry "
    "traits; volume elements, pseudo-inverses and their products with vectors are compared with exact integer arithmetic",
    "all shapes up to 4 x 4; entries -9..9 (1x1) to -2..2 (2x3, 2x4), -1..2 (3x3), -1..1 (3x4), 0..1 (4x4); double at scales 2^-40, 1, 2^40 and float",
    "all shapes up to 4 x 4; entries -9..9 (1x1) to -3..3 (2x3), -2..2 (2x4, 3x3), -1..1 (3x4), 0..1 (4x4); double at scales 2^-40, 1, 2^40 and float")

CHECKS["G14"] = cpp(
    "G14",
    "the documented iteration (Gauss-Newton steps from the centre, shortened by theta until the residual decreases) is carried out independently "
    "for every map, target and set of options; local() of mapped and element geometries must succeed or fail as it does and find the same point; "
    "searches that rounding might decide are left out and counted",
    "all cubic maps of the line with coefficients up to 5 (also as plane curves), quadratic maps of triangle and square with coefficients up to 2; "
    "iteration limits 0, 1, 2, 3, 5, 100; line search limits 1, 2, 3, 10; three reduction factors; two tolerances",
    "the same with coefficients up to 8 (line) and 3 (plane) and finer targets")

CHECKS["V02"] = cpp(
    "V02",
    "all histories of creations, copies, moves, assignments (also to itself and to default constructed objects), swaps, deletions and "
    "questions with two objects and three contents; after each history the remaining objects answer as untouched ones; memory of deleted objects is guarded",
    "24 classes of geometries, rules, vertex orders and reference elements; histories of length 4 (5 for small objects)",
    "24 classes of geometries, rules, vertex orders and reference elements; histories of length 5 (6 for small objects)", flags=["-O1", "-fsanitize=address"])

QUAD = dict(binary="quadrature", sources=[("Q01.cc", []), ("Q06b.cc", [])], flags=["-O2"],
            libs=["/opt/dune/venv/lib/libdunecommon.a", "-lopenblas", "-lquadmath", "-lm", "-ldl"])
CHECKS["Q01"] = cpp(
    "Q01",
    "every rule of every family, type and order integrates every monomial up to its degree; compared with exact moments",
    "all topologies of dimensions 0 to 5; all orders in 1d and 2d, up to 61 in 3d, 14 in 4d, 6 in 5d; all monomials in 1d and 2d, "
    "in 3d up to degree 26, in 4d up to 8, beyond that the top two degrees and all pure powers",
    "all topologies up to dimension 5; all orders up to 3d, 24 in 4d, 10 in 5d; all monomials up to degree 50 (3d), 16 (4d), 8 (5d)",
    args=["--param", "mode=exact", "--param", "field=double"], **QUAD)
CHECKS["Q02"] = cpp(
    "Q02",
    "every point of every rule is classified; end points (on the line, in prismatic directions, on the base of cones), point counts, positivity (1d), types and orders are compared with the family's definition",
    "all topologies up to dimension 5; all orders up to 3d, 20 in 4d, 8 in 5d",
    "all topologies up to dimension 5; all orders up to 3d, 24 in 4d, 10 in 5d",
    args=["--param", "mode=placement", "--param", "field=double"], **QUAD)
CHECKS["Q06"] = cpp(
    "Q06",
    "the rules for single, extended and quadruple precision integrate every monomial up to their degree to the precision of their number type",
    "all topologies up to dimension 3; all orders in 1d and 2d, up to 30 in 3d; quadruple precision: all orders on the line, up to 16 on the square",
    "all topologies up to dimension 3; all orders; all monomials up to degree 20 (3d); quadruple precision: all orders on the line, up to 16 on the square",
    args=["--param", "mode=exact", "--param", "field=other"], **QUAD)
CHECKS["Q03"] = cpp(
    "Q03",
    "every order from far below zero to far beyond the tables is requested for every type and family; every history of requests is run in a "
    "fresh process and each answer, the identity of repeated answers and the rules handed out before are compared with a single request",
    "limits: all types up to dimension 4, up to dimension 2 all orders from -16 to 300; histories: all of length 2 over 109 requests, 3 over 24, 5 over 8",
    "limits: the same; histories: additionally all of length 4 over 24 requests, 6 over 8")

REFINE = dict(binary="refinement", sources=[("F01.cc", [])], flags=["-O1"])
CHECKS["F01"] = cpp(
    "F01",
    "every supported pair of shapes is refined with every number of intervals; the parts are put on the integer lattice and volumes, facet "
    "neighbours, sides and boundary are compared exactly, once by vertex indices and once by the geometries of the parts",
    "dimension 1: 300 and 70000 intervals, 2: 60 and 370, 3: 20 and 41, 4: 7, 5: 3; static and run-time interface; double and float",
    "dimension 1: 600 and 70000 intervals, 2: 100 and 370, 3: 28 and 50, 4: 9, 5: 4; static and run-time interface; double and float",
    args=["--param", "mode=tiling"], **REFINE)
CHECKS["F02"] = cpp(
    "F02",
    "every vertex and part of every refinement is visited: indices, announced counts, vertex indices, centres, geometries and lattice points are compared; announced counts are extrapolated to all interval counts",
    "dimension 1: 300 and 70000 intervals, 2: 60 and 370, 3: 20 and 41, 4: 7, 5: 3; static and run-time interface; double and float",
    "dimension 1: 600 and 70000 intervals, 2: 100 and 370, 3: 28 and 50, 4: 9, 5: 4; static and run-time interface; double and float",
    args=["--param", "mode=indices"], **REFINE)
CHECKS["F03"] = cpp(
    "F03",
    "the run-time selected refinements are compared entry by entry with the compile-time ones, all pairs of shapes are tried, and every history of "
    "iterator operations (begin, end, increment, assign, self-assign, copy) on two iterators is replayed against a position model under AddressSanitizer",
    "all pairs of shapes up to dimension 4; iterator histories of length 4 over up to 20 operations on two iterators (same shape with other interval counts: 3), across shapes and interval counts",
    "all pairs of shapes up to dimension 4; iterator histories of length 5 over up to 20 operations on two iterators (1d: 6; same shape with other interval counts: 4), across shapes and interval counts",
    flags=["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"])
CHECKS["Q05"] = cpp(
    "Q05",
    "every composite rule over the refined simplex is built; exactness on all monomials, and the content of every part compared with the base rule",
    "simplices up to dimension 4, all families; 1d: 40 intervals, order 61; 2d: 16, 24; 3d: 6, 12; 4d: 3, 6",
    "simplices up to dimension 4, all families; 1d: 80 intervals, order 61; 2d: 24, 40; 3d: 8, 16; 4d: 4, 8", flags=["-O2"])

CHECKS["V01"] = cpp(
    "V01",
    "every order of the vertex ids of a cell (and every pattern of ties) is reduced and read back for every subentity by iteration, by the reduced order "
    "and by random access; compared with ranks computed by sorting; iterators of all pairs of subentities are compared",
    "all topologies up to dimension 4; all permutations up to 9 vertices, all words with n letters up to 6 vertices, 3 letters up to 8, 2 letters up to 16; dimension 5 up to 8 vertices; "
    "all transpositions and rotations beyond",
    "all topologies up to dimension 4; all permutations up to 10 vertices, all words with n letters up to 6 vertices, 4 letters up to 8, 3 letters up to 10, 2 letters up to 16",
    flags=["-O2"])

PYTHON_LIBS = ["/opt/dune/venv/lib/libdunecommon.a", "-lpython3.12", "-lopenblas", "-lm", "-ldl"]
CHECKS["T04"] = cpp(
    "T04",
    "every type is named and read back; every text over the constructor names, misspellings, argument lists and broken lists is parsed and compared "
    "with an independent reading; every dimension and vertex count is looked up",
    "all types up to dimension 14; 25 names with 0 to 3 arguments in all spacings; vertex counts up to 300 in dimensions up to 8",
    "all types up to dimension 18; 25 names with 0 to 3 arguments in all spacings; vertex counts up to 300 in dimensions up to 8",
    flags=["-O1", "-isystem", "/usr/include/python3.12", "-isystem", "/opt/dune/venv/include/dune/python"], libs=PYTHON_LIBS)

# thread schedules: everything but the runtime is compiled with thread instrumentation
THREADS = ["-fsanitize=thread"]
WRAP = ["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


def threads(prop, *text, **kw):
    return cpp(prop, *text, sources=[(prop + ".cc", THREADS), ("sched.cc", [])], library_flags=THREADS, flags=["-O1"] + WRAP, **kw)


CHECKS["Q04"] = threads(
    "Q04",
    "every schedule of several threads that request rules for the first time, up to a number of preemptions, runs in a fresh process; unordered "
    "conflicting accesses, deadlocks, different objects for one request and contents that differ from a lone request are reported",
    "2 threads x 1 request: all pairs of 14 requests, 2 preemptions, and 52 pairs of rules built on the same path, 1 preemption; 2 x 2 requests over 3: 1 preemption; 3 threads: 1 preemption",
    "2 threads x 1 request: all pairs of 20 requests, 3 preemptions, and 52 pairs of rules built on the same path, 2 preemptions; 2 x 2 requests over 3: 1 preemption; 3 threads: 2 preemptions")
CHECKS["R05"] = threads(
    "R05",
    "every schedule of several threads that use reference elements for the first time, up to a number of preemptions, runs in a fresh process and reads "
    "everything the elements tell; unordered conflicting accesses, deadlocks, different objects and other contents than alone are reported",
    "2 threads x 1 operation: all pairs of 20 operations, 2 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 1 preemption",
    "2 threads x 1 operation: all pairs of 25 operations, 3 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 2 preemptions")
CHECKS["F04"] = threads(
    "F04",
    "every schedule of several threads that build and walk refinements and composite rules, up to a number of preemptions, runs in a fresh process; "
    "unordered conflicting accesses, deadlocks, different objects for one refinement and other contents than alone are reported",
    "2 threads x 1 operation: all pairs of 19 operations, 2 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 1 preemption",
    "2 threads x 1 operation: all pairs of 24 operations, 3 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 2 preemptions")
CHECKS["T05"] = threads(
    "T05",
    "every schedule of several threads that question types, look up indices, dispatch, create objects by type, print types and read vertex orders, up "
    "to a number of preemptions, runs in a fresh process; unordered conflicting accesses and other answers than alone are reported",
    "2 threads x 1 operation: all pairs of 31 operations, 2 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 1 preemption",
    "2 threads x 1 operation: all pairs of 31 operations, 3 preemptions; 1 + 2 operations: 1 preemption; 3 threads: 2 preemptions")
CHECKS["G11"] = threads(
    "G11",
    "every schedule of several threads that ask one shared geometry, or copies of it, everything it can tell, up to a number of preemptions; unordered "
    "conflicting accesses and answers that differ from those of a single thread are reported",
    "2 threads: all pairs of operations over 14 geometries of 6 classes (shared and copied, 2 points), 1 preemption; 3 threads: 1 preemption",
    "2 threads: all pairs of operations over 14 geometries of 6 classes (shared and copied, 2 points), 3 preemptions; 3 threads: 2 preemptions")

# the Python package: types and rules with the reference elements compiled in, geometries with the types only
PRECOMPILE = ["-DDUNE_ENABLE_PYTHONMODULE_PRECOMPILE"]
PACKAGE = {"_geometry": [("REPO/python/dune/geometry/_geometry.cc", PRECOMPILE)]
           + [("REPO/python/dune/geometry/registerrefelem.cc", PRECOMPILE + ["-DDIM=%d" % d]) for d in range(5)]}
GEOMETRIES = {"_geometry": [("REPO/python/dune/geometry/_geometry.cc", [])],
              "multilinear": [("HARNESS/python/multilinear.cc", [])]
              + [("HARNESS/python/multilinear.cc", ["-DDIM=%d" % d]) for d in (1, 2, 3)]}


def python(prop, *text, **kw):
    return cpp(prop, *text, script=prop + ".py", **kw)


CHECKS["P01"] = python(
    "P01",
    "every type is built in Python by every route and compared with the word model (predicates, names, equality, hashes, use as key); every method "
    "of every reference element is called with all arguments in both calling styles and with arguments out of range; all histories of requests",
    "types up to dimension 10, pairs up to dimension 7; elements up to dimension 4, arguments up to 2 out of range; histories of length 4 over 16 requests",
    "types up to dimension 12, pairs up to dimension 8; elements up to dimension 4, arguments up to 2 out of range; histories of length 4 over 16 requests, 5 over 10",
    binary="python", python=PACKAGE)
CHECKS["P02"] = python(
    "P02",
    "every rule is requested in Python by every route; points, arrays and attributes are compared with each other and with exact moments; integrals "
    "over elements, objects that outlive the rule, arrays written to by the caller; all histories of requests",
    "all topologies up to dimension 4; orders up to 61, 40, 20, 5 in 1 to 4 dimensions; histories of length 4 over 12 requests",
    "all topologies up to dimension 4; orders up to 61, 60, 40, 8 in 1 to 4 dimensions; histories of length 4 over 12 requests",
    binary="python", python=PACKAGE)
CHECKS["P03"] = python(
    "P03",
    "every topology with every subset of corners displaced is built as a Python geometry; every method is compared on all lattice points with an "
    "independent corner-interpolating map in rational arithmetic",
    "all topologies up to dimension 3 in up to 3 coordinates; all corner subsets; lattice spacing 1/16, 1/8, 1/4",
    "all topologies up to dimension 3 in up to 3 coordinates; all corner subsets; lattice spacing 1/32, 1/16, 1/8",
    binary="pythongeometry", python=GEOMETRIES)
