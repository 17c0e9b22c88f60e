#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

PROPS = []
LEVELS = {}


def prop(id, title, statement, over, quant, why, files, mechanism, technique=None, note=None, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "where": files[0]} for n in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": a})
    LEVELS[id] = (technique or "bounded exhaustive exploration of the real code against an independent model", note)


G = "dune/geometry/"

# --- types -----------------------------------------------------------------

prop("T01", "Geometry types denote their construction word consistently",
     "A geometry type built by any route (named constant, simplex/cube/none factory, topology id, compile-time id, prismatic or conical "
     "extension) has the dimension, id and shape predicates of its construction word, and survives the round trip through its "
     "compile-time id. Two types compare equal exactly if they have the same dimension, both or neither are 'none', and their words "
     "agree apart from the irrelevant first step; the order is a strict total order consistent with that equality.",
     ["inputs"], "all types, all pairs of types of dimensions up to 11, all construction routes",
     "Tests compare a few named types; equality classes and order need all pairs, including both spellings and 'none' of every dimension.",
     [G + "type.hh"], [("GeometryType", G + "type.hh"), ("GeometryTypes", G + "type.hh")])
prop("T02", "Type indices are a bijection within and across dimensions",
     "Within each dimension, the types that differ (including 'none') are numbered consecutively from zero without gaps or "
     "collisions, equal types get equal indices, and looking an index up returns a type equal to the original. The global index does "
     "the same for all types up to a dimension at once, ordered by dimension, and the advertised sizes are the numbers of indices.",
     ["inputs"], "all types of all dimensions up to 16, all indices",
     "Containers indexed by type rely on the bijection for every type; tests cover none of it.",
     [G + "typeindex.hh"], [("LocalGeometryTypeIndex", G + "typeindex.hh"), ("GlobalGeometryTypeIndex", G + "typeindex.hh")])
prop("T03", "Run-time types reach matching compile-time code and singletons",
     "Dispatching a run-time type to compile-time code calls the callback exactly once with a constant equal to that type, for every "
     "type of the dimension. A topology factory creates the object for exactly the requested "
     "type and key, and its singleton variant creates each (type, key) object once and returns that same object on every later "
     "request, whatever was requested in between.",
     ["inputs", "histories"], "all types up to dimension 5; all request sequences up to length 5 over 4 types and 2 keys",
     "Request histories multiply; tests never ask for the same key through different routes.",
     [G + "type.hh", G + "topologyfactory.hh"],
     [("toGeometryTypeIdConstant", G + "type.hh"), ("TopologyFactory", G + "topologyfactory.hh"),
      ("TopologySingletonFactory", G + "topologyfactory.hh")], state=["singleton storage"])
prop("T04", "Type names and vertex counts identify the type",
     "The textual name of a type reads back as an equal type, for every type and for 'none'; a text is accepted exactly if it names a "
     "known constructor with the right number of arguments (and an id that fits the dimension), and then denotes that type, "
     "independently of spaces around the arguments. In dimensions up to three a valid vertex count yields the unique type with "
     "that many vertices; every other count in two and three dimensions and every higher dimension is refused.",
     ["inputs"], "all types up to dimension 14; all names with 0 to 3 arguments in all spacings; all vertex counts up to 300",
     "The parser and the names are only used from Python with a few common names.",
     ["dune/python/geometry/type.hh", G + "utility/typefromvertexcount.hh"],
     [("to_string, geometryTypeFromString", "dune/python/geometry/type.hh"),
      ("geometryTypeFromVertexCount", G + "utility/typefromvertexcount.hh")])

# --- reference elements ----------------------------------------------------

prop("R01", "Reference elements form a consistent face lattice",
     "For every topology, the sub-entities of every codimension are exactly the faces of the cell built by the construction word: "
     "their number, their types, and the numbers, ordered lists and membership of sub-entities of sub-entities all describe the same "
     "incidence relation. Numbering inside a sub-entity agrees with the numbering of the sub-entity's own reference element, a "
     "sub-entity has no sub-entities larger than itself, all ways to obtain a reference element give equal objects, and elements of "
     "different shapes are unequal.",
     ["inputs"], "all topologies up to dimension 6, all (i, c, ii, cc)",
     "Tests look at single entries in dimensions up to three; the incidence relation needs all pairs of sub-entities.",
     [G + "referenceelementimplementation.hh", G + "referenceelementimplementation.cc", G + "referenceelement.hh", G + "referenceelements.hh"],
     [("ReferenceElement", G + "referenceelement.hh"), ("SubEntityInfo", G + "referenceelementimplementation.hh"),
      ("subTopologyNumbering", G + "referenceelementimplementation.cc")])
prop("R02", "Positions, volumes and outer normals describe the reference cell",
     "The position of a sub-entity is the barycentre of its corners, the corners are those of the construction, and the volume is "
     "the volume of the cell. The integration outer normal of each facet is orthogonal to it, points out of the cell, has the "
     "facet's measure relative to its own reference element as length, and the facet normals weighted by reference volumes sum to zero.",
     ["inputs"], "all topologies up to dimension 7, all sub-entities, double, float and long double",
     "No test reads outer normals or positions of higher codimension.",
     [G + "referenceelementimplementation.hh", G + "referenceelementimplementation.cc"],
     [("position, volume, integrationOuterNormal", G + "referenceelement.hh"),
      ("referenceCorners, referenceIntegrationOuterNormals", G + "referenceelementimplementation.hh")])
prop("R03", "The inside test decides membership in the reference cell",
     "A point is reported inside exactly if it lies in the closed reference cell, where boundary points moved by a rounding error "
     "are still inside and points a visible distance away are outside.",
     ["inputs"], "all lattice points of a box around every cell up to dimension 6, every boundary point moved across each of its faces",
     "The test suite never asserts that a point is outside.",
     [G + "referenceelementimplementation.hh", G + "referenceelementimplementation.cc"],
     [("checkInside", G + "referenceelementimplementation.hh")])
prop("R04", "Sub-entity embeddings map reference sub-cells onto the faces",
     "The embedding of a sub-entity maps the corners of the sub-entity's own reference element, in their numbering, to the "
     "corresponding vertices of the cell and is affine in between; derivative, measure, type, centre and inverse are those of that "
     "map. The same embedding is returned on every request.",
     ["inputs"], "all topologies up to dimension 5, all sub-entities, all lattice points of the sub-entity",
     "Only codimension zero embeddings are exercised by tests.",
     [G + "referenceelementimplementation.hh", G + "referenceelementimplementation.cc", G + "affinegeometry.hh"],
     [("geometry<codim>()", G + "referenceelement.hh"), ("referenceEmbeddings", G + "referenceelementimplementation.hh")])

# --- geometries --------------------------------------------------------------

prop("G01", "Affine geometries evaluate and invert their affine map",
     "An affine geometry, built from an origin and a Jacobian or from corners of any reference element, maps every local point to the "
     "affine image; corners, centre, volume, derivative, pseudo-inverse and integration element are those of that map, and local() "
     "inverts global() and solves the least-squares problem for points off the image. Copies behave like the original.",
     ["inputs"], "all full-rank integer matrices over a small range, up to 4 local and 4 world dimensions, all constructors, all lattice points and points outside of the cell",
     "Tests use identity and scaled maps, for which transposed, swapped or unscaled results coincide with the right ones.",
     [G + "affinegeometry.hh"], [("AffineGeometry", G + "affinegeometry.hh"), ("FieldMatrixHelper", G + "affinegeometry.hh")])
prop("G02", "Axis-aligned cube geometries scale the unit cube into the box",
     "A cube geometry given by lower and upper corner and a set of axes maps the unit cube onto the spanned box, each local axis to its "
     "world axis in increasing order, keeping the coordinates of the lower corner off the axes; corners, centre, volume, derivatives and inverse are those of that "
     "map. This holds for all three constructors and for copies.",
     ["inputs"], "all axis sets, all boxes over a 3x3 alphabet per coordinate, up to dimension 4",
     "Tests use one box per dimension.",
     [G + "axisalignedcubegeometry.hh"], [("AxisAlignedCubeGeometry", G + "axisalignedcubegeometry.hh")])
prop("G03", "Multilinear geometries interpolate their corners",
     "A multilinear geometry of any topology and corner storage maps each reference corner to the given corner and every other point by "
     "the (multi)linear or conical interpolation of the corners; the Jacobian, its transpose, pseudo-inverses and the integration "
     "element are the derivative of exactly that map, also next to the tip of cones. It reports itself affine exactly for affine corner "
     "configurations, and then its volume is exact.",
     ["inputs"], "all subsets of displaced corners over several base maps, all topologies up to dimension 3 (one corner in 4), all lattice points",
     "Tests only build geometries from the reference corners, where wrong corner order or derivative terms cancel.",
     [G + "multilineargeometry.hh"], [("MultiLinearGeometry", G + "multilineargeometry.hh"),
                                      ("CachedMultiLinearGeometry", G + "multilineargeometry.hh")])
prop("G04", "Multilinear geometries invert their map",
     "For a nondegenerate multilinear geometry, local() returns the local coordinate of the image of every point of the reference "
     "element (up to the accuracy of its Newton iteration), including corners, faces and points of surfaces embedded in a higher dimension.",
     ["inputs"], "the corner assignments of G03, all lattice points",
     "Newton iterations are only started on the identity in tests.",
     [G + "multilineargeometry.hh"], [("local", G + "multilineargeometry.hh")])
prop("G06", "Caching geometries answer like non-caching ones in every history",
     "A caching multilinear geometry returns, for every query and after every sequence of earlier queries, copies and assignments, the "
     "value a freshly built non-caching geometry returns for the same point.",
     ["histories", "inputs"], "all sequences of up to 5 operations from 12 (3d: 4) on two geometries, all topologies up to dimension 3",
     "Stale or prematurely set cache flags only show in particular call orders; tests use one order.",
     [G + "multilineargeometry.hh"], [("CachedMultiLinearGeometry", G + "multilineargeometry.hh")],
     state=["cached Jacobian, inverse and their flags"],
     technique="exhaustive exploration of operation histories on the real code against a history-free model")
prop("G07", "Mapped geometries compose mapping and inner geometry",
     "A mapped geometry maps each point to the mapping applied to the image under the inner geometry, and its derivatives, "
     "pseudo-inverses, integration element, centre and corners are those of the composed map, for any inner geometry and for mappings "
     "into a space of higher dimension.",
     ["inputs"], "quadratic mappings with all single and pairs of perturbed coefficients over affine, multilinear and sub-entity geometries",
     "Tests check consistency of the interface for one mapping; the chain rule only shows for non-trivial inner geometries.",
     [G + "mappedgeometry.hh"], [("MappedGeometry", G + "mappedgeometry.hh")])
prop("G08", "Element geometries interpolate their nodes with the element basis",
     "A geometry parametrised by a local finite element maps each point to the sum of the basis functions times the node "
     "coefficients, whichever constructor supplied the coefficients; derivatives, pseudo-inverses, integration element, corners, centre "
     "and the affine query are those of that map, also for copies and assigned objects.",
     ["inputs"], "Lagrange elements of order 1 to 3 on all types up to dimension 3 with all subsets or pairs of nodes moved",
     "Tests use one parametrisation per element type.",
     [G + "localfiniteelementgeometry.hh"], [("LocalFiniteElementGeometry", G + "localfiniteelementgeometry.hh")])
prop("G09", "Curved inversion returns a solution or reports failure",
     "For curved (mapped or element-parametrised) geometries, local() of the image of a point returns that point's coordinate within "
     "the tolerance for regular maps. The underlying iteration reports success only for a point that solves the problem to the "
     "requested tolerance, for every iteration limit including zero and for a start point that is already the solution.",
     ["inputs", "configurations"], "the geometries of G07 and G08, iteration limits 0 to 3 and default, two tolerances, images and points off the image",
     "Tests start close to the solution with the default limits.",
     [G + "utility/algorithms.hh", G + "mappedgeometry.hh", G + "localfiniteelementgeometry.hh"],
     [("gaussNewton", G + "utility/algorithms.hh"), ("local", G + "mappedgeometry.hh")])
prop("G10", "Curved volumes are integrated to the requested tolerance",
     "The volume of a curved (mapped or element-parametrised) geometry agrees with the integral of its integration element up to the "
     "requested tolerance, and with an explicit quadrature rule it is exactly that rule applied to the integration element.",
     ["inputs", "configurations"], "the geometries of G07 and G08 with tolerances 1e-2, 1e-5 and the default",
     "Adaptive stopping only fails for particular maps where consecutive rules agree by accident.",
     [G + "mappedgeometry.hh", G + "localfiniteelementgeometry.hh"],
     [("volume", G + "mappedgeometry.hh"), ("volume", G + "localfiniteelementgeometry.hh")])

# --- quadrature -----------------------------------------------------------------

prop("Q01", "Quadrature rules integrate all polynomials of their order exactly",
     "Every rule, for every reference element, quadrature family and order, integrates every polynomial of total degree up to the order "
     "it reports (which is at least the requested order) exactly up to rounding, including mixed monomials; the weighted "
     "one-dimensional families do so for their weight function.",
     ["inputs"], "all families, orders and topologies up to dimension 3 (dimensions 4 and 5 to a bounded order), all monomials within the bounds",
     "Tests integrate pure powers only, so errors in mixed terms and most of the table entries of the weighted families stay unseen.",
     [G + "quadraturerules.hh", G + "quadraturerules/"],
     [("QuadratureRules", G + "quadraturerules.hh"), ("TensorProductQuadratureRule", G + "quadraturerules/tensorproductquadrature.hh"),
      ("tables", G + "quadraturerules/gaussquadrature.hh"), ("JacobiNQuadratureRule", G + "quadraturerules/jacobiNquadrature.hh")])
prop("Q02", "Quadrature points lie in the cell and rules match their family",
     "All points of a rule lie in the closed reference element, and the rule reports the requested element type and an order at least "
     "the requested one. In one dimension the points are distinct with positive weights, no rule has more points than its family needs "
     "for the order, Lobatto rules contain both end points, left and right Radau rules exactly their end point, and the others none. In higher dimensions the Lobatto and Radau rules keep "
     "this: in a prismatic direction they have points at the same ends as on the line, and on a cone they have points on the base "
     "exactly if they contain the left end.",
     ["inputs"], "all families, orders and topologies up to dimension 3 (dimensions 4 and 5 to a bounded order), all points",
     "Tests check sums, not where points lie.",
     [G + "quadraturerules.hh", G + "quadraturerules/"],
     [("QuadratureRule", G + "quadraturerules.hh"), ("QuadratureRuleFactory", G + "quadraturerules.hh")])
prop("Q03", "Rule requests are served or refused independently of history",
     "Every order from zero to the advertised maximum of an element type and family is served, and every other order is refused with the "
     "documented exception; requests by basic type give the rule of that type or a range error. The same request returns the same "
     "object with unchanged content, and each answer is the same whatever requests, served or refused, came before.",
     ["histories", "inputs"], "all types up to dimension 4, orders far below and above the tables; all histories of 2 requests from 109, 3 from 24, 5 from 8, each in a fresh process",
     "The cache is filled differently by every request history; tests use one.",
     [G + "quadraturerules.hh"], [("QuadratureRules::rule, maxOrder", G + "quadraturerules.hh")], state=["rule cache"],
     technique="exhaustive exploration of request histories, each replayed on the real code in a fresh process")
prop("Q05", "Composite rules apply the base rule on every part",
     "A composite rule over a simplex consists of the images of the base rule's points in every part of the uniform refinement, with "
     "weights scaled by the part's share of the volume; it keeps the base rule's element type and order and integrates polynomials of "
     "that order exactly.",
     ["inputs"], "simplices up to dimension 4, all families, orders and interval counts within the bounds",
     "There is no test of composite rules.",
     [G + "quadraturerules/compositequadraturerule.hh"], [("CompositeQuadratureRule", G + "quadraturerules/compositequadraturerule.hh")])
prop("Q06", "Rules for other number types are as accurate as their tables",
     "Rules for single and extended precision numbers integrate all polynomials of their order up to the rounding of the coarser of "
     "their number type and double. For number types that can be read from text, line and square rules of the tabulated families are "
     "exact to the precision of that type.",
     ["inputs", "configurations"], "float and long double: all families, orders and topologies up to dimension 3 within the bounds; quadruple precision: all line rules, squares to order 16",
     "Tests check other number types for a few rules only.",
     [G + "quadraturerules.hh", G + "quadraturerules/numberfromstring.hh"],
     [("numberFromString", G + "quadraturerules/numberfromstring.hh")])

# --- refinement -----------------------------------------------------------------

prop("F01", "Refinements tile the reference cell",
     "The parts of a refinement, given by vertex indices or by their geometries, are non-degenerate, lie in the cell and together have "
     "its volume; no facet has more than two parts, and two parts at a facet lie on different sides. Every facet with only one part "
     "lies on the boundary (for triangulated cells: in dimensions up to three).",
     ["inputs", "configurations"], "all supported shape pairs and interval counts within the bounds, dimensions 1 to 5, run-time and compile-time interface",
     "Tests check that centres lie inside the cell.",
     [G + "refinement/", G + "refinement.hh", G + "virtualrefinement.hh"],
     [("simplex", G + "refinement/simplex.cc"), ("hcube", G + "refinement/hcube.cc"), ("triangulations", G + "refinement/hcubetriangulation.cc")])
prop("F02", "Refinement indices, vertices and centres are consistent",
     "Iterating visits exactly the announced number of vertices and parts with indices counting up from zero; the vertices are exactly "
     "the lattice points of the cell (each once where cell and parts have the same shape), all belong to parts, and vertex indices "
     "refer to the corners of the part. Centres, types, volumes and corners reported for a part and for a vertex describe that part or "
     "vertex, and levels count as powers of two intervals. The announced numbers grow as polynomials in the number of intervals.",
     ["inputs", "configurations"], "all supported shape pairs and interval counts within the bounds, dimensions 1 to 5",
     "Tests never look at indices or counts.",
     [G + "refinement/", G + "refinement.hh", G + "virtualrefinement.hh"],
     [("index, vertexIndices, coords, geometry", G + "refinement/simplex.cc"), ("hcube", G + "refinement/hcube.cc"),
      ("RefinementIntervals", G + "refinement/base.cc")])
prop("F03", "Run-time refinements equal compile-time ones; iterators are values",
     "The run-time selected refinement delivers, for every supported pair of shapes, exactly what the compile-time one delivers, and "
     "unsupported pairs are refused. Its iterators behave as values: copies, assignments (also to itself and from another refinement) "
     "and increments affect only their target, equality means the same position of the same refinement, and nothing is leaked or freed twice.",
     ["histories", "inputs"], "all pairs of shapes up to dimension 4; all iterator histories of length 4 over 20 operations on two iterators",
     "Copying and assigning polymorphic iterators in particular orders is not tested.",
     [G + "virtualrefinement.hh", G + "virtualrefinement.cc"],
     [("SubEntityIterator", G + "virtualrefinement.cc"), ("RefinementBuilder", G + "virtualrefinement.cc")],
     technique="exhaustive exploration of iterator histories on the real code (AddressSanitizer) against a position model")

# --- vertex order -----------------------------------------------------------------

prop("V01", "Vertex orders rank the ids of every sub-entity",
     "From any list of vertex ids of a cell, the vertex order delivers for every sub-entity the ranks of its vertices' ids among all "
     "ids, in the numbering of the sub-entity, and the reduced order delivers the ranks within the sub-entity; equal ids get equal "
     "ranks. Ids may be of any ordered type. Its iterators are consistent random access iterators, and iterators of different sub-entities differ.",
     ["inputs"], "all topologies up to dimension 5; all permutations of up to 9 ids and all patterns of ties within the bounds",
     "There is no test of vertex orders.",
     [G + "generalvertexorder.hh"], [("GeneralVertexOrder, reduceOrder", G + "generalvertexorder.hh")])


# --- threads -------------------------------------------------------------------

SCHED = "preemption-bounded exhaustive exploration of thread schedules of the real code, with happens-before race detection"
prop("Q04", "Quadrature rules may be requested by several threads at once",
     "Whatever the interleaving of threads that request quadrature rules for the first time, no two accesses to shared data are "
     "unordered, no thread waits forever, all threads that make the same request receive the same object, and each rule they read is "
     "complete and equal to the one a single thread gets; refused requests are refused as before.",
     ["schedules", "inputs"], "all schedules with up to 2 preemptions of 2 threads and all pairs of 14 requests; 3 threads and 2 requests per thread with up to 1",
     "The faulty interleaving of a first request is rare; no test uses threads.",
     [G + "quadraturerules.hh", G + "quadraturerules/tensorproductquadrature.hh"],
     [("QuadratureRules::rule", G + "quadraturerules.hh"), ("TensorProductQuadratureRule", G + "quadraturerules/tensorproductquadrature.hh")],
     state=["rule cache", "once flags"], technique=SCHED)
prop("R05", "Reference elements may be used by several threads at once",
     "Whatever the interleaving of threads that use reference elements for the first time, directly, by iteration or through a "
     "geometry, no two accesses to shared data are unordered, no thread waits forever, all threads get the same element, and "
     "everything they read from it is what a single thread reads.",
     ["schedules", "inputs"], "all schedules with up to 2 preemptions of 2 threads and all pairs of 20 operations; 3 threads and 2 operations per thread with up to 1",
     "The singletons are built during the first use; no test uses threads.",
     [G + "referenceelements.hh", G + "referenceelementimplementation.hh"],
     [("ReferenceElements", G + "referenceelements.hh")], state=["reference element container"], technique=SCHED)
prop("F04", "Refinements may be used by several threads at once",
     "Whatever the interleaving of threads that obtain run-time or compile-time refinements, walk over their vertices and parts or "
     "build composite rules from them, no two accesses to shared data are unordered, no thread waits forever, all threads get the "
     "same refinement object for the same pair of shapes, and everything they read is what a single thread reads.",
     ["schedules", "inputs"], "all schedules with up to 2 preemptions of 2 threads and all pairs of 19 operations; 3 threads and 2 operations per thread with up to 1",
     "No test uses threads.",
     [G + "virtualrefinement.cc", G + "refinement/simplex.cc", G + "refinement/hcube.cc"],
     [("buildRefinement", G + "virtualrefinement.hh"), ("StaticRefinement", G + "refinement.hh")], state=["refinement singletons"], technique=SCHED)
prop("T05", "Types and vertex orders may be used by several threads at once",
     "Whatever the interleaving of threads that build and compare types, look up type indices, dispatch types to compile-time code, create "
     "objects with a topology factory, find types by vertex counts, print types, or build and read vertex orders (own ones or a common one), no two accesses to shared data are "
     "unordered, no thread waits forever, and every answer is the one a single thread gets. The singleton factory is not meant for "
     "concurrent use.",
     ["schedules", "inputs"], "all schedules with up to 2 preemptions of 2 threads and all pairs of 31 operations; 3 threads and 2 operations per thread with up to 1",
     "No test uses threads; a table or buffer kept between calls would only show under interleaving.",
     [G + "type.hh", G + "typeindex.hh", G + "topologyfactory.hh", G + "generalvertexorder.hh", G + "utility/typefromvertexcount.hh"],
     [("LocalGeometryTypeIndex", G + "typeindex.hh"), ("TopologyFactory", G + "topologyfactory.hh"), ("GeneralVertexOrder", G + "generalvertexorder.hh")],
     technique=SCHED)
prop("G11", "Geometries may be read by several threads at once",
     "Several threads may evaluate one geometry object (affine, axis-aligned, multilinear, mapped or finite element geometry) at the same "
     "time, and different objects of any geometry class including the caching one: no two accesses to shared data are unordered, and every value is the one a "
     "single thread gets. Results that a class documents or keeps in the object (caching geometry, affine() of finite element "
     "geometries) are shared only through copies.",
     ["schedules", "inputs"], "all schedules with up to 1 preemption of 2 and 3 threads, all pairs of operations on 14 geometries of 6 classes, shared and copied",
     "Working storage shared by threads only shows under interleaving; no test uses threads.",
     [G + "localfiniteelementgeometry.hh", G + "multilineargeometry.hh", G + "mappedgeometry.hh", G + "affinegeometry.hh", G + "axisalignedcubegeometry.hh"],
     [("LocalFiniteElementGeometry", G + "localfiniteelementgeometry.hh"), ("MultiLinearGeometry", G + "multilineargeometry.hh")],
     state=["working storage"], technique=SCHED)

prop("G12", "Geometries do not depend on the size, proportions or place of the cell",
     "Scaling all corners of a cell by a power of two, stretching the coordinate axes by different powers of two, or moving the cell "
     "transforms what affine, axis-aligned, multilinear, cached multilinear, finite element and mapped geometries return exactly as the "
     "transformation rules say (for the last two: apart from local() and volume(), which have absolute tolerances): affine() and local coordinates stay the same, global coordinates and Jacobians are transformed, inverse Jacobians inversely, "
     "integration element and volume with the factor of the cell's dimension. No size below which a cell is treated differently.",
     ["inputs"], "all topologies up to dimension 3 in up to 3 coordinates, all corner subsets moved (3d: single corners); sizes 2^-60 to 2^60, proportions up to 2^8, distances up to 2^20 cell sizes; all lattice points",
     "Tests use cells of size one; an absolute tolerance is only seen on tiny or huge cells.",
     [G + "multilineargeometry.hh", G + "affinegeometry.hh", G + "axisalignedcubegeometry.hh", G + "localfiniteelementgeometry.hh", G + "mappedgeometry.hh",
      G + "utility/defaultmatrixhelper.hh"],
     [("MultiLinearGeometry", G + "multilineargeometry.hh"), ("AffineGeometry", G + "affinegeometry.hh"), ("AxisAlignedCubeGeometry", G + "axisalignedcubegeometry.hh")])

prop("G13", "The matrix routines of geometries are exact up to rounding",
     "For every matrix of full rank, the matrix routines in the geometry traits return its volume element (the root of the determinant of "
     "the matrix times its transpose), its right or left pseudo-inverse, and the product of the pseudo-inverse with a vector, up to "
     "rounding amplified by the condition only, at every scale, without changing their arguments. Regular matrices are never reported as singular, "
     "matrices with a zero row are; the volume element of a singular square matrix, or of two parallel vectors in space, is zero.",
     ["inputs"], "all integer matrices over a small range of entries, all shapes up to 4 x 4, three scales",
     "Tests invert the Jacobians of a few cells; most sign patterns and shapes are never seen.",
     [G + "utility/defaultmatrixhelper.hh", G + "multilineargeometry.hh"],
     [("FieldMatrixHelper", G + "utility/defaultmatrixhelper.hh"), ("MultiLinearGeometryTraits", G + "multilineargeometry.hh")])

prop("G14", "Curved inversion obeys its options",
     "local() of a curved geometry succeeds or fails as the documented iteration does: from the centre of the cell at most maxIt Gauss-Newton "
     "steps are made; each is shortened by the factor theta, in at most maxInnerIt trials, until the residual decreases; the search succeeds "
     "once the residual is below absTol (at the start, too) and fails if no trial decreases the residual or the steps are used up. A success is reported with "
     "the point the iteration arrives at, a failure by an exception.",
     ["inputs", "configurations"], "polynomial maps with all small integer coefficients, for which full steps often overshoot; all combinations of a few values of the four options",
     "Tests use the default options and maps for which full steps converge.",
     [G + "utility/algorithms.hh", G + "mappedgeometry.hh", G + "localfiniteelementgeometry.hh"],
     [("gaussNewton", G + "utility/algorithms.hh"), ("local", G + "mappedgeometry.hh"), ("local", G + "localfiniteelementgeometry.hh")])
prop("V02", "Objects are values that keep their own contents",
     "Geometries of all classes, quadrature and composite rules, vertex orders and reference elements are values: an object answers like a "
     "newly made one with the same contents, whatever has been copied, moved, assigned, swapped, asked or deleted before. Copies do not depend "
     "on the object they were made from; an assignment (also to itself or to a default constructed object) replaces everything; "
     "answers remembered in an object belong to its current contents.",
     ["histories", "inputs"], "two objects, three contents; all histories of length 4 (5 for small objects) over 21 to 29 operations, 24 classes",
     "Tests copy an object at most once; a remembered answer or pointer only shows after certain sequences of assignment, question and deletion.",
     [G + "localfiniteelementgeometry.hh", G + "mappedgeometry.hh", G + "multilineargeometry.hh", G + "affinegeometry.hh", G + "axisalignedcubegeometry.hh",
      G + "generalvertexorder.hh", G + "quadraturerules.hh", G + "referenceelement.hh"],
     [("LocalFiniteElementGeometry", G + "localfiniteelementgeometry.hh"), ("MappedGeometry", G + "mappedgeometry.hh"), ("MultiLinearGeometry", G + "multilineargeometry.hh")],
     state=["contents of two objects", "remembered answers"])

# --- Python ----------------------------------------------------------------

PY = "dune/python/geometry/"
prop("P01", "Python types and reference elements tell what the C++ ones tell",
     "In Python, a geometry type has the same predicates, dimension and equality however it was built; equal types have equal hashes and "
     "find each other as keys. The reference element of a type (or of anything with a type) reports the sizes, types, sub-entities, "
     "positions, corners, volume and outer normals of that shape in every calling style; tuple-valued methods agree with the single-valued "
     "ones; every index or codimension out of range raises a ValueError; 'none' has no element; earlier requests never change an answer.",
     ["inputs", "histories"], "all types up to dimension 10 by every route; all elements up to dimension 4, all arguments and those up to 2 out of range; all histories of 4 requests over 16",
     "The Python tests compare tuples with single entries of the same interface for eight shapes; nothing checks values, keys, tuples as arguments or refusals.",
     [PY + "type.hh", PY + "referenceelements.hh", "python/dune/geometry/_referenceelements.py", "python/dune/geometry/_geometry.cc"],
     [("registerGeometryType", PY + "type.hh"), ("registerReferenceElements", PY + "referenceelements.hh"),
      ("referenceElement", "python/dune/geometry/_referenceelements.py")], state=["table of reference elements"])
prop("P02", "Python quadrature rules hand out the points they integrate with",
     "A rule obtained in Python by any route has the requested type and at least the requested order, and iteration and the arrays of "
     "get() (coordinates by rows, one column per point) list the same points and weights, which integrate polynomials up to that order "
     "exactly. integrate() and apply() return the integral of a scalar or vector valued function over an element with its "
     "integration element. Points, arrays and iterators stay valid without the rule, writing into the arrays changes no rule, orders "
     "beyond the tables are refused, and earlier requests never change an answer.",
     ["inputs", "histories"], "all topologies up to dimension 4, orders up to 61/40/20/5; all histories of 4 requests over 12",
     "The Python test integrates one monomial per order for three orders and never calls integrate().",
     [PY + "quadraturerules.hh", "python/dune/geometry/__init__.py"],
     [("quadratureToNumpy", PY + "quadraturerules.hh"), ("quadratureRule, integrate", "python/dune/geometry/__init__.py")],
     state=["table of rules"])
prop("P03", "Python multilinear geometries map like the corner interpolation",
     "A multilinear geometry built in Python from a type and a list of corners reports that type and these corners, its centre, and maps "
     "points, derivatives, integration elements, inverses and preimages like the map that interpolates the corners; it is reported as "
     "affine exactly if that map is, and then its volume is the exact one. It does not depend on the list after construction.",
     ["inputs"], "all topologies up to dimension 3 in up to 3 coordinates, all subsets of corners displaced, all lattice points",
     "No test uses the Python geometries.",
     [PY + "multilineargeometry.hh"], [("registerMultiLinearGeometryType", PY + "multilineargeometry.hh")])


def main():
    props = [p for p in PROPS if p["id"] in CHECKS]
    missing = [p["id"] for p in PROPS if p["id"] not in CHECKS] + [c for c in CHECKS if c not in [p["id"] for p in PROPS]]
    if missing:
        print("without counterpart:", missing)
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    text = ""
    for p in props:
        c = CHECKS[p["id"]]
        text += "### %s %s\n\n* How: %s.\n* Bounds (quick): %s.\n* Bounds (thorough): %s.\n* Beyond tests: %s\n\n" % (
            p["id"], p["title"], c["explanation"], c["bounds"]["quick"], c["bounds"]["thorough"], p["why_tests_cant"])
    path = os.path.join(ROOT, "DESIGN.md")
    design = open(path).read()
    a = design.index("## Properties\n") + len("## Properties\n")
    b = design.find("\n## ", a)
    with open(path, "w") as f:
        f.write(design[:a] + "\n" + text.rstrip("\n") + "\n" + (design[b:] if b >= 0 else ""))
    checks = []
    for p in props:
        technique, note = LEVELS[p["id"]]
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "technique": "model checking: " + technique, "level": "model_checking",
                       "level_note": note or ("exhaustive within bounds (quick: %s)" % c["bounds"]["quick"]),
                       "evidence_file": "evidence/%s.json" % p["id"]})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
         "notes": "See DESIGN.md. No hooks in /repo are needed: the harnesses use the public interface of the headers and compile /repo's sources."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
