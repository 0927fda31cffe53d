#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Box iteration is a row-major bijection between flat indices and index sets",
  "For a box given by begin and one-past-end index sets with positive extents along every axis, the number of elements is the product of the extents. Converting a flat index to an index set and converting an index set to a flat index are inverse bijections between 0..count-1 and the half-open box, including boxes whose begin index is negative. The last index varies fastest.",
  ["inputs"], "all dimensions 1..4, all begin/end index sets with positive extents and all flat indices",
  "The only test runs one 2D box and does not run under Python 3; the claim is about every box.",
  ["cpp/SgBoxIterator.h", "cpp/SgBoxIterator.cpp"],
  [("constructor: strides", "cpp/SgBoxIterator.h SgBoxIterator_type()"), ("flat to set", "getElement"), ("set to flat", "getIndex")],
  ["SgBoxIterator_getNumberOfElements", "SgBoxIterator_getElement", "SgBoxIterator_getIndex"])
p("C02", "Side iteration visits each of the 3^n box sides exactly once",
  "Starting from construction or from a reset, repeatedly taking the current side and advancing visits each of the 3^n combinations of low (-1), middle (0) and high (1) exactly once. Advancing reports the end exactly when the last combination has been visited, and the reported number of elements is 3^n.",
  ["inputs", "histories"], "all numbers of dimensions n, all histories of reset/advance/get",
  "The test walks n=1,2,3 once and prints; it does not establish distinctness or completeness nor resets in the middle of an iteration.",
  ["cpp/SgSideIterator.h"], [("strides", "SgSideIterator_type()"), ("advance", "next"), ("decode", "get")],
  ["SgSideIterator_type public methods"])
p("C03", "Applying stored weights is exactly the weighted sum of the source values",
  "For the cell centred (conservative) and the nodal interpolation, applying the weights sets every destination value that has weights to the sum over its stored entries of weight times source value, whatever the destination array held before. Destination values without weights and the source values are left untouched.",
  ["inputs", "histories"], "all pairs of source and destination grids, all source fields, all initial contents of the destination array, any number of applications",
  "The tests apply weights to one field on a few grids and compare sums within a tolerance; they never look at entries without weights or at repeated application.",
  ["cpp/SgConserveInterp2D.h", "cpp/SgNodeInterp2D.h"], [("conservative apply", "SgConserveInterp2D_type::apply"), ("nodal apply", "SgNodeInterp2D_type::apply")],
  ["SgConserveInterp2D_apply", "SgNodeInterp2D_apply"])
p("C04", "Iterating over conservative weights yields each stored weight exactly once",
  "After weights have been computed and the iteration reset, alternating get and next yields every stored (destination cell, source cell, weight) entry exactly once, grouped by destination cell in increasing order. The end is reported exactly after the last entry, and the iteration then starts again from the first entry.",
  ["inputs", "histories"], "all computed sets of weights with at least one entry, all histories of reset/get/next",
  "The tests iterate and add up the weights once; a duplicated, skipped or misattributed entry with the right total goes unnoticed.",
  ["cpp/SgConserveInterp2D.h"], [("two level iterator", "SgConserveInterp2D_type::reset, next, get"), ("grouping of entries", "SgConserveInterp2D_type::computeWeights")],
  ["SgConserveInterp2D_reset", "SgConserveInterp2D_next", "SgConserveInterp2D_get"])
p("C05", "Conservative weights are overlap areas relative to the destination cell area",
  "For grids of convex non-degenerate cells, the weight of a (destination cell, source cell) pair is the area of the overlap of the two cells divided by the area of the destination cell, and pairs whose cells overlap in a set of positive area are all present. Hence the weights of a destination cell that the source grid covers add up to one, and the area integral of a field over a region covered by both grids is preserved. The result for a pair does not depend on which other cells the grids contain.",
  ["inputs"], "all source and destination structured grids of convex quadrilateral cells (positive area, coordinates up to about a hundred cell sizes), any orientation",
  "The tests check totals for a handful of grids; overlap geometry has a continuum of cases (shared edges, shared nodes, slivers, containment, rotated cells) and results are cached between cells.",
  ["cpp/SgConserveInterp2D.h", "cpp/SgQuadIntersect.h", "cpp/SgTriangulate.h"],
  [("pair loop with caches", "SgConserveInterp2D_type::computeWeights"), ("intersection points", "SgQuadIntersect_type"), ("area", "SgTriangulate_type::getConvexHullArea")],
  ["SgConserveInterp2D_computeWeights", "SgConserveInterp2D_get"])
p("C06", "Quad/quad intersection points are sound and span the whole overlap",
  "Every point reported for two convex quads lies in both quads, up to a small tolerance. The convex hull of the reported points is the overlap of the two quads: every vertex of the overlap polygon is reported. Quads whose bounding boxes are disjoint are reported as not overlapping and yield no points, and quads with a common point always pass the bounding box test.",
  ["inputs"], "all pairs of convex non-degenerate quads, both orders, both orientations, including shared nodes and edges",
  "The tests use a few fixed pairs of squares and compare counts; configurations are a continuum.",
  ["cpp/SgQuadIntersect.h", "cpp/SgQuadIntersect.cpp"],
  [("node in quad", "isPointInCell, checkIfPointIsInsideTriangle"), ("edge crossing", "collectEdgeToEdgeIntersectionPoints"), ("assembly", "collectIntersectPoints"), ("quick rejection", "checkIfBoxesOverlap")],
  ["SgQuadIntersect_getIntersectPoints", "checkIfBoxesOverlap", "isPointInCell"])
p("C07", "The area of a set of points is that of its convex hull",
  "For any finite set of points the reported area is the area of the convex hull: non-negative, independent of the order and repetition of the points, unchanged by points inside the hull, and zero when there are fewer than three points or all points lie on a line.",
  ["inputs"], "all finite sequences of points of any length, with repeated and collinear points, coordinates of any order of magnitude",
  "The tests use a few sets of up to a dozen points; the incremental construction goes wrong only for particular relative positions.",
  ["cpp/SgTriangulate.h", "cpp/SgTriangulate.cpp"],
  [("incremental hull", "SgTriangulate_type(), makeFirstTriangle, addPoint"), ("area sum", "getConvexHullArea"), ("orientation predicate", "getParallelipipedArea, isEdgeVisible")],
  ["SgTriangulate_new", "SgTriangulate_getConvexHullArea"])
p("C08", "Nodal interpolation weights reproduce the destination position",
  "Every destination node that gets weights gets the four nodes of one source cell with non-negative weights that add up to one and that reproduce the position of the destination node within the position tolerance. On an affine source grid every destination node inside the domain gets weights, so fields that are linear in the coordinates are interpolated exactly.",
  ["inputs"], "all structured source grids and destination nodes; existence on affine source grids of any size",
  "The tests interpolate one field on a few grids; most nodal tests do not pass or are not part of the stable suite.",
  ["cpp/SgNodeInterp2D.h", "cpp/SgFindPointInCell.h"],
  [("search per node, retry from sides", "SgNodeInterp2D_type::computeWeights, findTarget"), ("weights", "SgFindPointInCell_type::getSrcIndicesAndWeights")],
  ["SgNodeInterp2D_computeWeights", "SgNodeInterp2D_apply"])
p("C09", "A converged point search is right, and every search ends in the domain",
  "When a point search reports convergence, the position at the reported indices is within the tolerance of the target. The search reports that the point is outside exactly when the target lies outside the bounding box of the grid by more than round off, it never takes more than the maximum number of iterations, records one error per iteration, and its indices always stay in the index domain. On a (non-periodic) affine grid a target inside the domain is found.",
  ["inputs", "histories"], "all grids with at least two nodes per axis in 1 to 3 dimensions, all targets and in-domain initial guesses, all tolerances and iteration limits, sequences of searches on one object",
  "The tests search for a few dozen points on five grids, once each.",
  ["cpp/SgFindPointInCell.h", "cpp/SgFindPointInCell.cpp"],
  [("Newton step and status", "SgFindPointInCell_type::next"), ("bounding box", "setGrid"), ("index clamp", "truncateIndices"), ("Jacobian", "computeJacobianAndRHS")],
  ["SgFindPointInCell_reset", "SgFindPointInCell_next", "SgFindPointInCell_getPosition", "SgFindPointInCell_getIndices", "SgFindPointInCell_getErrorHistory"])
p("C10", "Location weights are a multilinear partition of unity on the enclosing cell",
  "For any index location in the domain the interpolation weights are attached to the 2^n distinct nodes of the cell that contains it, all of them valid node indices, are non-negative and add up to one. They are the multilinear weights: their weighted mean of the node indices is the index location itself, and the position reported for integer indices is that of the node.",
  ["inputs"], "all grids with at least two nodes per axis in 1 to 3 dimensions, all real index locations in the domain, including its upper boundary",
  "Tests reach this function through a few searches only; the upper boundary and 3D are not covered.",
  ["cpp/SgFindPointInCell.h"], [("weights", "getSrcIndicesAndWeights"), ("evaluation", "interp, getPosition")],
  ["SgFindPointInCell_type::getSrcIndicesAndWeights", "SgFindPointInCell_getPosition"])
p("C11", "Objects that are given new grids and recomputed behave like new objects",
  "Setting new grids, points or systems on an existing interpolation, search, intersection, flow or solver object and computing again gives the same results as doing so on a new object; computing twice gives the same results as computing once. Grids may grow, shrink or change position and periodicity between uses.",
  ["inputs", "histories"], "all histories of set/compute/apply calls on one object, all grids",
  "Almost all tests use each object once.",
  ["cpp/SgConserveInterp2D.h", "cpp/SgNodeInterp2D.h", "cpp/SgFlowInterp2D.h", "cpp/SgFindPointInCell.h", "cpp/SgQuadIntersect.h", "cpp/SgQuadLineIntersect.h", "cpp/SgQuadLineFlows.h", "cpp/SgFindOverlappingCells2D.h", "cpp/SgLinearSolve.h"],
  [("state set by the setters", "setSrcGrid, setDstGrid, setGrid, setQuadPoints, setLinePoints, setPolygonPoints"), ("state of the computation", "computeWeights, reset, findSrcCellIndices")],
  ["all set/compute/get functions of the C interface"])
p("C12", "Flow application maps cell weights to the right edges and sums them",
  "Applying flow weights sets each destination segment that has weights to the sum, over the source cells it crosses and the four edges of each cell, of the weight times the source value of that edge; edges along the first axis are indexed (cells x nodes) and edges along the second axis (nodes x cells), row-major. The result is linear in the edge data, does not depend on the previous contents of the destination, and segments without weights are untouched.",
  ["inputs"], "all source grids, destination polylines and edge fields",
  "Tests use fields with a stream function on square grids, for which swapped edges often give the same total.",
  ["cpp/SgFlowInterp2D.h", "cpp/SgBoxIterator.h"], [("edge lookup", "SgFlowInterp2D_type::apply"), ("edge iterators", "setSrcGrid")],
  ["SgFlowInterp2D_apply"])
p("C13", "Flows of a potential field are potential differences; reversal flips the sign",
  "For edge data that are differences of a nodal potential which is bilinear in index space, the interpolated flow along a segment inside the grid is the difference of the potential between its ends, on any grid of convex cells in general position. Within one cell the weights of a segment are the integrals of the four edge basis functions, they are additive when the segment is split and change sign when it is reversed.",
  ["inputs"], "all source grids of convex cells, all segments in the domain that do not run along an edge, all splittings",
  "The tests compare a few stream functions on fixed segments to fixed values.",
  ["cpp/SgFlowInterp2D.h", "cpp/SgQuadLineFlows.h", "cpp/SgQuadLineIntersect.h"],
  [("projection formula", "SgQuadLineFlows_type::computeProjections"), ("accumulation", "SgFlowInterp2D_type::computeWeights"), ("index location", "computeStartEndLineIndices")],
  ["SgFlowInterp2D_computeWeights", "SgFlowInterp2D_apply", "SgQuadLineFlows_getProjection"])
p("C14", "Quad/line intersection points are ordered, on the segment and in the quad",
  "The points reported for a segment and a convex quad lie on the segment and in the quad, up to a small tolerance, and are ordered from the start to the end of the segment. The first and last reported points are the ends of the part of the segment that lies in the quad, whenever that part has positive length and does not run along an edge; a segment clearly outside the quad yields no points.",
  ["inputs"], "all convex quads and segments, including ends on the boundary and segments through corners",
  "The tests use half a dozen segments with a unit square.",
  ["cpp/SgQuadLineIntersect.h", "cpp/SgQuadLineIntersect.cpp"],
  [("edge crossing", "collectEdgeToLineIntersectionPoints"), ("ends inside", "isPointInQuad"), ("sort and evaluate", "collectIntersectPoints")],
  ["SgQuadLineIntersect_collectIntersectPoints"])
p("C15", "The overlapping cell finder returns valid distinct cells covering the polygon",
  "The reported cells are distinct and are valid row-major flat cell indices of the source grid. On a uniform rectangular grid, every cell whose interior meets the bounding box of the polygon is reported, and the reported cells form an index box; this holds also when the polygon sticks out of the grid.",
  ["inputs"], "all rectangular grids and polygons; validity and distinctness for all grids",
  "The tests compare the number of cells for a few polygons on square grids.",
  ["cpp/SgFindOverlappingCells2D.h", "cpp/SgFindOverlappingCells2D.cpp"],
  [("index box", "findFloatIndexBoxOfPolygon"), ("enumeration", "findSrcCellIndices")],
  ["SgFindOverlappingCells2D_getSrcCellIndices"])
p("C16", "Octree boxes tile the domain and contain the points they are keyed by",
  "The boxes of each level of the octree are congruent, do not overlap, and tile the bounding box of the points; each box is split evenly into the boxes whose key extends its own. The key computed for a point at a level designates a box of that level that contains the point, and keys at deeper levels extend keys at shallower levels.",
  ["inputs"], "all point sets that extend along every axis in 1 to 3 dimensions, all numbers of levels, all query points in the domain",
  "The tests look up a few points in 2D and 3D.",
  ["cpp/SgOctreePoints.h"], [("subdivision", "refineOctree, computeLoHi"), ("key", "getKey"), ("lookup", "getLo, getHi")],
  ["SgOctreePoints_type public methods"])
p("C17", "The linear solver solves square and rectangular systems",
  "For a matrix of full rank given in row-major order, solving reports success and the solution minimises the residual: it is the solution of a square system, a least squares solution of an over-determined one and an exact solution of an under-determined one. The matrix and right-hand side given by the caller are not modified, and the reported residual is the sum of the absolute residuals of the current solution.",
  ["inputs"], "all numbers of rows and columns, all well-conditioned full rank matrices and right-hand sides",
  "The tests solve one 2x2 and one 3x3 system; the tests for rectangular systems use square ones or do not run.",
  ["cpp/SgLinearSolve.h", "cpp/SgLinearSolve.cpp"], [("copies", "setMatrix, setRightHandSide"), ("call of dgels", "solve"), ("residual", "getResidual")],
  ["SgLinearSolve_setMatrix", "SgLinearSolve_solve", "SgLinearSolve_getSolution", "SgLinearSolve_getResidual"])
p("C18", "Rectangular and polar grid generators place every node correctly",
  "The rectangular generator sets node (i, j), at flat index i*n1 + j, to the point dividing the two given corners in the proportions i/(n0-1) and j/(n1-1), ends included. The polar generator sets it to radius r0 + i*radius/(n0-1) and angle t0 + j*2*pi/(n1-1), where (r0, t0) is the given centre. All nodes and nothing else is written.",
  ["inputs"], "all node dimensions of at least 2, all corners, centres and radii",
  "The tests plot one grid of each kind.",
  ["utils/createGrids2D.cpp"], [("generators", "createRectangularGrid, createPolarGrid")],
  ["createRectangularGrid", "createPolarGrid"])
p("C19", "Rotated pole and tripolar generators produce valid spherical grids",
  "Both generators write a finite latitude in [-90, 90] and a finite longitude for every node and write nothing else. The rotated pole grid is the regular grid rotated by the given latitude and longitude angles: it is the regular grid for zero angles, and rotations preserve the angular distance between nodes. Up to and including the row of the cap index the tripolar grid is the regular grid of latitudes and longitudes, the rows above lie at or north of that row, every row is closed, and the reported dimensions match the layout of the coordinate arrays.",
  ["inputs"], "all node dimensions of at least 2 (3 latitudes for the tripolar grid), all rotation angles, all cap indices below the last latitude row",
  "The tests plot two rotated grids and print one tripolar grid.",
  ["utils/createGrids2D.cpp", "cpp/SgTripolarGrid.h"], [("rotation", "createRotatedPoleGrid, matrixDotMatrix, matrixDotVector"), ("tripolar", "SgTripolarGrid_type::getGrid")],
  ["createRotatedPoleGrid", "SgTripolarGrid_getGrid"])
p("C20", "Command-line parsing stores the value after each known option",
  "Parsing succeeds exactly when every argument that looks like an option name (a dash followed by a non-digit) was declared, and then each declared option holds the value following its last occurrence that is followed by one, converted to its type, or its default when there is none; each occurrence of a boolean option flips it. When parsing fails, no value changes. Lists of numbers are read from comma separated strings, one item per comma separated field, and undeclared names give the documented neutral value.",
  ["inputs", "histories"], "all declarations of options and all argument vectors",
  "One test with one argument vector.",
  ["utils/CmdLineArgParser.cpp", "utils/CmdLineArgParser.h"], [("validation and assignment", "CmdLineArgParser::parse"), ("typed access", "CmdLineArgParser::get")],
  ["CmdLineArgParser::parse", "CmdLineArgParser::get"])
p("C21", "Lines, triangles and tetrahedra report their points, edges and faces",
  "A line, triangle or tetrahedron reports the points it was built from, in order and by value, and the numbers of its points, edges and faces. The edges of a triangle are its three sides going round; the edges of a tetrahedron are its six distinct vertex pairs and its faces its four distinct vertex triples.",
  ["inputs"], "all points",
  "Each test builds one object and compares some of the entries.",
  ["cpp/SgLine.cpp", "cpp/SgTriangle.cpp", "cpp/SgTetrahedron.cpp"], [("construction", "Sg*_new"), ("access", "Sg*_getPoint, Sg*_getEdge, Sg*_getFace")],
  ["SgLine_*, SgTriangle_*, SgTetrahedron_*"])
p("C22", "No call reads or writes out of bounds, and deleting frees everything once",
  "Used as documented, no function of the library accesses memory outside the arrays of its documented size and its own storage. Deleting an object releases all the memory that it allocated since its creation, exactly once, also when grids have been set several times and when the object is deleted right after creation.",
  ["inputs", "histories"], "all objects, all documented call histories, all input sizes",
  "Tests run without memory checking; leaks and small overruns are invisible to them.",
  ["cpp/*.h", "cpp/*.cpp", "utils/*.cpp"], [("ownership", "constructors, destructors, Sg*_new, Sg*_del"), ("array sizes", "all setters")],
  ["all functions of the C interface"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
