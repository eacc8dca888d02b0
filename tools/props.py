PBT = "stateful property-based testing of generated API histories"
NOTE = "Random exploration: held on every generated case of the run (numbers, non-trivial rule and samples in the evidence); no proof. Trusts the harness' own reference model and the compiler."
PROPS = [
 dict(id="C01", title="Undo restores and redo reproduces the state exactly",
  statement="After any sequence of successful editing operations (mesh2d, mesh1d, network, contacts and curvilinear grid, in any of several states), undoing an operation restores every observable part of the state to what it was before that operation, and redoing it reproduces exactly what the operation had produced, however often and in whatever order undo and redo alternate. Undo and redo report the state they changed and leave all other states alone.",
  quant="every sequence of editing operations with every argument, interleaved with undo and redo, over several states and all three projections",
  why="The tests undo a few fixed operations on fixed meshes; about seventy operations, each with its own undo action, can follow each other in any order.",
  files=["libs/MeshKernel/src/UndoActions", "libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("undo actions of nodes, edges, whole grids and curvilinear blocks", "libs/MeshKernel/src/UndoActions"), ("the undo stack", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp")],
  design='random histories of about seventy operations over several states with undo and redo walks between them; oracle: the complete observable snapshot taken before and after each operation, compared exactly after every undo and redo.',
  technique=PBT, note=NOTE),
 dict(id="C02", title="The undo history and the life cycle of states follow a simple model",
  statement="The history behaves as one bounded stack of done actions and one of undone actions over all states: every successful editing call adds one action and drops the undone actions of its own state, the configured limit discards the oldest actions, counting and clearing (overall and per state) agree with the model, and allocating, deallocating, expunging and clearing states affects exactly the ids concerned, never another state's data.",
  quant="every interleaving of editing, undo, redo, counting, clearing, resizing of the history and creation and removal of states, for every limit",
  why="The tests look at short fixed sequences; the bookkeeping depends on the whole history, the limit and the interleaving of states.",
  files=["libs/MeshKernel/src/UndoActions/UndoActionStack.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"],
  mech=[("UndoActionStack", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"), ("allocate, deallocate, expunge", "libs/MeshKernelApi/src/MeshKernel.cpp")],
  design='random interleavings of editing calls, undo, redo, counts, clearing, resizing of the history, allocation, deallocation, expunging; oracle: a small reference model of the two stacks and of the set of states, with the snapshots each action leads between.',
  technique="model-based property-based testing (reference model of the history)", note=NOTE),
 dict(id="C03", title="A call that reports an error changes nothing",
  statement="Whenever an API call returns a nonzero exit code, it leaves every observable part of every state and the undo history as they were before the call, and an error message is available. Calls that name a state that does not exist, a node or edge index outside the mesh, an unknown deletion option, projection or property are refused in this way.",
  quant="every history of calls with valid and invalid arguments",
  why="The tests check a few error codes and hardly ever what a failing call left behind.",
  files=["libs/MeshKernelApi/src/MeshKernel.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/CurvilinearGrid"],
  mech=[("exception handling of every API function", "libs/MeshKernelApi/src/MeshKernel.cpp"), ("parameter checks", "libs/MeshKernel/include/MeshKernel/Parameters.hpp")],
  design='random histories in which arguments are often invalid (unknown states, indices outside the mesh, unknown enumerations, wrong sizes, degenerate grids); oracle: snapshot before equals snapshot after whenever the exit code is not zero, all 149 functions with a state id refuse an unknown id.',
  technique=PBT, note=NOTE),
 dict(id="C05", title="Any edit history leaves a consistent mesh2d",
  statement="After any sequence of successful mesh2d operations, undos and redos the published mesh is consistent: the counts match the arrays, edges join existing distinct nodes, every face has 3 to 6 distinct nodes joined consecutively by its listed edges, and the faces listed per edge are exactly the faces that contain it. If the drawn mesh is a planar map its faces are exactly the counter-clockwise enclosures of at most 6 edges, edge centres are edge midpoints, face centres are centres of mass (cartesian), and an operation on such a mesh makes no duplicate edge and no edge from a node to itself.",
  quant="every history of mesh2d operations on every generated mesh, in all three projections",
  why="The tests compare a few resulting meshes with recorded numbers; consistency has to survive every combination of operations.",
  files=["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("administration of nodes, edges and faces", "libs/MeshKernel/src/Mesh2D.cpp (Administrate, FindFaces)")],
  design='random histories of all mesh2d operations on generated meshes in three projections, plus distorted meshes and mesh creation; oracle: an independent half-edge face finder and direct checks of all published arrays.',
  technique=PBT + " against a reference face finder", note=NOTE + " The enclosure of which all edges already have a face, two of them the same one, may be a hole and is not judged; nodes with more than 15 edges are not judged (limit of the library)."),
 dict(id="C06", title="Derived mesh2d quantities match their definition on the current mesh",
  statement="After any history of edits, undos and redos, the edge lengths, edge orthogonality (absolute cosine between an edge and the line through the circumcentres of its two faces), edge smoothness (ratio of the larger to the smaller adjacent face area), hanging edges, small flow edges, obtuse triangles, face polygons by number of edges and face polygons filtered on orthogonality equal what their definition gives for the published mesh, with the announced dimension. Deleted edges have missing lengths, and orthogonality and smoothness are missing exactly on edges that do not lie between two faces.",
  quant="every history of mesh2d operations, every order of queries, every threshold and filter range",
  why="The tests compare recorded numbers on a few fresh meshes; the quantities are derived from cached connectivity that every operation has to keep current.",
  files=["libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("GetOrthogonality, GetSmoothness, GetHangingEdges, GetObtuseTrianglesCenters, GetEdgesCrossingSmallFlowEdges, FilterBasedOnMetric", "libs/MeshKernel/src/Mesh2D.cpp"), ("ComputeEdgesLengths", "libs/MeshKernel/src/Mesh.cpp")],
  design="random histories of mesh2d operations with undo and redo; after each, a random subset of the queries in random order (before the mesh itself is read, so that nothing refreshes the administration); oracle: each quantity recomputed from the published nodes, edges and faces, with the reference circumcentre of harness/circum.hpp and error bounds for its iteration.",
  technique=PBT + " against recomputation", note=NOTE + " Numerical values of orthogonality, smoothness and flow edges are judged in cartesian coordinates on meshes without slivers and non-convex faces; in spherical projections which edges have a value and the lengths (within 1 percent) are judged."),
 dict(id="C08", title="Nearest-location queries agree with the current mesh",
  statement="After any history of edits, undos and redos, asking for the location nearest to a point returns an existing node, edge or face of the current mesh2d or curvilinear grid of which the location (node, edge midpoint; face circumcentre of a mesh2d, mean of the four corners of a curvilinear cell) inside the given bounding box is nearest, and fails if the box holds none. A node query with a search radius returns the nearest node of all if it lies within the radius and none otherwise (cartesian; these queries ignore the bounding box).",
  quant="every history of mesh2d and curvilinear operations, every query point, radius and bounding box",
  why="The tests query fresh meshes; the search trees are cached and every operation, undo and redo has to invalidate them.",
  files=["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
  mech=[("cached R-trees and their invalidation", "libs/MeshKernel/src/Mesh.cpp (BuildTree, SetAllRTreesRequireUpdate)"), ("location queries", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp (FindLocationIndex)")],
  design="random histories on generated meshes and grids with queries before and after every operation (before the mesh is read, so that nothing refreshes the trees); oracle: brute-force minimum over all locations computed from the published arrays, with the reference circumcentre of harness/circum.hpp.",
  technique=PBT + " against brute force", note=NOTE + " Spherical projections: nodes and edges only, coordinates on the globe, distances within 3 percent (the library searches on the ellipsoid). Face queries are judged on meshes without slivers and non-convex faces; ties are not judged."),
 dict(id="C09", title="Selection by polygon follows the geometric definition",
  statement="A point is selected by a list of disjoint simple polygons with holes exactly if it lies inside one of them and outside its holes, whatever the orientation and starting corner of the rings and however the point lies to their corners and extended sides; without polygon everything is selected, and points exactly on the outline count as inside. Counting, selecting inside and selecting outside the polygons agree: each existing mesh node is selected by exactly one of the last two, deleted nodes by none, and every point that is asked about gets its own answer.",
  quant="every mesh after every history, every list of disjoint simple polygons with holes, every point",
  why="The tests select nodes of one grid with one square; inclusion has to hold for every polygon shape and relative position.",
  files=["libs/MeshKernel/src/Polygon.cpp", "libs/MeshKernel/src/PolygonalEnclosure.cpp", "libs/MeshKernel/src/Polygons.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("winding number and spherical test", "libs/MeshKernel/src/Polygon.cpp (Contains)"), ("holes", "libs/MeshKernel/src/PolygonalEnclosure.cpp"), ("node mask", "libs/MeshKernel/src/Mesh2D.cpp (NodeMaskFromPolygon)")],
  design="generated polygons with holes over generated meshes (after edits) and clouds of points, many at the height of corners and on extended sides, plus lattice polygons for the outline; oracle: even-odd crossing test away from the outline, exact lattice arithmetic on it.",
  technique="property-based testing against a reference inclusion test", note=NOTE + " Polygons of a list do not overlap each other. In the accurate spherical projection points within 3 percent of the polygon size from the outline are not judged (great circles)."),
 dict(id="C10", title="Deleting with a polygon removes exactly what the option selects",
  statement="A face is selected if all its nodes lie inside the polygons and no side of a polygon crosses its edges (option 0), if all its nodes lie inside or a side of a polygon crosses one of its edges (option 1), or if its circumcentre lies inside (option 2); inverting takes the other faces. Deleting removes exactly the edges whose faces are all selected (option 2: also edges without faces whose midpoint is selected), then the nodes left without edges; everything else keeps its index, coordinates and connections.",
  quant="every mesh after every history, every list of polygons with holes, every option, inverted or not",
  why="The tests delete with a few squares from a few grids.",
  files=["libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh2DIntersections.cpp", "libs/MeshKernel/src/Polygons.cpp"],
  mech=[("DeleteMesh, DeleteMeshFaces", "libs/MeshKernel/src/Mesh2D.cpp"), ("crossed faces", "libs/MeshKernel/src/Mesh2DIntersections.cpp")],
  design="generated meshes (after edits) and polygon lists; oracle: three-valued (yes, no, too close to call) selection of every face from the published geometry, from which the fate of every edge and node follows.",
  technique="property-based testing against a reference selection", note=NOTE + " Edges without faces are not judged for options 0 and 1; meshes with loops or duplicate edges are not judged."),
 dict(id="C11", title="Refinement halves what it should and partitions the mesh",
  statement="Refining a mesh of triangles and convex quadrilaterals keeps every node with its index and coordinates, keeps or halves at its midpoint every edge at most once per level, splits every refined triangle or quadrilateral into four parts that cover it exactly (quadrilaterals around the centre of mass if so asked), leaves no hanging nodes if they are to be connected, and leaves alone what would get edges below the minimum size. One polygon level refines exactly the faces that touch a node all of whose faces have only nodes inside the polygon (with refine_intersected neighbours of inside nodes count as inside) and those left with at most one edge not halved; k levels on the whole mesh give 4^k parts per face. With samples a face holding a sample of positive level is refined, smoothing adds edge-neighbours per iteration, a single sample of level k gives k splits, and a constant depth halves edges until they are no longer than sqrt(g depth) times the time step or would become too short; where the depths of the (regular or irregular) grid of samples differ, one iteration refines exactly the faces all of whose edges are too long for the depth interpolated bilinearly at the centre of the face, or for the nodal criterion at the edge, there no faces on land and all faces with both land and water.",
  quant="every generated mesh, polygon, sample set and parameter set",
  why="The tests compare counts and a few nodes of a few recorded refinements.",
  files=["libs/MeshKernel/src/MeshRefinement.cpp", "libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("marking and splitting", "libs/MeshKernel/src/MeshRefinement.cpp (ComputeEdgesRefinementMask, RefineFacesBySplittingEdges, ConnectHangingNodes)"), ("node mask from polygons", "libs/MeshKernel/src/MeshRefinement.cpp (ComputeNodeMaskAtPolygonPerimeter)")],
  design="generated meshes (rectangular, curved, mixed, with holes), polygons, sample sets and parameters; oracle: an independent prediction of the faces to be refined, of every halved edge, and of the partition of every old face by area and position; spherical meshes for the midpoint and keeping rules.",
  technique="property-based testing against a reference refinement", note=NOTE + " Splitting around circumcentres is judged on near-rectangular meshes for one level only; a minimum edge size that interferes with part of the faces and relative search radii other than 1 are not judged. One open finding (samples shared by search circles)."),
 dict(id="C16", title="Interpolation of samples follows its definition at every mesh location",
  statement="After any history of edits, undos and redos, interpolating samples to nodes, edges or faces reports the current locations (node, edge midpoint, face mass centre) and values. Triangulation gives, inside the convex hull of the samples, the linear interpolation in the Delaunay triangle that holds the location, and missing outside. Averaging applies the method (mean, closest to the location, maximum, minimum, inverse distance with distances of at least 0.01, minimum absolute value) to the non-missing samples inside the face, or inside the dual polygon of the node, enlarged once about its mass centre by the relative search size; edges get the mean of their two nodes, and where there are no samples (or fewer than the minimum number, for mean and inverse distance), or the node or edge is deleted, the value is missing.",
  quant="every mesh after every history, every set of samples, method, location type, relative size and minimum number",
  why="The tests interpolate a few recorded sample sets on fresh meshes.",
  files=["libs/MeshKernel/src/TriangulationInterpolation.cpp", "libs/MeshKernel/src/AveragingInterpolation.cpp", "libs/MeshKernel/src/AveragingStrategies", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("search of the triangle", "libs/MeshKernel/src/TriangulationInterpolation.cpp"), ("search polygons and strategies", "libs/MeshKernel/src/AveragingInterpolation.cpp"), ("dual faces", "libs/MeshKernel/src/Mesh2D.cpp (MakeDualFace)")],
  design="generated meshes after edits, undo and redo; scattered, regular and mesh-aligned samples; half of the interpolations run before the mesh is read; oracle: brute-force Delaunay triangles (empty circumcircle) and brute-force selection of samples in the enlarged polygons.",
  technique="property-based testing against brute-force interpolation", note=NOTE + " Samples within rounding of a search polygon, nodes with edges that bound no face and meshes with crossing edges are not judged; in spherical coordinates the values are bounded by those of the samples."),
 dict(id="C17", title="1d-2d contacts connect what their definition selects",
  statement="Contacts always connect existing 1d nodes that the mask selects with existing faces of the current mesh2d, after any history of edits. With points: every point inside a face connects that face with the nearest masked 1d node. With polygons: every polygon that holds mass centres of faces gets exactly one contact, the nearest pair of such a face (mass centre) and a masked node; other polygons get none. Boundary: every boundary face whose circumcentre lies in the polygons (or without polygons) is connected once, to the nearest of the masked nodes whose distance to the circumcentre is within the search radius (by default the longest 1d edge at the node), if any. Multiple: every face crossed by a 1d edge is connected once, to the end of that edge nearer to the circumcentre, if that node is masked and inside the mesh and the circumcentre is within sqrt(1.1) times the longest 1d edge at the start of the edge. Single: every selected node inside a face is connected to that face only; a node outside the mesh is connected, to either side, to the first boundary face met by the normal of the 1d line with the length of the edge (for inner nodes of the distance of the neighbours) times the projection factor, unless this crosses the 1d mesh or an earlier contact.",
  quant="every mesh2d after every history, every 1d mesh, mask, set of polygons or points, radius and projection factor",
  why="The tests compute contacts for a handful of recorded meshes without masks.",
  files=["libs/MeshKernel/src/Contacts.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh1D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("five contact algorithms", "libs/MeshKernel/src/Contacts.cpp"), ("face of a point", "libs/MeshKernel/src/Mesh2D.cpp (PointFaceIndices, IsSegmentCrossingABoundaryEdge)")],
  design="generated meshes (half after operations and undo, contacts computed before the mesh is read), branching 1d meshes inside and around them, masks, polygons with holes, points; oracle: brute force over all faces, edges and nodes of the published meshes with the reference circumcentre of harness/circum.hpp; decisions within tolerance are not judged.",
  technique="property-based testing against brute-force contacts", note=NOTE + " Cartesian; nodes outside the mesh at junctions of three or more 1d edges are not judged (single)."),
 dict(id="C18", title="The 1d mesh of a network follows its polylines and chainages",
  statement="The 1d mesh made from a network has nodes exactly at the chainages measured along each polyline: its start and end, those made by fixed points (a node at the offset before and after each fixed point; where the one before would be closer than the minimum face size to the preceding node made by a fixed point, that node moves half-way between the two; nodes too close to the start or to the preceding one, or beyond the ends, are left out) and those of offsetted chainages (each interval longer than the offset is divided into the smallest number of equal parts not longer than it), in whatever order and however often these are requested. Edges connect exactly the neighbouring nodes of every polyline; nodes within the minimum face size are merged so that none closer remain and the connections are kept. The result, like an added 1d mesh, is appended to the existing 1d mesh, which keeps its nodes and edges.",
  quant="every network of polylines, every sequence of chainage requests, every minimum face size",
  why="The tests use one or two polylines with segments longer than the offsets.",
  files=["libs/MeshKernel/src/Network1D.cpp", "libs/MeshKernel/src/Mesh1D.cpp", "libs/MeshKernel/src/Operations.cpp", "libs/MeshKernel/src/Mesh.cpp"],
  mech=[("chainages", "libs/MeshKernel/src/Network1D.cpp"), ("discretization", "libs/MeshKernel/src/Operations.cpp (ComputePolyLineDiscretization)"), ("joining", "libs/MeshKernel/src/Mesh.cpp (operator+=, MergeNodesInPolygon)")],
  design="networks of one to five polylines with long and very short segments and junctions, up to three chainage requests in any order; oracle: a reference model of the chainages and of the points on the polylines, compared as sets of points and connections (with merging: groups of points).",
  technique=PBT + " against a reference model", note=NOTE + " Cartesian; fixed points closer than twice the offset to each other are not generated."),
 dict(id="C07", title="What is set is what is read back",
  statement="A mesh2d, 1d mesh, curvilinear grid or set of contacts that is set is read back exactly: the same coordinates, edges in the same order and direction, contacts and grid dimensions, also when read again, by either reading function, and whatever was there before; setting it in one state leaves all other states alone, and a state keeps the projection it was allocated with. Faces given with a mesh2d are taken over in the given order with their nodes, their edges (edge i between node i and i+1), centres and edge-face relations. The mesh that is read after any edits, set in another state, gives the same mesh without its deleted nodes and edges, with the same faces. An added mesh2d is appended: existing nodes and edges keep their index and values, the added ones follow in their order.",
  quant="every mesh, grid, selection of faces and set of contacts, in every projection, after every history",
  why="The tests read back a few grids set into a fresh state.",
  files=["libs/MeshKernelApi/src/MeshKernel.cpp", "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp", "libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp"],
  mech=[("conversion from and to the API structures", "libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp"), ("given faces", "libs/MeshKernel/src/Mesh2D.cpp (FindFacesGivenFaceNodesMapping)"), ("joining", "libs/MeshKernel/src/Mesh.cpp (operator+=)")],
  design="generated meshes, grids with missing nodes, 1d meshes, contacts and subsets of faces in random order and rotation; histories of operations before reading; oracle: the data that was set (round trip), the data of the other state.",
  technique="property-based round-trip testing", note=NOTE + " Given faces are read without mesh2d_get_dimensions, which finds the faces anew. Nodes without edges are not kept by design."),
 dict(id="C19", title="Generated grids are the grids that were asked for",
  statement="A rectangular grid has rows+1 by columns+1 nodes, node (n,m) at the origin plus m times the x block size along the grid angle plus n times the y block size perpendicular to it; in spherical coordinates the latitudes instead follow the increments block size * cos(lat) * (0.3 + 0.7 cos(lat)). On an extension the grid has just enough columns and rows to cover the extension; an extension less high than a cell is rejected for cartesian coordinates. From a polygon the grid is the lattice with that angle and those block sizes and keeps exactly the nodes of the cells whose four nodes are inside the polygon; no such cell of the lattice is missing. A circular grid has its rows on circles around the origin and its columns at equal angles, starting at 90 degrees plus the grid angle and going clockwise by block size / radius (at most once around); with radius zero it is a straight grid with the given angle; regular rows and columns have the block size, graded ones are not smaller. The mesh2d functions of the same name append exactly the nodes and edges of that grid to the mesh2d, in the projection of the state, and leave what was there unchanged.",
  quant="every set of parameters, extension and polygon, in both projections, whatever the state held before",
  why="The tests compare a few grids with stored coordinates.",
  files=["libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("node coordinates", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp (ComputeCartesian, ComputeSpherical, ComputeNumRows)"), ("cells inside a polygon", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp (Delete)"), ("circular grids", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp")],
  design="generated parameters, extensions and star-shaped polygons; oracle: closed formulas for each node, an independent point-in-polygon test on the whole lattice, and for the mesh2d functions the grid of the curvilinear function (differential).",
  technique="property-based testing against closed formulas and a differential oracle", note=NOTE + " Latitudes beyond 85 degrees, where the generator snaps to the poles, are not generated; polygons are cartesian there. Sizes of graded rows are only bounded from below."),
 dict(id="C21", title="Grid-mesh conversions keep nodes, edges and cells; boundaries are complete",
  statement="Converting a curvilinear grid to a mesh2d appends exactly the valid nodes of the grid, one edge for each pair of valid grid neighbours and each complete cell as a face, leaves the existing nodes and edges unchanged, the grid empty and the projection as it was. Converting a mesh2d to a curvilinear grid from a point inside a quadrilateral gives a grid that contains that quadrilateral, in which every node is a node of the mesh and occurs once, in which grid neighbours are connected by an edge of the mesh, and which contains all quadrilaterals connected with the first over common edges if their nodes form a regular lattice; the mesh2d is empty afterwards. The boundary polygons of a mesh2d, and of any block of a curvilinear grid given in either order of its corners, are closed and consist of exactly the edges that have a face (a complete cell of the block) on one side only, each once, and as many coordinates as the counting function says.",
  quant="every grid with missing nodes, every mixed lattice, every start cell, every block, after every history",
  why="The tests convert a few complete grids and look at counts.",
  files=["libs/MeshKernel/src/Mesh2DToCurvilinear.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernelApi/src/MeshKernel.cpp"],
  mech=[("grid to mesh", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp (ComputeNodes, ComputeEdges)"), ("mesh to grid", "libs/MeshKernel/src/Mesh2DToCurvilinear.cpp"), ("boundaries", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp (ComputeBoundaryPolygons), libs/MeshKernel/src/Mesh2D.cpp (ComputeBoundaryPolygons)")],
  design="generated grids with missing nodes, lattices of quadrilaterals with split and absent cells in random node and edge numbering, meshes after histories; oracle: sets of nodes, edges and cells computed directly from the input.",
  technique="property-based testing against sets computed from the input", note=NOTE + " A quadrilateral is allowed to be left out when joining it would make neighbours of nodes that have no quadrilateral edge between them."),
 dict(id="C23", title="Rigid transformations and projection conversions move the nodes and nothing else",
  statement="Rotating a cartesian mesh2d by an angle in degrees around a centre, or translating it, moves every valid node to the rotated (counter-clockwise) or translated place; deleted nodes stay deleted, node and edge numbers, edges and validity stay the same; a spherical mesh is refused and unchanged. Converting the projection with a UTM zone gives the coordinates of the transverse Mercator projection on WGS84 (and back, with round trips returning the original coordinates), sets the projection of the state, keeps edges and faces, and does nothing if the projection is already the requested one. Undo and redo restore nodes and projection exactly. Afterwards everything that is computed from the mesh (faces, centres, edge lengths, orthogonality, smoothness, nearest node and edge) is what a fresh state gives for the same mesh in the same projection.",
  quant="every mesh after every history, every angle, centre, shift and UTM zone, every sequence of transformations, undos and redos",
  why="The tests transform a uniform grid once.",
  files=["libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp", "libs/MeshKernel/include/MeshKernel/ProjectionConversions.hpp", "libs/MeshKernelApi/src/MeshKernel.cpp", "libs/MeshKernel/src/Mesh.cpp"],
  mech=[("transformations", "libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp"), ("conversion", "libs/MeshKernel/include/MeshKernel/MeshConversion.hpp, ProjectionConversions.hpp"), ("undo", "libs/MeshKernel/src/UndoActions/MeshConversionAction.cpp"), ("search trees", "libs/MeshKernel/src/Mesh.cpp (BuildTree)")],
  design="generated meshes and histories, sequences of rotations, translations and conversions with undo and redo, search trees built before or not; oracle: the formulas of rotation and translation, Krueger series for the transverse Mercator projection, and a fresh state with the same mesh (differential).",
  technique="property-based metamorphic and differential testing", note=NOTE + " Conversions are checked up to 4 degrees from the central meridian, to 5 cm."),
 dict(id="C20", title="Editing a curvilinear grid changes exactly the nodes the edit is about",
  statement="Each edit of a curvilinear grid, in any sequence, gives the grid that follows from the previous one: moving a node moves the nearest node only; deleting a node, the interior or the exterior of a block makes missing exactly the nearest node, the nodes strictly inside the block, or the nodes outside of it, and the nodes that are left without a complete cell; derefining drops the grid lines strictly between the corners of the block; refining along a line, or fully, divides each cell of the chosen rows and columns into that many parts, keeps all existing nodes, puts the new nodes of each grid line on the natural cubic spline through its nodes (on equal parts for a uniform grid) and fills no missing cell; inserting a face at the nearest edge adds the two missing nodes by linear extrapolation, moves no existing node, and is refused if the edge has cells on both sides; mirroring a boundary line adds one line at (1+f) times the line minus f times its neighbour and overwrites nothing; smoothing a block moves inner nodes to half the node plus an eighth of each neighbour per iteration, keeps corners, keeps nodes of a straight boundary on it, and moves no node outside of the block; directional smoothing moves nodes along their grid line towards the farther neighbour, weighted by the distance to the line; attraction and repulsion move only the nodes of the area that are not on the line, with the cosine weight; a line shift moves the nodes of the line by the linear interpolation of the given displacements and the nodes of the block by that times the cosine weight, and nothing else; orthogonalizing moves only nodes of the block, no inner node of a frozen line, and leaves an orthogonal uniform grid in place.",
  quant="every grid with missing nodes, every sequence of edits, every block, line, factor and number of iterations",
  why="The tests carry out each edit once, on a complete grid and mostly on a block that touches the borders of the grid.",
  files=["libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp"],
  mech=[("edits of nodes and faces", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"), ("refinement", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp, CurvilinearGridFullRefinement.cpp, CurvilinearGridDeRefinement.cpp"), ("block edits", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp, CurvilinearGridLineAttractionRepulsion.cpp, CurvilinearGridLineShift.cpp, CurvilinearGridOrthogonalization.cpp")],
  design="generated uniform, turned, bent and jittered grids with missing nodes, sequences of up to eight edits; oracle: a model of the grid (matrix of nodes) on which each edit is carried out by its definition, compared node by node after every edit.",
  technique="stateful model-based property-based testing", note=NOTE + " Cartesian. The place of nodes of a bent boundary under smoothing, of nodes inside refined cells of irregular grids, and of orthogonalized nodes is only bounded. Whether a positive factor attracts to a line depends, for lines along n, on the handedness of the grid; the repository's tests pin that."),
{
"id":"C13",
"title":"Merging nodes and connecting meshes give the quotient mesh",
"statement":"mesh2d_merge_two_nodes(a, b) gives exactly the mesh in which a is replaced by b: b keeps its position, every edge a-x becomes b-x, the edge a-b disappears, no edge occurs twice, all other nodes and edges stay. mesh2d_merge_nodes_with_merging_distance merges, inside the polygon (everywhere for an empty polygon), nodes that lie within the merging distance (in metres on a sphere) of each other into one of them, and no others: nodes further apart or outside of the polygon keep their position and edges, and the edges are those of the original mesh with every node replaced by the one it was merged into (none lost, none twice, none from a node to itself). mesh2d_merge_nodes does this with a tenth of the shortest edge as distance. mesh2d_connect_meshes of two quadrilateral meshes whose boundaries face each other within searchFraction of the smaller edge, with one to five edges of the finer mesh along each edge of the coarser one, gives one mesh: matching nodes are merged (on the position of the finer mesh), all other nodes stay, there are no hanging nodes or duplicate edges, every edge belongs to a face, and the mesh covers the area of both meshes; it does not depend on numbering, edge directions or on which mesh is given first. Meshes too far apart are only put together; more than five edges along one edge is an error that leaves the mesh as it was.",
"quant":"all meshes (any numbering, quadrilaterals and triangles, loose edges), all pairs of nodes, all polygons and merging distances with groups of two or three nodes clearly within or beyond the distance; all pairs of rectangular quadrilateral meshes with edge ratios 1 to 8, gaps, shifts, search fractions, orientations and numberings",
"why":"the unit tests merge a handful of nodes and connect a few fixed pairs of meshes with fixed numbering; which edges get lost or doubled depends on the connectivity around the nodes and on edge directions",
"files":["libs/MeshKernel/src/Mesh.cpp","libs/MeshKernel/src/ConnectMeshes.cpp","libs/MeshKernelApi/src/MeshKernel.cpp"],
"mech":[("Mesh::MergeTwoNodes, Mesh::MergeNodesInPolygon", "libs/MeshKernel/src/Mesh.cpp"), ("ConnectMeshes::Compute", "libs/MeshKernel/src/ConnectMeshes.cpp")],
"design":"three facets. two: histories of merge_two_nodes on generated meshes, the expected edge set is computed by substitution. near: a generated mesh is taken apart by splitting nodes into two or three nodes within (or just beyond) the merging distance, distributing their edges, adding small and duplicate edges and renumbering; after merging, the survivors of each group are identified by position and the edge set must equal the quotient of the input. connect: pairs of lattices (ratio 1..8, gap, shift, partial overlap, rotated, mirrored, renumbered, either order); oracle: node sets, count of inserted nodes per template, Euler characteristic 1, no loose or double edges, perimeter and area of the union.",
"technique":"property-based testing: quotient-graph reference model on split meshes; invariants (Euler, area, perimeter, node sets) on connected lattices",
"note":NOTE+"Distances within 2 % of the merging distance, chains of nodes and nodes on the polygon are not judged; connect: lattices only, cartesian."
},
{
"id":"C24",
"title":"Polygon refinement, offset and snapping act on exactly the given part",
"statement":"polygon_refine between two point indices splits every edge in that range (also a range through the closing point, or all edges of the first polygon for 0, 0) into the nearest integer number of equal parts for the target length, keeps all given points and their order, and changes nothing outside of the range; polygon_linear_refine keeps the points outside of the range and the ends of the range, puts all new points on the given perimeter in order, and lets the lengths go gradually from that of the first edge of the range to that of the last; polygon_get_offset gives for every polygon and every hole, in order and with the separators of the input, the polygon whose edges are parallel to the given ones at the given distance to the right of the direction of traversal (and, when inner and outer are asked for, then the ones at the other side); polygon_snap_to_landboundary moves exactly the points of the range to the nearest point of the land boundaries (which are separated by missing values) and no others. The count functions give the number of points that the corresponding get functions return. On the sphere distances are in metres.",
"quant":"all simple closed polygons of either direction of traversal, one to three of them, with holes for the offset, cartesian and spherical; all index ranges, target lengths, offset distances and land boundaries",
"why":"the unit tests use a handful of polygons and index pairs, mostly a single square-like polygon; ranges through the closing point, several polygons, holes and short next to long edges are not tried",
"files":["libs/MeshKernel/src/Polygon.cpp","libs/MeshKernel/src/Polygons.cpp","libs/MeshKernelApi/src/MeshKernel.cpp"],
"mech":[("Polygon::Refine, LinearRefine, ComputeOffset, SnapToLandBoundary","libs/MeshKernel/src/Polygon.cpp"),("Polygons::OffsetCopy, PolygonIndex","libs/MeshKernel/src/Polygons.cpp")],
"design":"reference models: refine and offset are recomputed point by point; linear refine is checked by invariants (unchanged parts, ends, every point on the perimeter in order, monotone lengths); snapping is compared with a brute force nearest point over all land segments.",
"technique":"property-based testing against a reference model (refine, offset, snap) and invariants (linear refine)",
"note":NOTE+"Edge lengths within 1e-4 of a rounding boundary and reflex angles close to 360 degrees are not judged; linear refinement that reaches its iteration limit is only checked for points on the perimeter in order; snapping is cartesian."
},
{
"id":"C26",
"title":"Intersections of polygons with a mesh are exactly the crossed edges",
"statement":"mesh2d_intersections_from_polygon reports every edge (of a face) of the mesh that a segment of one of the given polygons crosses, each once, and no other edge; for each it gives a segment that crosses the edge, the relative place of the crossing on the segment and on the edge (from the first node of the edge of the mesh), and the two nodes of the edge, first the one at the right of the direction of the polygon and then the one at the left (the inner side of a counter-clockwise polygon). For a single polygon the crossings are in the order along the polygon. A face is reported if and only if one of its edges is crossed, with exactly its crossed edges. This holds for any numbering and after nodes or edges were deleted, for any number of segments and whether or not the polygon starts or ends in the mesh.",
"quant":"all meshes (quadrilaterals, triangles, holes, hanging edges, shuffled and with gaps in the numbering) and all polygons, one or two, coarse or with many segments per cell, in either direction",
"why":"the unit tests intersect two fixed lines with a small regular grid; the search walks over faces along the polygon, so what it misses depends on how the polygon leaves and enters the mesh",
"files":["libs/MeshKernel/src/Mesh2DIntersections.cpp","libs/MeshKernel/src/Operations.cpp"],
"mech":[("Mesh2DIntersections::Compute","libs/MeshKernel/src/Mesh2DIntersections.cpp"),("AreSegmentsCrossing","libs/MeshKernel/src/Operations.cpp")],
"design":"generated meshes with deletions and one or two generated polygons; brute force crossing of all edges with all segments is the oracle for the set of edges, their data, the order and the faces.",
"technique":"property-based testing, differential against a brute force reference",
"note":NOTE+"Cases where a node lies on a segment or a point of the polygon on an edge (within 1e-7 of the size) are not judged; edges that belong to no face are not judged; where several segments cross an edge any of them may be reported. Cartesian."
},
{
"id":"C14",
"title":"Triangular and global meshes are the ones that were asked for",
"statement":"mesh2d_make_triangular_mesh_from_samples adds the Delaunay triangulation of the samples, without the triangles that have an angle below 5 or above 150 degrees: its edges are exactly the edges of the remaining triangles, every remaining triangle is a face, its nodes are exactly the samples these edges use, each position once, and no edges cross. mesh2d_make_triangular_mesh_from_polygon does the same for points in the (first) polygon: the points are in the polygon and not in its holes, they contain every vertex of the outer polygon, only triangles with their centre in the polygon and not in a hole are kept, and the triangles are about as large as an equilateral triangle with the average edge of the polygon, whatever the size of the polygon. mesh2d_make_global gives nodes on rows of constant latitude, the same on both hemispheres, numLongitudeNodes per row at equal steps from -180 degrees on, with rows as far apart that cells are square at their middle latitude, numLatitudeNodes rows of cells on each hemisphere as far as they fit before the poles, and a complete ring of cells between two successive rows; numbers of nodes below 1 are an error. All of them leave the nodes and edges that the mesh already had unchanged and in front of the new ones.",
"quant":"all sets of samples (also cocircular, duplicate, collinear), all simple polygons with or without a hole, of any size and orientation, Cartesian and spherical, and all numbers of longitudes and latitudes",
"why":"the unit tests triangulate a few fixed files and compare counts; the selection of triangles, the mapping of the output of the Triangle library and the rounding in the rows of the global mesh depend on the points",
"files":["libs/MeshKernel/src/Mesh2D.cpp","libs/MeshKernel/src/TriangulationWrapper.cpp","libs/MeshKernel/src/Polygons.cpp","libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp","extern/triangle/src/TriangleFacade.c"],
"mech":[("Mesh2D::Mesh2D(points, polygons)","libs/MeshKernel/src/Mesh2D.cpp"),("TriangulationWrapper::Compute","libs/MeshKernel/include/MeshKernel/TriangulationWrapper.hpp"),("Polygons::ComputePointsInPolygons","libs/MeshKernel/src/Polygons.cpp"),("Mesh2DGenerateGlobal::Compute","libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp")],
"design":"generated points (random, jittered lattice, exact lattice, near a line, duplicates), polygons with cut edges and holes, numbers of longitudes and latitudes; the oracle is a brute force Delaunay triangulation by the empty circle (triangles with a fourth point almost on the circle may or may not be there), the angle and inclusion definition, and the recurrence of the latitudes solved by bisection.",
"technique":"property-based testing, differential against a brute force reference",
"note":NOTE+"Triangles within 1e-6 degrees of an angle bound and points within 1e-6 of the size of the polygon boundary are not judged. For global meshes the rows next to the poles (coarsened rows with pentagons and the last row) are only judged for their range and symmetry."
},
{
"id":"C12",
"title":"Casulli refinement gives the refined mesh of its definition",
"statement":"mesh2d_casulli_refinement (and _on_polygon for the nodes inside the polygon) replaces every selected node by one new node per face around it, halfway between the node and the circumcentre of the face, and one new node per boundary edge at it, a quarter of the edge away; nodes that are not selected stay where they are, and so do corner nodes (one face only, or two edges only). The new faces are exactly: one per old face (its new nodes), one per old edge (between the new nodes at its two sides, the boundary being a side), one per selected interior or boundary node (the new nodes around it), and at a corner the face, or the triangles when it has several faces, that join the corner to its new nodes; where a node is not selected it takes the place of its new nodes, so that faces without a selected node are unchanged. There are no gaps, no doubled nodes, edges or faces, and no edge is left that belongs to no face.",
"quant":"all meshes of quadrilaterals, triangles and larger faces with any numbering and gaps in it, holes, and all selecting polygons, where the new nodes are distinct and the new faces convex and of at most six nodes",
"why":"the unit tests refine four fixed grids and mostly compare counts; what is connected depends on the orientation and numbering of the edges, on boundaries and on which neighbours are selected",
"files":["libs/MeshKernel/src/CasulliRefinement.cpp","libs/MeshKernel/src/Mesh2D.cpp"],
"mech":[("CasulliRefinement::ComputeNewNodes","libs/MeshKernel/src/CasulliRefinement.cpp"),("CasulliRefinement::ConnectNewNodes","libs/MeshKernel/src/CasulliRefinement.cpp"),("CasulliRefinement::Administrate","libs/MeshKernel/src/CasulliRefinement.cpp")],
"design":"generated meshes with deletions and selecting polygons; the complete expected mesh (node positions and faces as sets of nodes) is built from the definition with reference circumcentres and compared with the result.",
"technique":"property-based testing, differential against a reference model",
"note":NOTE+"Meshes with edges that belong to no face or with a node in two boundaries are not judged, nor those where new nodes coincide or new faces are not convex or have more than six nodes. Cartesian. Casulli de-refinement is only covered by C01, C03 and C05."
},
{
"id":"C15",
"title":"Local edits of a 2d mesh change exactly the part they address",
"statement":"mesh2d_insert_node, insert_edge, insert_edge_from_coordinates (an end on an existing node uses that node), delete_edge (the edge whose centre is nearest), delete_edge_by_index, delete_node (with its edges) and move_node (the node goes to the new place; every node closer to it than the length of the move goes along by the fraction (1+cos(pi d/D))/2, all others stay) change the node and edge lists exactly as their names say, return the index of what was made, and leave all else as it was; inserting an edge that exists adds nothing. mesh2d_split_row divides exactly the quadrilaterals of the row through the edge: each is halved between the midpoints of its two crossed edges; where the row runs against a face that is not a quadrilateral the last crossed edge is not divided and the last quadrilateral becomes three triangles; a closed row is closed; all other faces and edges stay. mesh2d_flip_edges keeps the nodes, the boundary and the covered area, gives only triangles (sum of n-2 over the faces), and leaves no inner edge whose flip would bring the numbers of edges at four inner nodes closer to six. mesh2d_remove_disconnected_regions keeps exactly the (or a) region of edge-connected faces with the most faces, and the edges that bound no face. mesh2d_delete_hanging_edges deletes exactly the edges of which an end has no other edge in the mesh as it is at that moment. mesh2d_delete_small_flow_edges_and_small_triangles (with fraction 0, so that no triangle counts as small) deletes exactly the edges between two faces whose circumcentres are closer than the threshold times the mean of the square roots of the two face areas.",
"quant":"all meshes of quadrilaterals, triangles, mixed and with holes, rings, any numbering and edge direction, all seed edges, and all sequences of elementary edits",
"why":"the unit tests edit a handful of fixed meshes; what is hit depends on numbering, orientation, boundaries, holes and mixed faces",
"files":["libs/MeshKernel/src/SplitRowColumnOfMesh.cpp","libs/MeshKernel/src/FlipEdges.cpp","libs/MeshKernel/src/RemoveDisconnectedRegions.cpp","libs/MeshKernel/src/Mesh.cpp","libs/MeshKernelApi/src/MeshKernel.cpp"],
"mech":[("SplitRowColumnOfMesh::Compute","libs/MeshKernel/src/SplitRowColumnOfMesh.cpp"),("FlipEdges::Compute","libs/MeshKernel/src/FlipEdges.cpp"),("RemoveDisconnectedRegions::Compute","libs/MeshKernel/src/RemoveDisconnectedRegions.cpp"),("Mesh::MoveNode","libs/MeshKernel/src/Mesh.cpp"),("Mesh2D::DeleteHangingEdges","libs/MeshKernel/src/Mesh2D.cpp"),("Mesh2D::DeleteSmallFlowEdges","libs/MeshKernel/src/Mesh2D.cpp"),("mkernel_mesh2d_insert_edge_from_coordinates","libs/MeshKernelApi/src/MeshKernel.cpp")],
"design":"generated meshes (grids with diagonals, holes and spurs, rings) and edits; the complete expected mesh (nodes, edges and faces) follows from a model of each edit on the mesh as it was read before, and is compared with the mesh read afterwards. For edge flipping the invariants and local optimality are checked on the result.",
"technique":"property-based testing, model-based (reference model of each edit)",
"note":NOTE+"Cartesian. Not judged: rows that cross themselves, rows with a quadrilateral that is not strictly convex, edge flipping that starts from faces that are not convex, edges from coordinates whose ends are near but not on a node, edges from a node to itself. A node without edges may be dropped at any time."
},
{
"id":"C22",
"title":"Splines, transfinite grids and grid-line metrics follow their definition",
"statement":"get_splines returns, per spline, its control points in order and between two neighbours the asked number of points, equally spaced in the parameter, of the natural cubic spline through the control points; splines stay separated. curvilinear_compute_transfinite_from_polygon makes a grid of (points of the first side) x (points of the second side) whose boundary nodes are exactly the polygon's points between the given corners (or, without the fourth side, points equally spaced on the line between the first and the last corner), wherever the polygon starts and in whichever direction it runs; a parallelogram with equal spacing gives the uniform grid; from other corners it is (to a few per cent) the same grid seen from there. curvilinear_compute_transfinite_from_triangle fills a triangle with three blocks that meet in a point inside: every segment of the polygon is an edge of the grid, the nodes of a triangle with straight sides lie in it, and the start of the polygon does not matter. Moving, turning and scaling the polygon does the same to the grid. Corners that are not three different nodes of the polygon are refused without changing the grid. curvilinear_compute_smoothness is the larger ratio of the lengths of the two grid-line segments at a node and curvilinear_compute_curvature 1000 times the inverse radius-like measure |cross(u,v)|/(|u| |dot(v,u+v)|) of the two segments; both are the missing value where a node has no two valid neighbours on its grid line. curvilinear_compute_transfinite_from_splines makes of a lattice of crossing splines, given in any order and any direction, a grid that divides each cell of the lattice by the refinement factors: the crossings are nodes, the nodes between them lie on their splines, straight equally spaced splines give the regular grid, and the order and directions of the splines do not change the nodes on them.",
"quant":"all splines of 2 or more points, all convex four- and three-sided polygons with straight, bent, even and uneven sides, any start, direction and choice of corners, all grids with and without holes",
"why":"the unit tests have a few fixed polygons starting at the first corner and running in one direction; which index arithmetic is used depends on start, direction, corner order and numbers of points per side",
"files":["libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp","libs/MeshKernel/src/Operations.cpp","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp","libs/MeshKernel/src/Splines.cpp","libs/MeshKernelApi/src/MeshKernel.cpp"],
"mech":[("CurvilinearGridFromPolygon::Compute","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp"),("DiscretizeTransfinite","libs/MeshKernel/src/Operations.cpp"),("CurvilinearGridSmoothness::Compute","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp"),("CurvilinearGridCurvature::Compute","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp"),("mkernel_get_splines","libs/MeshKernelApi/src/MeshKernel.cpp")],
"design":"splines and grid-line metrics against reference implementations of their definition (the spline by a dense solve); transfinite grids by exact boundary oracle, the closed form for parallelograms, and metamorphic relations (start, direction, other corners, similarity); random corner indices in and out of range for the refusal; for lattices of straight or curved splines the closed form of the crossings and shuffled and reversed copies of the same splines.",
"technique":"property-based testing, reference model and metamorphic relations",
"note":NOTE+"Cartesian. Where interior nodes of a general transfinite grid lie is judged only by the metamorphic relations (seen from other corners up to 5% of the side, as the smoothing is iterative). Splines that cross exactly at a control point of one of them are not claimed."
},
{
"id":"C25",
"title":"Orthogonalizing and snapping a 2d mesh move only what they may, as defined",
"statement":"mesh2d_compute_orthogonalization keeps the edges and the number of nodes; nodes outside the selecting polygon(s) keep their exact place; a boundary node stays on the two original boundary edges it belongs to; all coordinates stay finite. A uniform rectangular mesh, however turned, scaled and stretched, stays as it is, and a square grid with disturbed inner nodes does not get worse. The stepwise interface (initialize, then per outer iteration prepare, boundary x inner iterations, finalize, and delete) gives the same mesh as the single call with the same numbers of iterations. With an orthogonalization factor of 1 each inner iteration moves every inner node of a triangular mesh inside the polygon by 0.75 of the way to the average of its neighbours weighted by (distance of the circumcentres at both sides of the edge)/(length of the edge), the weights being those at the start of the outer iteration. mesh2d_snap_to_landboundary keeps the edges and the number of nodes and moves only nodes inside the polygon, to a point on the land boundary (or on a bridge between two of its points); if it reports an error, nothing has moved.",
"quant":"all meshes of triangles and/or quadrilaterals without holes, bent, disturbed, scaled, turned and moved, all parameters, all polygons with holes, all land boundary lines near the mesh, including ones that pass exactly through nodes",
"why":"the unit tests compare stored coordinates of a few meshes for one set of parameters; polygons, parameters, iterations, exact hits of the land boundary and step sequences are not varied",
"files":["libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp","libs/MeshKernel/src/Orthogonalizer.cpp","libs/MeshKernel/src/Smoother.cpp","libs/MeshKernel/src/LandBoundaries.cpp","libs/MeshKernel/src/Mesh2D.cpp","libs/MeshKernelApi/src/MeshKernel.cpp"],
"mech":[("OrthogonalizationAndSmoothing::Compute","libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp"),("Orthogonalizer::Compute","libs/MeshKernel/src/Orthogonalizer.cpp"),("LandBoundaries::SnapMeshToLandBoundaries","libs/MeshKernel/src/LandBoundaries.cpp"),("Mesh2D::ComputeAspectRatios","libs/MeshKernel/src/Mesh2D.cpp")],
"design":"generated meshes, polygons and parameters; invariants of the result (connectivity, nodes outside, boundary), fixed points, the differential relation between the single call and the steps, and for the pure orthogonalization a reference of every iteration, evaluated on the mesh read before it.",
"technique":"property-based testing, invariants, differential and reference model of one iteration",
"note":NOTE+"Cartesian. Where the smoother moves a node is not judged (its weights depend on numbering and scale), nor where boundary nodes go along the boundary, nor which nodes are snapped."
},
{
"id":"C04",
"title":"The result of an edit depends on the edits before it, not on what was read",
"statement":"What an edit of a mesh2d, mesh1d, contacts or curvilinear grid does, and whether it succeeds, is determined by the edits (and undos and redos) made to that state before it and by its arguments: reading the mesh, asking for derived quantities, nearest locations, boundaries, polygons or selections in between makes no difference, nor does it matter in which state (id) it is done, what other states hold or what was done to them. The same sequence of edits on two states that start the same gives bit for bit the same nodes, edges, faces and other data, whether or not one of them was read on the way.",
"quant":"all histories of edits, undos and redos on generated meshes and grids in all three projections, with any questions in between",
"why":"the unit tests do one operation on a freshly made, fully administrated mesh; connectivity, faces, lengths, search trees and masks that an edit leaves out of date are used by the next edit only if nothing was read in between",
"files":["libs/MeshKernel/src/Mesh2D.cpp","libs/MeshKernel/src/Mesh.cpp","libs/MeshKernelApi/src/MeshKernel.cpp","libs/MeshKernel/src/CasulliRefinement.cpp","libs/MeshKernel/src/CasulliDeRefinement.cpp","libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
"mech":[("Mesh2D::Administrate","libs/MeshKernel/src/Mesh2D.cpp"),("Mesh::AdministrateNodesEdges","libs/MeshKernel/src/Mesh.cpp"),("Mesh::BuildTree","libs/MeshKernel/src/Mesh.cpp"),("mkernel_mesh2d_get_dimensions","libs/MeshKernelApi/src/MeshKernel.cpp")],
"design":"metamorphic: one generated history is applied to two states; one of them is read completely and asked 0 to 2 questions before every call, the other is not read. The outcomes (success or error) of every call and at random points and in the end the full snapshots are compared exactly.",
"technique":"property-based testing, metamorphic (reads are invisible), stateful generation",
"note":NOTE+"Nodes without edges may be dropped whenever a mesh is read: after an operation that leaves such nodes both states are read. A history ends at the first call that fails."
},
]
