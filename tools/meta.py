"""Source of properties.jsonl and MANIFEST.json: python tools/meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "building3d/geom/"
R = "building3d/sim/rays/"
S = "building3d/sim/rays/"
IO = "building3d/io/"


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, state=state, observe=observe)


PROPS = [
P("C01", "Polygon triangulation tiles the polygon exactly",
  "For every simple planar polygon that starts at a convex corner, or that is given together with its normal, the triangles reported for it use only the polygon's own vertices, are non-degenerate, are all wound with the polygon's normal, do not overlap and together cover exactly the polygon. The set of vertices and their cyclic order are kept.",
  ["inputs"], "all vertex coordinates of the polygon families within the stated ranges, all planes, all starting corners, both windings",
  "the tests triangulate a handful of fixed polygons and mostly count triangles; a wrong ear accepted for some vertex position is only visible for the positions that trigger it",
  [G+"triangles.py", G+"polygon/__init__.py"],
  [("ear clipping", G+"triangles.py: triangulate"), ("ear test", G+"triangles.py: is_corner_convex, is_point_inside")]),
P("C02", "Polygon area, centroid, normal and plane match the geometry",
  "A polygon's area and centroid are those of the plane figure, its normal is the unit normal given by the right-hand rule of its vertex order and its plane equation is satisfied by all its vertices. Area and centroid depend neither on the starting vertex nor on the winding, and move rigidly with the polygon. The flipped copy has the opposite normal, the same area and the same centroid.",
  ["inputs"], "all dimensions and translations of the polygon families within the stated ranges, all (convex) starting vertices, both windings, all planes",
  "tests compare areas and centroids of unit squares near the origin, for which scaling and weighting errors cancel",
  [G+"polygon/area.py", G+"polygon/centroid.py", G+"polygon/plane.py", G+"polygon/__init__.py", G+"triangles.py"],
  [("area", G+"polygon/area.py"), ("centroid", G+"polygon/centroid.py"), ("plane", G+"polygon/plane.py"), ("flip", G+"polygon/__init__.py: Polygon.flip")]),
P("C03", "Point membership in a polygon is exact",
  "A point is reported inside a polygon if and only if it lies on the polygon's surface; points off the plane are never inside. Points on an edge or vertex are inside when the boundary is included and not inside when it is excluded. With a margin, a point is inside exactly when it is inside and at least the margin away from every edge, and a polygon contains another exactly when all vertices of the other are inside with the margin.",
  ["inputs"], "all test points in a box around the polygon (clear of the boundary by 1e-3, or exactly on it), all polygons of the families, all planes and windings",
  "tests probe a few points per polygon; concave notches, triangulation diagonals and prolongations of edges are one-dimensional sets that sample points miss",
  [G+"polygon/ispointinside.py", G+"triangles.py", G+"points/__init__.py"],
  [("polygon membership", G+"polygon/ispointinside.py"), ("triangle membership", G+"triangles.py: is_point_inside")]),
P("C04", "Distances to segments and polygons are Euclidean minima",
  "The distance from a point to a segment equals the minimum Euclidean distance to the points of the segment, and does not depend on the order of the end points. The distance from a point to a polygon is the length of the perpendicular if its foot lies on the polygon and otherwise the distance to the nearest edge; it is never negative and is the same for the flipped polygon.",
  ["inputs"], "all points in a box around the segment or polygon, all segments and polygons of the families",
  "tests use axis-aligned points in front of an edge or face; the end-point regions and concave corners are not covered for general positions",
  [G+"points/distance.py", G+"polygon/distance.py", G+"polygon/ispointinside.py"],
  [("point to segment", G+"points/distance.py"), ("point to polygon", G+"polygon/distance.py"), ("orthogonal projection", G+"polygon/ispointinside.py: is_point_inside_ortho_projection")]),
P("C05", "Line and segment intersections are correct",
  "When the intersection of two lines, or of two segments, is reported as a point, that point lies on both; when none is reported, the lines are parallel, coincident or skew, or the segments do not cross in a single point. A point is reported to be on a segment if and only if it is. The result does not depend on the order of the arguments or of the end points.",
  ["inputs"], "all segments with end points in the stated box, clear of degeneracy by 1e-3, or exactly degenerate (parallel, touching, collinear)",
  "tests use a few crossing and parallel pairs, one order of arguments each",
  [G+"points/intersections.py", G+"points/__init__.py"],
  [("line intersection", G+"points/intersections.py"), ("on-segment test", G+"points/__init__.py: is_point_on_segment")]),
P("C06", "Rotations are proper rigid motions",
  "Rotating points about a unit vector preserves all distances, fixes the axis, turns perpendicular vectors by exactly the given angle in the right-hand sense, and returns the matrix that maps the input points to the output points. Rotating points to a plane is a rigid motion after which their normal is along the requested one, and the anchor is the fixed point of the rotation.",
  ["inputs"], "all angles, all points in the stated box, a family of axes, anchors and target normals",
  "tests check quarter and half turns of one or two points",
  [G+"rotation.py", G+"vectors.py"],
  [("rotation matrix", G+"rotation.py"), ("angle", G+"vectors.py: angle")]),
P("C07", "Bounding boxes are tight and their tests are exact",
  "The bounding box of points contains every point and is touched by a point on each of its six sides; the box of a wall, solid, zone or building is the box of all its polygons. A point is inside a box if and only if all its coordinates are in range, and two boxes overlap if and only if they share a point, in either order.",
  ["inputs"], "all coordinates; up to four points per box",
  "the overlap test is a pre-filter of nearly every geometric predicate; tests exercise it only through a few fixed configurations",
  [G+"bboxes.py", G+"polygon/touching.py"],
  [("box", G+"bboxes.py"), ("second overlap test", G+"polygon/touching.py")]),
P("C08", "Slicing a polygon partitions it",
  "Slicing a polygon with a chain of points that starts and ends on its boundary yields two polygons that do not overlap, together cover exactly the polygon, lie in its plane and keep its normal. When reference points and names are given, each part carries the name of the reference point that lies in it. For a chain that runs through interior points, further points before or after it that lie outside the polygon or on its boundary make no difference. If the chain does not cut the polygon, an error is raised.",
  ["inputs"], "all positions of the slicing points along the edges and inside, all pairs of edges, corners and directions, of the polygon families",
  "tests slice a unit square and a few others at mid-edges; the index arithmetic depends on which edges and in which direction the chain runs",
  [G+"polygon/slice/__init__.py", G+"polygon/slice/get_point_arrays.py", G+"polygon/slice/remove_redundant_points.py", G+"polygon/slice/add_intersection_points.py", G+"polygon/slice/locate_slicing_points.py"],
  [("part construction", G+"polygon/slice/get_point_arrays.py"), ("chain clean-up", G+"polygon/slice/remove_redundant_points.py"), ("naming", G+"polygon/slice/__init__.py: make_polygons")]),
P("C09", "Facing, crossing and touching describe the real relation",
  "Two polygons face each other if and only if they have the same outline, whatever vertex it starts from, and opposite normals. Two coplanar polygons are crossing if and only if their interiors overlap, their outlines meet and they are not the same outline; polygons in different planes are not crossing. Coplanar polygons that share boundary points but no interior points are touching and not crossing. The three relations are symmetric.",
  ["inputs"], "all offsets and sizes of pairs of rectangles, triangles and L-shapes of the families, in the same or different planes",
  "tests use a dozen fixed pairs; the predicates sample points along edges, so whether an overlap is seen depends on its exact position and size",
  [G+"polygon/facing.py", G+"polygon/crossing.py", G+"polygon/touching.py"],
  [("facing", G+"polygon/facing.py"), ("crossing", G+"polygon/crossing.py"), ("touching", G+"polygon/touching.py")]),
P("C10", "Model tree: unique names, consistent paths, lookup by path",
  "In any model built by adding and replacing objects, every object is found under its own path from any object of the tree, a polygon's vertices under its path and index, and the listed polygon paths are exactly those of the polygons in the model. Adding an object whose name is taken or replacing into a taken name is rejected and leaves the model as it was; names containing the path separator are rejected. A path that leads nowhere is reported as an error, as documented.",
  ["histories", "inputs"], "all sequences of up to four operations with names drawn from a set that covers all coincidence patterns",
  "tests build two or three fixed trees; name clashes after replacements and lookups through different levels are combinations of operations",
  [G+"building/__init__.py", G+"zone/__init__.py", G+"solid/__init__.py", G+"wall/__init__.py", G+"polygon/__init__.py", G+"paths/validate_name.py"],
  [("lookup", G+"building/__init__.py: Building.get"), ("containers", G+"wall/__init__.py: add_polygon, replace_polygon"), ("name check", G+"paths/validate_name.py")],
  [{"name": "children", "meaning": "name to object map of each container"}]),
P("C11", "Assembled meshes contain each polygon's triangles unchanged",
  "The mesh of a wall, solid, zone or building lists the vertices of its polygons in order and, for each polygon in order, its triangles, such that every triangle has the same corner coordinates in the same order as in the polygon itself. Objects without polygons contribute nothing and do not disturb the others.",
  ["inputs", "configurations"], "all vertex coordinates, all nestings of up to three objects per level including empty ones",
  "tests check array shapes and maximum indices for boxes only; an offset error keeps the shapes",
  [G+"mesh/__init__.py", G+"wall/get_mesh.py", G+"solid/get_mesh.py", G+"zone/get_mesh.py", G+"building/get_mesh.py"],
  [("stacking", G+"mesh/__init__.py: vstack_mesh")]),
P("C12", "Volumes are exact, additive and translation invariant",
  "The volume of a closed solid equals its geometric volume wherever it is placed, and the volume of a zone or a building is the sum over its solids. The volume of a tetrahedron and the area of a triangle do not depend on the order of the vertices and equal the exact values.",
  ["inputs"], "all dimensions and positions of boxes and prisms over the plan families, all tetrahedra and triangles with coordinates in the stated box",
  "tests measure unit boxes near the origin; sign and cancellation errors appear only for other positions relative to the origin",
  [G+"solid/__init__.py", G+"tetrahedrons.py", G+"triangles.py", G+"zone/__init__.py", G+"building/__init__.py"],
  [("signed tetrahedra", G+"solid/__init__.py: Solid.volume"), ("tetrahedron", G+"tetrahedrons.py"), ("triangle", G+"triangles.py: triangle_area")]),
P("C13", "Predefined solids are closed, outward oriented and named",
  "A box or an extruded floor plan is a closed surface: every edge belongs to exactly two polygons which run along it in opposite directions, all normals point outwards and the corners are exactly the requested ones, rotated and translated. This holds whatever the orientation and the starting corner of the plan. Walls, floor and ceiling carry the requested or documented names.",
  ["inputs"], "all dimensions, translations and rotation angles; all plans of the families in both directions and from every starting corner",
  "tests use one or two plans listed counter-clockwise from a convex corner",
  [G+"solid/box.py", G+"solid/floor_plan.py", G+"polygon/__init__.py"],
  [("box", G+"solid/box.py"), ("extrusion", G+"solid/floor_plan.py")]),
P("C14", "Point membership in a solid and location lookup are correct",
  "A point is reported inside a solid if and only if it is enclosed by its surface or lies on it, and on the boundary if and only if it lies on one of its polygons. Looking up the location of a point returns the path of a solid containing it, whichever solids are suggested first, and fails exactly when no solid contains it.",
  ["inputs"], "all points along lines in a box around the solids (clear of the surface by 1e-3, or exactly on it), boxes, triangular and L-shaped prisms",
  "ray casting fails on measure-zero sets (rays through edges and corners) that random or hand-picked points never hit",
  [G+"solid/__init__.py", G+"building/find_location.py", G+"polygon/ispointinside.py"],
  [("ray casting", G+"solid/__init__.py: is_point_inside"), ("lookup", G+"building/find_location.py")]),
P("C15", "Adjacency graphs match the geometry at every level",
  "The adjacency graph lists every polygon of the building, connects two polygons exactly when they are in one of the requested relations, is symmetric and has neither loops nor duplicates. The wall, solid and zone graphs connect exactly those objects that own connected polygons and are not the same object. Two solids are adjacent if and only if a pair of their polygons face or cross, in either order; their interface is reported as correct when all polygons in contact face each other, and never without a facing pair.",
  ["inputs", "configurations"], "all offsets of one of up to four polygons in one or two zones, combinations of the relation flags, all offsets of two boxes",
  "tests use aligned unit boxes with the default flags",
  [G+"building/graph.py", G+"building/__init__.py", G+"solid/__init__.py"],
  [("polygon graph", G+"building/graph.py: graph_polygon"), ("projection", G+"building/graph.py: strip_graph"), ("cache", G+"building/__init__.py: get_graph")],
  [{"name": "graph cache", "meaning": "graphs kept on the building between calls"}]),
P("C16", "Transparent surfaces follow the current model",
  "The transparent polygons of a building are exactly those that face a polygon of another solid in the same zone, in the model as it is at the time of the call. Earlier calls, on this or on other buildings, do not influence the result.",
  ["inputs", "histories"], "all offsets of polygons and boxes in one or two zones, all sequences of up to three calls interleaved with model changes and new buildings",
  "the tests make one call on one building; a stale cache needs a history of calls",
  [S+"find_transparent.py", S+"simulation.py"],
  [("search and cache", S+"find_transparent.py"), ("numbering", S+"simulation.py: get_transparent_polygon_numbers")],
  [{"name": "result cache", "meaning": "results kept between calls"}]),
P("C17", "Stitching adjacent solids keeps their geometry",
  "Stitching adjacent solids leaves every solid's volume and the total area and normal of each of its walls unchanged, and afterwards the contact area of the solids is covered by pairs of facing polygons with no crossing pair left. Solids that are not adjacent and solids already stitched are left as they are.",
  ["inputs"], "one offset or size of a face next to a face (and of boxes), per arrangement (shifted, smaller, inside the face, across it)",
  "tests use six fixed pairs of boxes; the slices depend on the relative position",
  [G+"solid/stitch.py", G+"building/__init__.py", G+"polygon/slice/__init__.py"],
  [("stitching", G+"solid/stitch.py"), ("building level", G+"building/__init__.py: stitch_solids")]),
P("C18", "B3D files restore the building",
  "Writing a building to a B3D file and reading it back gives a building with the same tree of names, in the same order, and for each polygon the same identifier, vertex coordinates, triangles, normal, area and centroid, including zones, solids and walls that are empty. Writing does not change the building.",
  ["inputs", "configurations"], "all coordinates, all trees of up to two objects per level including empty ones, polygons from any starting corner",
  "tests round-trip one building of two boxes and compare volumes",
  [IO+"b3d.py", G+"polygon/__init__.py", "building3d/types/recursive_default_dict.py"],
  [("write", IO+"b3d.py: write_b3d"), ("read", IO+"b3d.py: read_b3d")]),
P("C19", "dotbim files restore the building",
  "Writing a building to a .bim file and reading it back gives the same tree of names and identifiers and for each polygon the same vertex coordinates, triangles, normal and area, also when names are repeated in different parents. Files of other tools are rejected.",
  ["inputs", "configurations"], "all coordinates, all trees of up to two objects per level with all name coincidences",
  "tests round-trip one building with distinct names",
  [IO+"dotbim.py", G+"polygon/__init__.py"],
  [("write", IO+"dotbim.py: write_dotbim"), ("read", IO+"dotbim.py: read_dotbim")]),
P("C20", "STL files keep every triangle with its orientation",
  "Writing a building to STL and reading it back gives one solid per original solid, in order, whose triangles have exactly the corners of the original triangles with their winding, so that normals, surface area and volume are unchanged. Each facet is written with the normal of its polygon.",
  ["inputs"], "all coordinates of boxes, tetrahedra and L-shaped prisms within the stated ranges",
  "tests compare counts and volumes for unit boxes, whose coordinates print exactly",
  [IO+"stl.py"],
  [("write", IO+"stl.py: write_stl"), ("read", IO+"stl.py: read_stl")]),
P("C21", "Array format is a faithful, invertible encoding of the building",
  "The array form of a building lists all points and faces, and its index arrays map each face to its polygon, each polygon to its wall, each wall to its solid and each solid to its zone, with the numbers recorded on the objects. Extracting a polygon from the arrays gives its points and triangles, and the building restored from the arrays has the same structure, geometry, orientation and volume.",
  ["inputs", "configurations"], "all coordinates, all trees of up to two objects per level, polygons of different sizes mixed",
  "tests convert boxes, where all polygons have four points and two faces, so that offsets and strides coincide",
  [IO+"arrayformat.py"],
  [("encode", IO+"arrayformat.py: to_array_format"), ("decode", IO+"arrayformat.py: from_array_format"), ("extract", IO+"arrayformat.py: get_polygon_points_and_faces")]),
P("C22", "The voxel grid never hides a polygon",
  "For every point of a polygon, the polygon is listed in the grid cell containing that point, and for every position in the bounding box, each polygon with a point closer than one cell size is among the polygons found nearby. A cell lists only polygons whose bounding box meets the cell. Polygons outside the gridded region are reported as an error.",
  ["inputs"], "all positions in the region, all rectangle positions and sizes and cell sizes of the families, negative coordinates included",
  "tests look up two or three cells of one grid; a cell boundary or negative coordinate that is off by one loses walls only for some positions",
  [S+"voxel_grid.py", S+"find_nearby_polygons.py"],
  [("grid", S+"voxel_grid.py"), ("lookup", S+"find_nearby_polygons.py")]),
P("C23", "A ray's target is the nearest polygon it hits",
  "The target of a ray is a polygon that the ray hits in its forward direction, is not transparent and is among the polygons to check, and no other such polygon is nearer to the ray's position; no target is reported if and only if there is none. A point projected along a vector hits a polygon exactly when the line, or the forward half-line if requested, meets the polygon; if the vector is parallel to the polygon, only points on the polygon hit it.",
  ["inputs", "configurations"], "all positions and directions (clear of edges by 1e-3), rooms and families of parallel or inclined polygons, all transparent and checked subsets",
  "tests shoot along axes at unit boxes; order of iteration, set membership and backward hits combine",
  [S+"find_target.py", G+"polygon/ispointinside.py", G+"polygon/distance.py"],
  [("target", S+"find_target.py"), ("projection", G+"polygon/ispointinside.py: is_point_inside_projection")]),
P("C24", "Ray steps conserve speed, energy bookkeeping and stay in the room",
  "In each simulation step a live ray moves by its velocity times the time step, reflections keep its speed and reverse exactly the component along the hit wall's normal, and it never leaves a closed room. Its energy never increases, drops by the absorption of each wall it reflects from, never becomes negative, and is handed over in full to the first absorber within the radius, after which the ray neither moves nor counts again; the hits of a step are exactly the energies handed over in it.",
  ["inputs", "histories"], "all start positions along an axis of box-shaped and triangular rooms for a set of directions, all absorptions, overlapping absorbers, two to four steps",
  "tests run random rays and check that they remain in the box; energy and hit bookkeeping is not tested",
  [S+"simulation_loop.py", S+"find_target.py"],
  [("step", S+"simulation_loop.py")],
  [{"name": "ray state", "meaning": "position, velocity, energy, hits"}]),
P("C25", "Batched simulation and stored states equal an unbatched run",
  "Running the simulation in batches stores, for every step, the same positions, energies and hits as running it in one batch. What is read back from the state directory equals what was written, step by step, for any number of steps, rays and absorbers. A state directory that exists already is used if it is empty and refused otherwise.",
  ["inputs", "histories", "configurations"], "all start positions along an axis for a set of directions, up to two rays, all batch sizes dividing up to four steps, all buffer contents",
  "tests use one batch size and do not compare states between runs",
  [S+"simulation.py", S+"dump_buffers.py", S+"simulation_loop.py"],
  [("batching", S+"simulation.py: Simulation.run"), ("store and load", S+"dump_buffers.py")],
  [{"name": "state files", "meaning": "one file per step and quantity"}]),
P("C26", "Surface parameters reach the polygons they are set for",
  "Setting a surface parameter on a building, zone, solid, wall or polygon path sets it for exactly the polygons below that object, later settings override earlier ones, and all others keep the default. The values used in the simulation, indexed by polygon number, are these values.",
  ["inputs", "histories"], "all values, all sequences of up to three settings on all paths of a two-solid building",
  "tests set one or two parameters and inspect the configuration; none checks the value used by the simulation",
  [S+"simulation_config.py", S+"simulation.py"],
  [("setting", S+"simulation_config.py: set_surface_param"), ("array", S+"simulation_config.py: surface_params_to_array"), ("use", S+"simulation.py")]),
P("C27", "Wildcard paths invert: filled paths match with the same values",
  "Filling a wildcard path and then searching its parent directory finds the filled path with exactly the filled values, each wildcard having one value, and finds no path that is not the pattern filled with some values. Filters return exactly the matching paths; filling with missing or unknown names is rejected.",
  ["inputs"], "all values up to the stated size, patterns with repeated wildcards, several wildcards, and literal characters special to pattern matching",
  "tests use patterns with plain letters and single-digit values",
  ["building3d/paths/wildcardpath.py"],
  [("pattern", "building3d/paths/wildcardpath.py")]),
P("C28", "The cyclic buffer returns the latest elements in order",
  "After any sequence of insertions into a cyclic buffer of size n, the contiguous view contains exactly the last min(count, n-1) inserted elements, oldest first, and nothing else.",
  ["histories", "inputs"], "all element values, all buffer sizes 2 to 6 and all numbers of insertions up to 14",
  "tests insert a fixed number of elements into one buffer",
  ["building3d/types/cyclic_buffer.py"],
  [("insert", "building3d/types/cyclic_buffer.py: cyclic_buf"), ("view", "building3d/types/cyclic_buffer.py: convert_to_contiguous")]),
P("C29", "Closest pairs are ordered, disjoint and really closest",
  "The closest pairs between two point sets are returned in ascending distance, one point from each set, no point twice; the first is a pair of minimum distance among the admissible pairs and each following one is minimum among the pairs of unused points. With visibility required, only mutually visible pairs are admissible; asking for too many pairs is an error.",
  ["inputs"], "all positions of up to three points per set in a plane, all numbers of pairs, with and without visibility",
  "tests use squares inside squares with symmetric distances",
  [G+"points/find_close_pairs.py", G+"points/visibility.py"],
  [("greedy pairing", G+"points/find_close_pairs.py")]),
P("C30", "Impulse response keeps times and relative energies",
  "The impulse response has one row per stored step, at the time of that step, and one column per absorber, proportional to the energy received in that step with one factor for all absorbers, such that the largest column sum is one. The stored hits are not modified; without any hit an error is raised.",
  ["inputs"], "all non-negative hit values for up to four steps and three absorbers, all time steps",
  "there is no test for it",
  [S+"impulse_response.py"],
  [("response", S+"impulse_response.py")]),
P("C31", "Collinearity, coplanarity and equality of points are exact",
  "Points are reported collinear if and only if they lie on one line and coplanar if and only if they lie in one plane, whatever their order and including repeated points. Two points are equal if and only if their coordinates agree within the tolerance, and equal rounded coordinates give equal keys.",
  ["inputs"], "all coordinates in the stated box of 3 to 5 points, clear of the tolerance by 1e-3 or exactly degenerate, all orders",
  "tests use a few triples; repeated points and orders of nearly degenerate sets are not covered",
  [G+"points/__init__.py", G+"vectors.py"],
  [("collinear", G+"points/__init__.py: are_points_collinear"), ("coplanar", G+"points/__init__.py: are_points_coplanar"), ("normal", G+"vectors.py: normal")]),
P("C32", "Visibility is symmetric and blocked exactly by crossing edges",
  "Two points see each other if and only if the segment between them does not meet a blocking edge, except edges that end in one of the two points or run along the line of sight. The visibility matrix is symmetric with ones on the diagonal, agrees with the pairwise test and takes all blocking sets into account.",
  ["inputs"], "all positions of the points in a plane (clear of grazing by 1e-3), up to two sets of blocking edges",
  "tests use a few fixed layouts",
  [G+"points/visibility.py"],
  [("visibility", G+"points/visibility.py")]),
P("C33", "Segment-polygon and polygon-cube crossing tests are exact",
  "A segment crosses a polygon if and only if it meets the polygon's surface in a single point. A polygon crosses a cube if and only if they have a point in common.",
  ["inputs"], "all end points, all positions of cubes and polygons of the families, clear of the boundary by 1e-2 or exactly on it",
  "tests use a few segments through a unit square and one cube",
  [G+"polygon/crossing.py", G+"bboxes.py"],
  [("segment", G+"polygon/crossing.py: is_line_segment_crossing_polygon"), ("cube", G+"polygon/crossing.py: is_polygon_crossing_cube"), ("cube faces and edges", G+"bboxes.py: cube_polygons, cube_edges")]),
P("C34", "Interpolated points, rolled lists and random helpers keep their contracts",
  "Points created between two points lie on the segment at the requested fractions, end points included and evenly spaced; rolling a list or array moves every element by one place in the documented direction and leaves the input as it was. Random numbers lie in the documented interval for every value the generator can return and every order of the limits; edges of a polygon are its consecutive vertex pairs, closed.",
  ["inputs"], "all coordinates, fractions, limits and generator outputs; up to five points",
  "tests check typical values and random draws",
  [G+"points/__init__.py", G+"polygon/edges.py", "building3d/util/roll_back.py", "building3d/random/__init__.py"],
  [("interpolation", G+"points/__init__.py"), ("edges", G+"polygon/edges.py"), ("random", "building3d/random/__init__.py")]),
P("C35", "Plots and movies show the model and the rays as they are",
  "What is handed to the drawing library is the data: the triangles of the objects, one line per ray through its positions in order of time, the latest position of every ray, and for every drawn point the energy of that ray at that step. Objects are drawn in the colours given. The frames of a movie show one step after the other, with trails of at most the configured length.",
  ["inputs", "configurations"], "all positions and energies of up to three rays and five steps, all trail lengths, up to four objects with and without colours",
  "tests only check that an image file is written; nobody compares pixels with ray energies",
  ["building3d/display/plot_objects.py", R+"movie_from_buffer.py", R+"ray_buff_plotter.py"],
  [("plot", "building3d/display/plot_objects.py: plot_objects"), ("movie", R+"movie_from_buffer.py: make_movie_from_buffer"), ("trails", R+"movie_from_buffer.py: position_buffer_to_lines")]),
P("C36", "Normals, angles, centroids, equality and identifiers are exact",
  "The normal of three points is the unit vector given by the right-hand rule, or not-a-number if they are collinear; the angle between two vectors is the one between 0 and pi with the right cosine; centroids are the mean of the corners. A point is in an array if and only if it equals one of its points. Two polygons are equal if and only if they have the same points in the same order, and comparing them with anything else never fails. Nested default dictionaries convert to ordinary ones with the same contents; identifiers have the requested length.",
  ["inputs"], "all third points and second vectors in a plane, all coordinates of centroids, arrays of up to three points, polygons of 3 to 5 corners, all sizes",
  "tests use a few right angles and one polygon size",
  [G+"vectors.py", G+"points/__init__.py", G+"triangles.py", G+"tetrahedrons.py", G+"polygon/__init__.py", "building3d/types/recursive_default_dict.py", "building3d/random/__init__.py"],
  [("normal and angle", G+"vectors.py"), ("equality", G+"polygon/__init__.py: __eq__"), ("centroids", G+"triangles.py, tetrahedrons.py")]),
]

TECH = ("symbolic execution of the real source on symbolic inputs, every path condition and "
        "assertion decided by an SMT solver (z3)")
NOTE = ("bounded: holds for all inputs of the listed cases within the stated ranges (exact real "
        "arithmetic); trusts the numpy model in symex/snp.py and z3; path witnesses and "
        "counterexamples are re-run on the unmodified code in double precision")
NA = {}


def done(pid):
    return os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")) and pid not in NA


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in PROPS:
        if not done(p["id"]):
            continue
        cmd = f"/opt/venv/bin/python check.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
                       "evidence_file": f"evidence/{p['id']}.json", "technique": TECH,
                       "level": "model_checking", "level_note": NOTE})
    na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")}
          for p in PROPS if not done(p["id"])]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python setup_check.py", "checks": checks,
         "not_applicable": na,
         "notes": "All checks are check.py <id>; harnesses in props/, engine in symex/. "
                  "No hooks in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
