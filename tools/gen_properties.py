#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "A mesh behaves as an indexed triangle list under every edit history",
  "After any sequence of edits on a mesh (add or move vertices, add triangles, quads or pentagons, remove or flip a triangle, split a triangle or an edge, append a mesh, clear), the vertex and triangle counts, every vertex position, every triangle's three corners and its removed-flag, the colour and emptiness are exactly those of a plain list of vertices and triangles to which the same edits were applied. New vertices and triangles take the next free index, existing indices never change meaning, removal only marks the triangle (flipping or splitting a removed one works as for any other), and an appended mesh contributes all its vertices and only its non-removed triangles, re-indexed.",
  ["histories", "inputs"], "every edit sequence up to a depth bound over an alphabet of all public edits with small index arguments",
  "tests build a handful of fixed meshes; the guarantee quantifies over every order of edits, in particular edits after removals and clears",
  ["src/Mesh.cpp", "src/MeshKernelLinkedTriangles.cpp"],
  [("kernel vectors of vertices and triangles with an unlinked flag", "MeshKernelLinkedTriangles"), ("re-indexing on append", "Mesh::add_mesh")],
  ["counts", "vertex and triangle getters"], [dict(name="vertex/triangle vectors", meaning="the mesh", where="src/MeshKernelLinkedTriangles.h")])

p("C02", "Copies and assignments yield equal, independent objects and lose no memory",
  "Copy-constructing or assigning a mesh, smooth mesh, face, solid, curve, surface, NURBS solid or image gives the target exactly the source's observable content, whatever the target held before, including when source and target are the same object; a face or solid built from a mesh holds its own copy of it. A freshly built object is the same whatever was in the memory it is built in. Afterwards no edit of either object is visible through the other, appending an object, or a part of it, to itself appends exactly one copy of that content, setting an object's arrays from its own arrays sets them as from a copy, and once all objects of a history are destroyed every byte they allocated has been released.",
  ["histories"], "every sequence of create/copy/assign/append/edit/destroy operations up to a depth bound over three objects of each type",
  "tests copy fresh objects once; aliasing, self-assignment, re-assignment of a used target and leaks need histories",
  ["src/Mesh.cpp", "src/SmoothMesh.cpp", "src/Face.cpp", "src/Solid.cpp", "src/NurbsSolid.cpp", "src/Image.h"],
  [("deep copy through append", "Mesh::operator=, SmoothMesh::operator="), ("member-wise copies", "Face, Solid, NurbsSurface")],
  ["getters of both objects after each operation", "live allocation count"])

p("C03", "Splitting and flipping edits preserve the surface",
  "On a closed consistently oriented mesh, splitting a triangle at a point inside it or splitting a shared edge (given as directed in the first of its two triangles, whichever that is) at a point on it leaves a closed consistently oriented mesh with the same enclosed volume and area, exactly two more triangles and the removed ones marked. Flipping a triangle reverses its normal and changes nothing else, and flipping every triangle negates the volume and keeps the area.",
  ["histories", "inputs"], "every sequence of splits and flips up to a depth bound from closed starting meshes, choosing any live triangle or edge (either direction) and several split points",
  "tests split one triangle of one mesh; orientation errors in the second triangle of an edge split appear only for specific vertex rotations",
  ["src/Mesh.cpp"], [("split into three triangles around the vertex", "Mesh::split_triangle_with_vertex"), ("split of both triangles next to an edge", "Mesh::split_edge_with_vertex"), ("flip", "Mesh::flip_triangle")],
  ["directed-edge multiset of live triangles", "volume and surface measurements"])

p("C04", "Mesh measurements equal their mathematical definitions on live triangles",
  "For every mesh, reported area is the sum of the areas of the triangles that are not removed, reported volume is the sum of the signed tetrahedra they span with the origin (so it is translation invariant on closed meshes and negated by inversion), and 'oriented outside' holds exactly when that volume is not negative. Each quality predicate answers exactly its documented question about live triangles: 'no degenerated triangles' is false exactly when a live triangle has zero area, 'closed' is true exactly when every edge of the live triangles is shared by exactly one other live triangle (triangles with a repeated corner aside), 'no isolated vertices', 'no duplicated vertices', 'no short edges' and 'no self intersections' likewise, and 'clean' is their conjunction.",
  ["inputs"], "every mesh with up to a bounded number of triangles over a small vertex lattice, with every subset of triangles removed, plus all factory solids",
  "tests measure a few solids without removed triangles",
  ["src/MeshMeasurements.cpp"], [("sums over live triangles", "MeshMeasurements::volume, surface"), ("predicates", "MeshMeasurements")], ["returned values"])

p("C05", "Mesh primitives are watertight, outward, non-degenerate, on the ideal shape",
  "For every positive size and admissible segment count, each generated mesh solid (tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, geodesic and UV spheres, torus) is, after merging coincident vertices, a closed 2-manifold with consistent outward orientation, the right Euler characteristic and no zero-area triangle. Every vertex lies on the ideal shape of the requested dimensions centred as documented (box, cylinder and other solids centred at the origin, cylinder axis and torus axis along z), regular solids have equal edges and the circumscribed radius that follows from the requested size, and the enclosed volume is positive, does not exceed the ideal volume for convex shapes and converges to it as segments grow.",
  ["inputs"], "all segment counts up to a bound times a set of sizes, including non-integers and very different scales",
  "tests check volume positivity or counts for one size and one segment count per solid",
  ["src/MeshFactory.cpp"], [("explicit vertex tables and loops with wrap-around indices", "MeshFactory")], ["mesh content"])

p("C06", "Tessellating a mesh subdivides every live triangle exactly",
  "Tessellating with n segments replaces every live triangle by exactly n*n triangles similar to it, of equal area and the same orientation, whose vertices are the regular barycentric grid points of the original and which cover it without gap or overlap; removed triangles contribute nothing. Area and volume are preserved, a closed mesh stays closed after merging coincident vertices, and the content previously held by the output mesh is discarded.",
  ["inputs", "configurations"], "all n up to a bound times all small meshes of a lattice with every removed subset",
  "tests tessellate one triangle with one or two segment counts",
  ["src/MeshTessellate.cpp"], [("stripe loops with barycentric interpolation", "MeshTessellate::compute")], ["output mesh"])

p("C07", "Vertex merging and empty-triangle removal change only what they should",
  "Merging vertices with tolerance t keeps, for vertex sets whose clusters are unambiguous at t, exactly one vertex per cluster (the first one, in order), re-indexes every live triangle to the kept representative without moving or reordering anything else, drops removed triangles, and is idempotent. Removing empty triangles with tolerance t removes exactly the live triangles having two corners closer than t and touches nothing else.",
  ["inputs", "histories"], "every mesh of a bounded number of vertices placed on a small set of cluster positions and every triangle set over them, for several tolerances",
  "tests merge two fixed meshes with the default tolerance",
  ["src/MeshUtil.cpp"], [("alias table and rebuild", "MeshUtil::merge_vertices"), ("distance tests per edge", "MeshUtil::remove_empty_triangles")], ["mesh content before and after"])

p("C08", "Height fields, grids and images map sample (x,y) to the right place",
  "For every width and height, building a mesh from a row-major height array puts vertex (x, y, z[x + y*width]) at index x + y*width, building from a point grid keeps the points in order, and both triangulate every grid cell exactly once with consistent upward orientation; building a NURBS height field puts control point (x, y) at the same place, with every surface boundary and sample row preserved for non-square sizes. Converting an image to doubles yields for every width and height the first plane's samples in that same row-major order.",
  ["inputs"], "all sizes up to a bound (square or not), all degrees, with samples that are all distinct",
  "tests use square grids or only counts",
  ["src/MeshUtil.cpp", "src/NurbsUtil.cpp", "src/Image.h"], [("row-major loops", "MeshUtil::create_from_z, create_from_grid; NurbsUtil::create_from_z; Image::to_double")], ["vertices, triangles, control points, evaluation"])

p("C09", "Point, vector, triangle and plane algebra is the exact Euclidean one",
  "For all inputs, vector sums, differences, scalings, dot and cross products, norms, distances and normalisation equal their mathematical definitions, compound and plain operators agree also when operands alias, triangle area, orthogonal and unit normal follow the right-hand rule of their corners, and a plane built from three points contains them, has a unit normal oriented by their order, gives signed distances, and projects a point to the closest point of the plane. Bounding boxes contain exactly the points between the componentwise extremes of what was added, overlap exactly when they share a point, and an empty box overlaps nothing.",
  ["inputs"], "every tuple of points of a small integer lattice (and scaled/offset copies of it), compared with exact integer arithmetic",
  "tests evaluate a few points per function",
  ["src/Geometry.cpp"], [("arithmetic", "Point3, Triangle3, Plane3, BoundingBox3")], ["returned values"])

p("C10", "Intersection and containment predicates agree with exact geometry",
  "For every configuration on which the exact answer does not depend on rounding, the answers of segment-segment, plane-segment, triangle-segment, triangle-triangle and triangle-plane intersection and of point-in-triangle (for coplanar points) equal the exact ones, are the same when the operands or their end points are exchanged, and every reported intersection point lies on both operands. Parallel primitives, and segments or triangles which only touch a plane with an end point or corners, count as not intersecting. A plane-plane intersection reported as true yields a line that lies in both planes.",
  ["inputs"], "every pair of primitives over a small integer lattice, compared with exact integer predicates; touching configurations are included where the library documents an answer",
  "tests check a handful of hand-made configurations; the hard cases are position-dependent branch combinations",
  ["src/Geometry.cpp"], [("barycentric and parametric tests", "Triangle3, Segment3, Plane3")], ["returned booleans and points"])

p("C11", "Splitting two meshes against each other preserves both surfaces",
  "For every pair of meshes, splitting them against each other never fails and returns, for each input, a mesh covering exactly the same oriented surface as that input (same area, same volume, no uncovered and no doubly covered part), and leaves the inputs untouched. Inputs that do not meet are returned unchanged.",
  ["inputs"], "all relative placements of small triangle pairs and of small solids on an integer and half-integer lattice",
  "tests do not run the split on intersecting solids in general position",
  ["src/MeshBoolean.cpp", "src/Mesh.cpp"], [("pairwise triangle splitting with bounding-box rejection", "MeshBoolean::split_meshes, Mesh::split_triangle")], ["area, volume and coverage of outputs"])

p("C12", "Rotations, translations and scalings are the transforms they name",
  "Every translation, scale and rotation maps every point to its mathematical image: a rotation by any angle about any unit axis is a right-handed isometry fixing that axis whose representations as angle-axis, matrix and unit quaternion agree, rotations about one axis compose by adding angles, the opposite angle undoes the rotation, a transform given as an explicit matrix maps points by the matrix product, and the matrix read back is the one in use. Euler rotations are the documented camera convention (yaw, then pitch, then roll, with one mirrored vertical axis) and preserve distances, re-configuring a transform makes it behave exactly like a freshly built one, a rotation built without arguments is the identity, and applying a transform to a list equals applying it to each point.",
  ["inputs", "histories"], "all angles of a grid over several turns times all normalised small integer axes times lattice points, and every sequence of re-configurations up to a depth",
  "tests rotate a few points by one angle",
  ["src/Transform.cpp"], [("Rodrigues matrix, quaternion product, Euler angle product", "Transform.cpp")], ["transformed points"])

p("C13", "Transforming an object transforms every point of what it represents",
  "Applying an affine transform to a mesh, NURBS surface, NURBS solid, Bezier triangle or smooth mesh and then evaluating or tessellating gives the same points, in the same order and connectivity, as evaluating or tessellating first and transforming the result. Sequences of transforms compose in order, and removed-flags, colours, weights, knots, degrees and closedness do not change.",
  ["inputs", "histories"], "all objects of a representative set times every sequence of transforms up to a depth",
  "tests apply one translation to one object",
  ["src/Mesh.cpp", "src/NurbsSurface.cpp", "src/NurbsSolid.cpp", "src/QuadBezierTriangle.cpp", "src/SmoothMesh.cpp"],
  [("transform of all (control) points", "apply_transform methods")], ["evaluated points"])

p("C14", "NURBS curve evaluation is the rational B-spline definition, at any time",
  "For every degree from one on, control polygon, positive weights and clamped knot vector (interior knots repeated up to the degree and any affine parameter range included), evaluating a curve anywhere in its domain, both ends included, equals the weighted Cox-de Boor basis sum. The result depends only on the curve's current data, not on what was evaluated or set before, and any affine rescaling of the knot vector gives the same curve; clamped curves interpolate their end points, and closedness is reported exactly when the end points coincide within the tolerance.",
  ["inputs", "histories"], "all (degree, point count, interior-knot multiplicity pattern, weight pattern) combinations up to a bound, at knots, midpoints and points next to knots, and every sequence of setter/evaluate calls up to a depth",
  "tests evaluate a few curves with uniform knots and unit weights",
  ["src/NurbsCurve.cpp"], [("de Boor recursion on homogeneous temporaries", "NurbsCurve::evaluate, find_knot_span"), ("knot normalisation", "NurbsCurve::scale_knots")], ["evaluate, is_closed, knots"])

p("C15", "NURBS surface evaluation is the tensor-product definition, at any time",
  "For every pair of degrees, control net (square or not), positive weights and knot vectors, evaluating a surface anywhere in its domain, all boundaries included, equals the weighted tensor-product Cox-de Boor sum with control points stored u fastest. The result depends only on the surface's current data and not on earlier evaluations or earlier settings, affine rescaling of either knot vector does not change it, and the equal-weights setter always yields the polynomial surface.",
  ["inputs", "histories"], "all (degrees, counts, knot patterns, weight patterns) up to a bound and every setter/evaluate sequence up to a depth",
  "tests evaluate square bilinear patches and a few factories",
  ["src/NurbsSurface.cpp"], [("two-pass de Boor", "NurbsSurface::evaluate")], ["evaluate and getters"])

p("C16", "Knot insertion never changes the curve or surface",
  "Inserting any sequence of parameter values inside the domain into a curve, or into either direction of a surface, leaves every evaluated point unchanged, adds exactly one control point (row) and one knot of that value per insertion, keeps the knot vector sorted and the degree, and keeps the other direction untouched. This holds for rational data, for repeated values up to full multiplicity, and in any order of insertions.",
  ["histories", "inputs"], "every insertion sequence up to a depth over values including existing knots, for every curve and surface of a parameter grid",
  "tests insert one or two knots into one curve",
  ["src/NurbsCurve.cpp", "src/NurbsSurface.cpp"], [("Boehm insertion on homogeneous points", "NurbsCurve::insert_knot"), ("row-wise application", "NurbsSurface::insert_knot_u/v")], ["evaluate before/after", "counts"])

p("C17", "Degree elevation never changes the curve or surface",
  "Whenever raising the degree of a curve, or of either direction of a surface, reports success, the degree has grown by exactly one in that direction only, the data is consistent (knots = points + degree + 1, one positive weight per point) and every evaluated point is unchanged, also for rational data and when combined with knot insertions in any order. When it reports failure nothing has changed.",
  ["histories", "inputs"], "every sequence of elevations and insertions up to a depth, for every supported degree, point count and weight pattern",
  "tests elevate one or two curves of unit weights",
  ["src/NurbsCurve.cpp", "src/NurbsSurface.cpp"], [("per-degree Bezier formulas with knot insertion", "NurbsCurve::degree_elevation"), ("row-wise application", "NurbsSurface::degree_elevation_u/v")], ["evaluate before/after", "return value"])

p("C18", "Extruded, ruled and revolved surfaces are the swept point sets",
  "Extruding a curve along a direction gives a surface whose point (u,v) is the curve point at u moved by v times the direction; ruling two compatible curves gives, for each parameter, the straight segment between the corresponding points (run at constant speed when the weights of the curves agree); revolving a curve gives a surface whose section at every parameter is the curve rotated about the z axis, every point keeping its height and distance to the axis and each full circle being closed. The surface built is well formed: its net, weights, degrees and knots fit together and no knot lies below the one before it. This holds for rational and non-rational curves of every degree, whatever the output surface contained before.",
  ["inputs", "histories"], "all curves of a parameter grid times directions, on fresh and previously used output surfaces",
  "tests check counts or a couple of points on one curve",
  ["src/NurbsExtrude.cpp", "src/NurbsRuled.cpp", "src/NurbsRevolve.cpp"], [("control net construction", "extrude, create_ruled, revolve")], ["evaluate of the resulting surface"])

p("C19", "NURBS primitives lie exactly on the ideal shape and close up",
  "For every size above the 1e-6 closing tolerance, every evaluated point of the generated circle, disk, sphere, torus, cylinder, box, triangle and quad lies on (or, for filled faces, in) the ideal shape of the requested dimensions, the corners and centre are where documented, no part of the shape is left out, and each closed direction returns to its starting point and is flagged closed. Tessellated at any density, solids enclose a positive volume close to the ideal one with normals pointing outward, and curves through given points use them as control points with clamped ends.",
  ["inputs"], "all primitives times a set of sizes times a dense regular parameter grid and all tessellation densities up to a bound",
  "tests check one size and a few points",
  ["src/NurbsFactory.cpp", "src/NurbsRevolve.cpp", "src/NurbsRuled.cpp"], [("rational quadratic circles and derived surfaces", "NurbsFactory")], ["evaluate", "to_mesh"])

p("C20", "Converting NURBS to and from meshes samples the exact geometry",
  "Meshing a NURBS surface with n segments per control point yields vertices that are exactly the surface evaluated on the regular parameter grid including both ends, every grid cell covered once with consistent orientation, and seams joined when a direction is closed; meshing a solid is the concatenation of its surfaces, and appending instead of clearing keeps the previous content. The polyline of a curve starts and ends exactly at the curve's ends and contains only curve points in order, the control mesh contains exactly the control net, and building a solid from a mesh gives one flat patch per live triangle that evaluates to that triangle.",
  ["inputs"], "all surfaces of a parameter grid (closed or not in each direction) times all segment counts up to a bound, all small meshes with every removed subset",
  "tests check counts for one surface",
  ["src/NurbsUtil.cpp", "src/NurbsCurve.cpp"], [("sampling loops", "NurbsUtil::to_mesh, to_controlpoints_mesh, create_from_mesh; NurbsCurve::to_polyline")], ["mesh vertices and triangles"])

p("C21", "Bezier triangles and smooth meshes evaluate and tessellate their definition",
  "A quadratic Bezier triangle evaluates at every barycentric parameter, outside the triangle too, to the rational Bernstein combination of its six control points, its default control points make it flat, and tessellating it with n segments yields exactly n*n triangles over the regular barycentric grid, all evaluated on the patch, without gap or overlap and oriented like its corners, also when corners coincide. Smooth meshes keep their triangles in order under append and copy, their flat primitives tessellate to the ideal solid with outward orientation, the smooth sphere stays symmetric and within a tenth of the radius from the ideal one, solids tessellate to closed meshes for every n from one on, and the Bernstein polynomials are the mathematical ones.",
  ["inputs"], "all segment counts up to a bound times control-point and weight patterns, all smooth primitives",
  "tests evaluate one triangle at a few points",
  ["src/QuadBezierTriangle.cpp", "src/SmoothMesh.cpp", "src/SmoothMeshFactory.cpp", "src/BezierUtil.cpp", "src/CubicBezierTriangles.cpp"],
  [("rational Bernstein sum", "QuadBezierTriangle::eval"), ("barycentric loops", "QuadBezierTriangle::add_to_mesh")], ["eval, tessellated mesh"])

p("C22", "STL files round-trip every mesh",
  "Saving any mesh as STL produces a well-formed binary STL file (80-byte header, exact live-triangle count, 50 bytes per triangle, normals either zero or unit by the right-hand rule) containing exactly the live triangles in order, and loading such a file, written by this or any other program, gives back exactly those triangles at single precision in order and orientation, whatever the target mesh contained. Save followed by load and save is byte-stable.",
  ["inputs", "histories"], "every mesh of up to a bounded number of lattice triangles with every removed subset, saved over absent, shorter and longer existing files and loaded into empty and used meshes",
  "the existing tests save a few files but never read one back or look into it",
  ["src/STLFile.cpp"], [("binary writer and reader", "STLFile::save, load")], ["file bytes decoded independently", "loaded mesh"])

p("C23", "OBJ files round-trip every mesh and polyline",
  "Saving any mesh as OBJ and loading it gives back the same vertices in order (to the printed precision) and exactly the live triangles with the same vertex indices and orientation, whatever the target mesh contained; a mesh that has a colour is written with that colour on each of its vertices. A file receiving several meshes and polylines through the incremental writer is a valid OBJ file in which every face and line element refers to the vertices of its own object, whatever was written before it (polylines of no or one point included), also when the writer is closed and reused, and loading a valid triangle OBJ file written by another program (comments, blank lines, normals, texture coordinates, slash-separated or negative face references) yields its vertices and faces. None of this depends on the locale the program has set.",
  ["inputs", "histories"], "every mesh of bounded size with every removed subset, every sequence of writer operations up to a depth, and every combination of a set of OBJ syntax variants",
  "the existing tests save a few files but never read one back or look into it",
  ["src/OBJFile.cpp"], [("writer with running vertex offset", "OBJWriter::write"), ("line parser", "OBJFile::load")], ["file parsed independently", "loaded mesh"])

p("C24", "BMP files round-trip every image and follow the format",
  "Writing any 1-, 3- or 4-plane image of at least one pixel yields a structurally valid BMP file (header fields, grey palette, row order, row padding and file size) which an independent decoder reads as the same pixels (the fourth plane is not stored, as documented), and reading any valid uncompressed bottom-up 8-, 24- or 32-bit BMP file (8-bit pixels as their palette index), whatever its size modulo four and whatever the target image contained, yields its pixels in the right position and plane. Write then read is the identity on the stored planes.",
  ["inputs"], "all widths and heights up to a bound (all residues modulo 4) times all plane counts times pixel patterns making every byte position distinguishable",
  "the existing tests save a few images but never read one back or look into it",
  ["src/ImageIoBmp.cpp"], [("header, palette and padded row writer/reader", "ImageIoBmp::write, read")], ["file bytes decoded independently", "read image"])

p("C25", "Loaders survive any truncated or corrupted file",
  "Loading any file as STL, OBJ or BMP always terminates without crashing, reading or writing out of bounds or allocating far beyond the file's own size, and reports failure for a missing file, for a file that is not of the format and for a file that ends before its declared content (for OBJ text: for malformed vertex or face statements and for references to missing vertices; statements of other kinds are skipped, extra bytes after an STL file are undecided). On failure or success the target is a usable object, and a load that reports success never invents geometry or pixels that are not in the file.",
  ["fault_sequences", "inputs"], "every truncation length and every single-byte/field substitution from a set of boundary values of representative files, plus every short token sequence of the text format",
  "the existing tests load no damaged file",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("header and size checks", "STLFile::load, OBJFile::load, ImageIoBmp::read")], ["return value, target object, sanitizers"])

p("C26", "Savers report success only when the complete file was written",
  "Saving a mesh as STL or OBJ or an image as BMP returns true only if the complete file content reached the file, whatever the byte at which writing starts to fail (disk full, file-size limit) and whether or not the target can be opened; otherwise it returns false. A failed save never crashes, and a later save without the fault produces the complete file.",
  ["fault_sequences", "crash_points"], "every byte position of every representative file as the point where writes start failing, plus unwritable targets",
  "no test injects a write failure",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("return value of the savers", "STLFile::save, OBJFile::save, ImageIoBmp::write")], ["return value against bytes on disk"])

p("C27", "STEP output is a well-formed exchange file carrying the exact surfaces",
  "Every file written by the STEP writer is a syntactically valid ISO 10303-21 file whose entity identifiers are unique and all references resolve to entities of the expected type, for any sequence of surfaces and solids. Each rational B-spline surface in it carries the written surface's degrees, control net in the right order, weights and knot vector as strictly increasing values with multiplicities summing to points + degree + 1, so that a reader reconstructs a surface which evaluates identically, whatever locale the program has set. (Conformance to the application protocol beyond syntax, references and B-spline content is not claimed.)",
  ["inputs", "histories"], "every sequence of written surfaces and solids up to a depth over all primitives and a grid of degrees, counts, knot and weight patterns",
  "tests write STEP files but never parse them",
  ["src/StepFile.cpp"], [("entity writer with running identifiers", "StepWriter::write")], ["file parsed independently and re-evaluated"])

p("C28", "Rendering never touches memory outside the caller's frame buffer",
  "For every screen of at least one pixel and every camera, geometry and light, drawing a mesh, triangle, line, polyline or pixel terminates promptly, performs no undefined arithmetic and writes no memory outside the caller's width*height pixels. This includes geometry behind, on and far beyond the camera plane or screen, degenerate triangles, huge or tiny coordinates and one-pixel screens.",
  ["inputs", "configurations"], "all combinations of screen sizes, camera positions and angles with triangles, lines and points over a coordinate set that straddles the camera plane, the screen borders and the integer range",
  "the existing test renders a few pictures of one solid and looks at no pixel",
  ["src/Renderer.cpp", "src/RendererCamera.cpp"], [("clipping against the screen and the camera plane", "Renderer::draw_*, RendererCamera::project")], ["guard zones around the buffer, sanitizers, termination"])

p("C29", "The nearest surface wins at every pixel, in any drawing order",
  "Each pixel clearly inside drawn triangles that lie in front of the camera shows the colour of the triangle nearest to the camera there, independent of the order of drawing and up to the last row and column of the screen, and pixels covered by none keep the background; clearing restores every pixel to the background and forgets all depths, and a new renderer is cleared. Triangles facing away from the camera draw nothing unless two-sided drawing is requested, removed triangles are never drawn, the visibility answer of a triangle well on the screen is true exactly when it is drawn, points, lines and polylines (as their segments) take part in the same depth test, and geometry behind the camera draws nothing.",
  ["histories", "inputs"], "all permutations of sets of up to four triangles from a set with distinct depths, all vertex orders, interleaved with clear",
  "the existing test renders a few pictures of one solid and looks at no pixel",
  ["src/Renderer.cpp"], [("inverse-depth buffer test per pixel", "Renderer::draw_horizontal_line"), ("facing test", "Renderer::draw_triangle_1color")], ["pixel buffer"])

p("C30", "Projection and lighting follow the camera model and stay in range",
  "A point straight ahead of the camera projects to the screen centre, points are displaced in proportion to their lateral offset, zoom and inverse depth, moving geometry and camera together changes nothing, and rotating the camera moves the picture accordingly; a new camera stands at the origin and is not rotated. Each lit colour channel is the material channel times the sum of the lights (factor times colour/256 each), clamped to 0..255, ambient light ignores orientation, diffuse light is proportional to the cosine between the triangle's normal (from its corner order) and the unit light direction and never negative, and a mesh is drawn in the requested colour or, without one, its own colour.",
  ["inputs"], "all camera settings of a grid times lattice points; all light combinations up to three lights times colours times directions times normals",
  "the existing test renders a few pictures of one solid and looks at no pixel",
  ["src/RendererCamera.cpp", "src/RendererLight.cpp", "src/Renderer.cpp"], [("pinhole projection", "RendererCamera::project"), ("light accumulation", "RendererLight*::apply, Renderer::compute_color_with_lights")], ["projected coordinates, pixel colours"])

p("C31", "Image access, operations and generators are exact per pixel",
  "Every pixel and plane of an image of any size is an independent cell addressed consistently by all accessors, resizing reports the new dimensions, converting an image of at least three planes to grey yields a one-plane image of the same size holding the average of the first three planes at each pixel, and scaling multiplies every sample by the factor, rounded and saturated at 255 and 0. The generators fill a four-plane image of exactly the requested size with the pattern they name at every pixel: Sierpinski pixels are white exactly where x and y share no binary digit, and Mandelbrot pixels hold the escape count of the point they stand for.",
  ["inputs"], "all sizes up to a bound, all plane counts, all byte values and a set of scale factors; generators at all small sizes against independent definitions",
  "the existing tests generate a few images and check no pixel",
  ["src/Image.h", "src/ImageUtil.cpp", "src/ImageGenerator.cpp"], [("index arithmetic", "Image"), ("per-pixel loops", "ImageUtil, ImageGenerator")], ["pixel values"])

p("C32", "Builders and converters fully define their output, whatever it held before",
  "Every function that builds into a caller-supplied object (factories, sweeps, tessellators, converters, loaders, image operations) leaves it observably identical whether the object was fresh, already used for any other build, or built twice in a row; functions documented to append keep the previous content first. Inputs are never modified.",
  ["histories"], "all ordered pairs of build operations of the same output type, each followed by full observation",
  "tests always build into fresh objects",
  ["src/MeshFactory.cpp", "src/NurbsFactory.cpp", "src/NurbsExtrude.cpp", "src/NurbsRuled.cpp", "src/NurbsRevolve.cpp", "src/NurbsUtil.cpp", "src/MeshUtil.cpp", "src/MeshTessellate.cpp", "src/ImageUtil.cpp"],
  [("clear or overwrite at the start of each builder", "builders")], ["observation of the target"])

p("C33", "All mesh storage kernels behave alike",
  "Each mesh storage kernel, driven directly through the common kernel interface by any sequence of operations, gives the same observable answers (counts, returned indices, positions, corners, removed-flags) as a plain list of vertices and triangles. Kernels are therefore interchangeable behind a mesh.",
  ["histories"], "every operation sequence up to a depth on every kernel, in lockstep with the list model",
  "tests reach only the default kernel, and only through the mesh class",
  ["src/MeshKernel.h", "src/MeshKernelTIN.cpp", "src/MeshKernelLinkedTriangles.cpp", "src/MeshKernelHalfEdge.cpp"], [("kernel implementations", "MeshKernel*")], ["kernel getters"])

p("C34", "Random axes are unit vectors reproducible from their seed",
  "For every seed the generated axis has unit length and finite components, the same seed always gives the same axis whatever was generated before, and different seeds give axes spread over all directions. Without a seed the default seed 0 is used.",
  ["inputs", "histories"], "all seeds of a contiguous range, in several generation orders",
  "the test draws a few axes",
  ["src/GeometryUtil.cpp"], [("seeded generator and normalisation", "GeometryUtil::compute_random_axis")], ["returned vector"])

p("C35", "Running out of memory is reported and neither corrupts nor leaks",
  "When any allocation inside an operation of the library fails - building, copying, assigning, appending, editing, transforming or tessellating an object, loading, saving or rendering - the caller learns it: the operation throws std::bad_alloc, or a loader or saver returns false; it never finishes silently with an incomplete result. Afterwards meshes refer only to existing vertices and images hold as many samples as their dimensions say, the same build repeated with enough memory gives the normal result, every object can be assigned and destroyed, and once they are destroyed no memory is left allocated.",
  ["fault_sequences", "histories"], "every allocation of every operation failed once, alone and together with all later ones, after several previous contents",
  "tests never run out of memory; the failing allocation is a point of the execution no input selects",
  ["src/Mesh.cpp", "src/Image.h", "src/Renderer.cpp", "src/StepFile.cpp", "src/OBJFile.cpp", "src/STLFile.cpp", "src/ImageIoBmp.cpp", "src/NurbsSurface.cpp"],
  [("owned kernel of a half-built copy", "Mesh::Mesh(const Mesh&)"), ("dimensions set after the data", "Image::resize"), ("owned lights", "Renderer::add_*_light"), ("number formatting", "StepFile.cpp real_to_string")], ["exception or result", "getters after the failure", "live allocation count"])

p("C36", "Threads working on their own objects never influence each other",
  "Any two operations of the library - building, copying, editing, evaluating, transforming, measuring, tessellating, loading, saving or rendering - run in two threads at the same time on distinct objects and distinct files give, under every interleaving and also when they are the first calls of the program, exactly the results they give alone; neither crashes nor blocks forever. The same holds when both threads only read (measure, copy, convert, tessellate, cut into other meshes, render, save) the same mesh, smooth mesh or image. The library thus keeps no hidden mutable state shared between objects.",
  ["schedules", "histories"], "every pair of operations, every schedule with a bounded number of preemptions at the memory accesses both threads depend on, from a fresh process",
  "tests run in one thread, and the interleaving is not an input",
  ["src/NurbsCurve.cpp", "src/NurbsSurface.cpp", "src/GeometryUtil.cpp", "src/Mesh.cpp", "src/Renderer.cpp", "src/OBJFile.cpp", "src/STLFile.cpp", "src/StepFile.cpp", "src/ImageIoBmp.cpp"],
  [("scratch values kept in the object", "NurbsSurface::evaluate (_tempPointsU)"), ("generator local to the call", "GeometryUtil::compute_random_axis"), ("entity counter kept in the writer", "StepWriter::_iItemIndent")], ["getters and files of both threads", "memory accesses of both threads"])

p("C37", "Results do not depend on how the library is compiled",
  "On inputs it accepts, every operation of the library - building, copying, editing, evaluating, transforming, measuring, intersecting, loading intact or damaged files, saving, rendering - gives the same observable results (up to rounding) whether assertions are compiled in or out, whatever the optimisation level, with either installed compiler and whatever the memory of local variables held before. No result rests on a side effect of an assertion, on an uninitialised value, on an unspecified evaluation order or on arithmetic a compiler may treat as it likes.",
  ["configurations", "histories"], "every sequence of two (thorough: three) builders and edits of every type, every single operation, geometry on a lattice, camera settings and damaged files, in three differently compiled copies of the library",
  "tests run in one build, with assertions on",
  ["src/Mesh.cpp", "src/Geometry.cpp", "src/NurbsCurve.cpp", "src/NurbsSurface.cpp", "src/Renderer.cpp", "src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp", "src/QuadBezierTriangle.cpp"],
  [("checks that only observe", "assert() throughout src/"), ("initialised locals of the loaders", "STLFile::load, ImageIoBmp::read"), ("sequenced random draws", "GeometryUtil::compute_random_axis")], ["getters and files of every copy"])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
