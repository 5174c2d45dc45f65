# what is enumerated / oracle / why, per property
D = {
"C01": ("sequences of 4 edits over 26 edits from the empty mesh and a tetrahedron (3 from a mesh with removed triangles); every ordered pair (old, new) of a palette of magnitudes on every axis; meshes of every size to 40 and beside every power of two up to 65537 (2^18 when thorough), edited at both ends and in the middle; point triangles and quads in every equality pattern of their corners; every index tuple (repeats included) given to triangle, quad and pentagon; quads of every power of two of size",
  "list of vertices, list of triangles with a removed flag (`TriList`)", "order of edits, edits after removals, capacities"),
"C02": ("sequences of 3-4 operations (create, copy-construct, assign, append, edit, destroy, self-assignment, self-append) on two and on three objects of mesh, smooth mesh, face, solid, curve, surface, NURBS solid, image; every ordered pair of contents of equal counts, assigned over each other; every object built, copied and assigned in memory filled with several patterns; faces and solids built from a mesh, then either side edited; every content handed its own first, middle or last part (patch, surface, arrays) up to twelve times",
  "value semantics: the model holds plain values; live bytes of the allocator are compared before and after the history", "aliasing and leaks need histories"),
"C03": ("sequences of splits (triangle at interior points, directed edge in either of its two triangles, at several points) and flips on closed shapes of 4 to 12 triangles; every power of two of size; large meshes, edited at low and high indices",
  "directed-edge multiset closed and consistent, area and volume as before (negated by flips), counts and flags", "the second triangle of an edge split is mis-oriented only for particular vertex rotations"),
"C04": ("every mesh of one or two triangles over 5 vertices and of four oriented tetrahedron faces, every removed subset, scales and offsets; every power of two from 2^-100 to 2^100; fans and strips to 65537; all factory solids with each triangle removed, moved and inverted",
  "definitions, evaluated by the harness on the live triangles", "predicates interact with removal"),
"C05": ("all segment counts to a bound plus ladders (cylinder to 500, UV sphere 64, torus 64, geodesic 16 and some to 32) times sizes of very different scales",
  "vertex merge by the harness, directed-edge closedness, Euler characteristic, no zero area, distance of each vertex to the ideal shape, edge lengths, volume bounds", "wrap-around index loops fail at particular counts"),
"C06": ("every one or two triangles over 4 vertices, every removed subset, every n to a bound, fresh and used targets; 6-triangle meshes with every removed subset; many triangles and n to 100; closed solids; inputs without a live triangle into used outputs",
  "multiset of barycentric grid triangles computed in the harness; nothing left over in the target", "stripe loops"),
"C07": ("every placement of vertices on 3 clusters of 2 and 5 clusters of 3 members, triangles, removed subsets, tolerances; large lists with coincident vertices far apart; many triangles with removed and empty ones at every place of a ladder of sizes; distances around the tolerance in every direction",
  "reference merge: first of each cluster, order kept", "alias chains need specific placements"),
"C08": ("every width x height x degree x plane count to a bound, size ladders to more than 65536 samples, fresh and used targets; every assignment of a few values to the samples of small fields, grids and images",
  "index formula x + y*width, triangulation of each cell, tensor-product evaluation", "non-square sizes"),
"C09": ("every lattice vector, pair, triple; every pair of boxes of up to three points; all powers of two from 2^-120 to 2^120; lengths beside one by every power of two; thin triangles; extreme factors; figures moved away from the origin by every power of two to 2^44",
  "integer arithmetic (exact), scaled", "tests sample a few points"),
"C10": ("every pair of segments of a 3x3x3 lattice, every planar triangle against a larger lattice, lattice triangles against segments, planes and triangles in every vertex order, six frames (scales 2^-20..2^20), end points at every power of two above a plane",
  "exact integer predicates, answers demanded only where the exact answer has a margin", "branch combinations depend on position"),
"C11": ("eight triangle shapes at every half-lattice offset and vertex order, solids at quarter-lattice offsets and two scales, one triangle against two with removed subsets; sizes of every power of two, pairs far from the origin, solids of more triangles, one splitter used for several pairs, inputs without a live triangle",
  "area, volume, each output triangle inside an input triangle with its orientation, sample points covered exactly once, inputs untouched", "general positions"),
"C12": ("axes x angles over four turns; composition; Euler grid; all sequences of re-configurations of one transform to a depth; points and angles of every power of two; signed axis permutations and general matrices given explicitly; lists to a ladder; default-built transforms over memory filled with several patterns; every pair of configurations of two objects of a class used alternately, and of one object one after the other",
  "Rodrigues formula, camera convention composed from elementary rotations, fresh object", "stale state after re-configuration"),
"C13": ("every sequence of transforms to a depth on meshes (with removed triangles), surfaces, solids, Bezier triangles, smooth meshes; objects and transforms (a user-defined shear and a flattening one among them) of every power of two; sizes to a ladder; closed flags on nets whose ends meet, nearly meet or differ", "commutation: transform then evaluate = evaluate then transform", "composition"),
"C14": ("degree 1..5, all knot compositions, weights, affine ranges, setter orders; every sequence of 5 setters from a fresh and 4 from a complete curve; spans as short as every power of two to 2^-44", "Cox-de Boor sum", "lazy caches and setter order"),
"C15": ("as C14 in two directions, square and non-square nets; spans as short as every power of two to 2^-44 in either direction", "tensor-product Cox-de Boor sum", "u/v exchange shows only on non-square nets"),
"C16": ("every sequence of insertions (3 on curves, 2 on surfaces, 12 and hundreds in fixed orders) over existing and new values; values and weights beside a knot and beside one by every power of two; magnitudes; large nets", "evaluation before = after; knots sorted; counts", "repeated values, any order"),
"C17": ("elevations repeated until refused, every sequence of elevate/insert to depth 5 (curves) and 3 (surfaces); weights beside one by every power of two; knots as close together as every power of ten", "evaluation before = after; on refusal nothing changed", "combination with inner knots"),
"C18": ("all profiles of C14's space, extruded, ruled and revolved into fresh and used surfaces; after setter histories; curves closed but for one coordinate by every power of ten; many points, degree to 8; curves, directions and weights of every power of two; directions in all octants; every pair of weight patterns of two ruled curves; weights beside one", "point set of the sweep on a parameter grid", "rational profiles, reused outputs"),
"C19": ("every size pair and triple, every segment count 1..6, dense parameter grids; every power of two of size from 2^-17 and ratios of sizes to 2^10; curves through numbers of points of a ladder", "distance to the ideal shape, flags, volume and normals of the tessellation", "between the sampled parameters of a test"),
"C20": ("every surface of a parameter grid, closed flags, segments, appended or not; every sequence of up to 3 surfaces; every mesh to 3 triangles with removed subsets; polylines of 2..40 points; nets, segment counts and numbers of objects of a ladder, every power of two of size; nothing to convert, into used outputs", "grid evaluation of the surface by the harness; one patch per live triangle", "closed directions, removed triangles"),
"C21": ("all barycentric grids, weight and control patterns, setter histories, add/append/copy/assign/clear histories, primitives x sizes x n; default-built patches over memory filled with several patterns; patches, weights and primitives of every power of two; segments and patch counts of a ladder, then appended to itself; parameters beside corners and sides; every assignment of three weights to the six control points", "Bernstein sums; similar triangles cover the parameter triangle; ideal solids", "holes at particular n"),
"C22": ("every mesh to 2 triangles over 5 vertices (degenerate and extreme ones included) with removed subsets, over absent, shorter and longer files; foreign files; size ladder", "independent STL decoder and encoder, byte-stability", "the tests never read a file back"),
"C23": ("as C22; colours; every sequence of writer operations; five locales of the program at construction, opening, writing and loading; every combination of syntax variants; magnitudes; size ladder", "independent OBJ parser and generator", "running vertex offset across objects"),
"C24": ("sizes 1..13 squared and a ladder (rows beyond 2^15 pixels), planes, aperiodic and periodic patterns, foreign headers", "independent BMP codec", "all residues modulo four"),
"C25": ("every truncation length, every byte replaced by every/boundary value, header-field pairs, every sequence of 4 OBJ tokens, long STL and OBJ files of a ladder of sizes, cut or with one damaged line, other formats, directories, devices", "return value rules, geometry in the target is contained in the file, allocation bound, sanitizers, timeout", "damaged files are a space of their own"),
"C26": ("RLIMIT_FSIZE at every byte position, each write call failing (ENOSPC, EIO) or short by an interposed write, unwritable targets; a later save without the fault", "returned true iff the bytes on disk are complete", "crash points"),
"C27": ("five locales of the program at construction, opening and writing; degrees 1..4 squared, knots, weights, flags, scales; primitives; every sequence of 4 writer operations", "independent ISO 10303-21 tokenizer and reference resolver; the B-spline is rebuilt and re-evaluated", "order of the net shows on non-square nets"),
"C28": ("screens x cameras x ordered point triples over values straddling camera plane, borders and integer range; screens beside powers of two, long, wide and large; corners on, just in and just out of each border", "guard zones, sanitizers, timeout", "clipping branches"),
"C29": ("every ordered selection of up to 3 (4) triangles, every corner order, removed subsets, histories of draw/clear/background/camera, points and lines at all grid positions; depths at every power of two apart by ratios down to 1+2^-16; the scene at every power of two of size; large screens; numbers of triangles of a ladder; triangles leaving the screen on several sides; every ordered selection of four among points, lines, polylines, triangles and a mesh at their own depths; objects just behind the camera plane; new renderers, not cleared, over memory filled with several patterns; tiles, polylines and screen sizes (clear) of a ladder; colours", "per-pixel ray model; pixels close to an edge undecided", "order independence is a statement over permutations"),
"C30": ("cameras x lattice points, rigid motions, light lists x materials x orientations; distances (before and behind the camera) and zooms of every power of two; every value of every channel; numbers of lights of a ladder; new cameras over memory filled with several patterns; lit triangles of every power of two of size; every degree of a circle of directions", "pinhole formula, light formula (tolerance one level)", "configuration order, clamping"),
"C31": ("every size, plane, byte value, factor; resize sequences; generators at all small sizes, large cells and large images", "independent definitions per pixel", "every value"),
"C32": ("every pair (triple) of build operations (also of nothing) into one object, then every builder; every appending operation after every content; every input after use", "a fresh build", "tests build into fresh objects"),
"C33": ("every operation sequence to a depth on each kernel; sizes of a ladder; extreme values; several kernels used in turn", "list model", "tests reach the default kernel only"),
"C36": ("all pairs of some 90 operations (own objects) and of some 20 reading operations (shared mesh, smooth mesh, image) in two real threads of which one runs at a time; every memory access of the code built with -fsanitize=thread calls harness/sched.cpp, which also sees locks, first-use initialisations, memcpy, rand and file names. The first run of a pair finds the locations both access and one writes; if there are none, all interleavings are equivalent to that run, otherwise all schedules with at most 2 exchanges at those accesses (within the listed positions) are run, each from a fresh process", "the results of each operation alone in a fresh process; a control section in which known races must be found", "the interleaving, and being the first call of the program, are not inputs a test can choose; evaluating one and the same curve or surface object in two threads is not claimed: its scratch vectors are members, by design of the class"),
"C37": ("all sources of the library compiled three times into shared libraries of their own (gcc -O0 with assertions and zeroed locals, gcc -O3 -DNDEBUG, clang -O2 -DNDEBUG with patterned locals), loaded into one process; in each copy: every operation sequence to a depth on eight kinds of object, the operations of C36 (thorough: every pair), curves x degrees x parameters, rotations, rendered scenes, edits of a mesh, damaged files", "the observations (numbers, bytes of files and pixels) of the copies agree to 1e-9", "a test binary is one compilation; the code is written with assertions, unsequenced arguments and default-initialised locals whose effect differs between builds"),
"C35": ("some 200 operations (all builders, edits, copies, loaders, savers and the renderer) after up to four previous contents: every allocation fails, alone and with all after it", "the fault-free run; std::bad_alloc or a false result, structural validity, the same build repeated afterwards, live bytes", "crash points: the failing allocation is a point in the execution, which tests do not choose"),
"C34": ("all seeds around zero and the limits of int; every sequence of three seeds; 20000 seeds against 26 caps; scattered seeds: a thousand apart by every power of two", "unit length, equality per seed, cap counts within generous bounds", "for every seed"),
}
