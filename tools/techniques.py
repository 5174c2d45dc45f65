# deciding method per property (TECH) and what the level leaves out (NOTE)
H = "explicit-state exploration of operation histories on the real code, lockstep with a reference model after every step: "
I = "exhaustive enumeration of a bounded space of inputs on the real code against an independent oracle: "
TECH = {
"C01": H + "every sequence of mesh edits to a depth bound, plus all magnitudes and size ladders",
"C02": H + "every sequence of create/copy/assign/append/edit/destroy on two and three objects of eight types, with live-byte accounting",
"C03": H + "every sequence of splits and flips on closed meshes, invariants on directed edges, area, volume",
"C04": I + "every mesh of up to four lattice triangles with every removed subset; measures recomputed from definitions",
"C05": I + "every segment count to a bound and size ladders; watertightness, Euler characteristic, ideal shape decided per mesh",
"C06": I + "every small mesh, removed subset and segment count; barycentric grid oracle",
"C07": I + "every placement of vertices on clusters, triangles over them and tolerances; reference merge",
"C08": I + "every width, height, degree, plane count to a bound; direct index formula as oracle",
"C09": I + "every tuple of lattice points and every power-of-two scale; exact integer arithmetic as oracle",
"C10": I + "every pair of primitives over integer lattices and frames; exact integer predicates as oracle",
"C11": I + "every relative lattice placement of triangle and solid pairs; area, volume and coverage oracle",
"C12": I + "every axis/angle/Euler tuple of a grid, and every sequence of re-configurations of one transform object",
"C13": H + "every sequence of transforms to a depth on every kind of object, commutation with evaluation",
"C14": H + "every curve of a bounded parameter space against Cox-de Boor sums, and every sequence of setters",
"C15": H + "every surface of a bounded parameter space against tensor-product Cox-de Boor sums, and every sequence of setters",
"C16": H + "every sequence of knot insertions to a depth on every curve and surface of a bounded parameter space",
"C17": H + "every sequence of elevations and insertions to a depth on every curve and surface of a bounded parameter space",
"C18": I + "every profile curve of a bounded parameter space, swept into fresh and used surfaces; definition of the sweep as oracle",
"C19": I + "every size combination and segment count; distance to the ideal shape on dense parameter grids",
"C20": I + "every surface, solid, curve and small mesh of a bounded space and every segment count",
"C21": H + "every setter and container history to a depth; every barycentric grid against Bernstein sums",
"C22": I + "every small mesh with removed subsets over fresh, shorter and longer files; independent STL codec",
"C23": H + "every sequence of writer operations, every small mesh, every combination of OBJ syntax variants; independent parser",
"C24": I + "every image size to a bound, plane count and pattern; independent BMP codec",
"C25": "exhaustive fault enumeration on the real loaders: every truncation point, every byte substitution of a boundary set, every short token sequence, under sanitizers and allocation accounting",
"C26": "exhaustive fault injection on the real savers: a write failure at every byte position and at every write call",
"C27": H + "every sequence of writes to a depth and every surface of a bounded parameter space; independent ISO 10303-21 parser and re-evaluation",
"C28": I + "every combination of screens, cameras, coordinates straddling all borders and drawing calls, with guard zones and sanitizers",
"C29": H + "every drawing order and draw/clear/background/camera history to a depth against a per-pixel ray model",
"C30": I + "every camera of a grid, lattice point, light list, material and orientation against the pinhole and light model",
"C31": I + "every image size, plane, byte value and factor of a set; independent per-pixel definitions",
"C32": H + "every ordered pair of build operations into one object against a fresh build",
"C33": H + "every operation sequence to a depth on every kernel in lockstep with a list model",
"C34": I + "every seed of contiguous ranges and every sequence of three seeds",
"C37": "explicit enumeration of operation sequences, lattice inputs and damaged files on the real code in three differently compiled copies (assertions in/out, -O0/-O3/-O2, gcc/clang, memory of locals zeroed/patterned), observations compared",
"C36": "stateless model checking of the real code under a controlled two-thread scheduler: accesses of all pairs of operations recorded (instrumented build), schedules enumerated up to 2 preemptions at the dependent accesses, one schedule where nothing is dependent (partial-order reduction)",
"C35": "exhaustive fault injection into the real code: every allocation of every operation fails, alone and with all later ones, against the fault-free run and a live-byte account",
}
NOTE = {}
