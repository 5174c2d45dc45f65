// C36: two threads, each with objects of its own, under every schedule with a bounded number of preemptions.
#include "tasks.hpp"
#include "sched.hpp"
#include <sys/wait.h>
#include <memory>
namespace {
// what a child process tells its parent
struct Shared { long n; int bad; long points, switches, accesses; char why[2000]; double d[1 << 20]; } *g;
// runs f in a process where nothing of the library was used before; returns what went wrong
std::string pristine(const std::function<void()>& f)
{
	g->n = 0; g->bad = 0; g->why[0] = 0; g->points = g->switches = g->accesses = 0; fflush(nullptr); pid_t p = fork(); if (p < 0) throw std::runtime_error("fork");
	if (!p) { alarm(50); try { f(); } catch (std::exception& e) { snprintf(g->why, sizeof g->why, "exception %s", e.what()); g->bad = 1; } _exit(0); }
	int st = 0; while (waitpid(p, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? S() << "hangs" : S() << "ends with signal " << WTERMSIG(st); if (WEXITSTATUS(st) == 79) return "deadlock"; if (WEXITSTATUS(st)) return S() << "ends with code " << WEXITSTATUS(st);
	return g->bad ? g->why : "";
}
void tell(const O& w, const O& have, const std::string& who) { if (g->bad || same(w, have)) return; g->bad = 1; snprintf(g->why, sizeof g->why, "%s: %s", who.c_str(), where(have, w).c_str()); }
}
namespace {
// what is shared by the readers
std::vector<const Transform*> g_transforms; QuadBezierTriangle* g_patch; Mesh* g_mesh; SmoothMesh* g_smooth; Image* g_image; Mesh* g_cutter;
void set_readers() { double m[9] = { 0,-1,0,1,0,0,0,0,1 }, q[4] = { 0.5,0.5,-0.5,0.5 }; g_transforms = { new Translation(Point3(1, 2, 3)),new Scale(1, 2, 3),new RotationEulerAngles(10, 20, 30),new RotationQuaternion(q),new RotationMatrix(m),new RotationAngleAxis(0.5, Point3(0, 0.6, 0.8)) }; g_patch = new QuadBezierTriangle; g_patch->set_points(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); g_patch->set_weights(1, 2, 3, 1, 0.5, 1); g_mesh = new Mesh(mesh(1)); g_mesh->unlink_triangle(3); g_cutter = new Mesh; MeshFactory::create_tetrahedron(1.3, *g_cutter); g_smooth = new SmoothMesh; SmoothMeshFactory::create_box(1, 2, 3, *g_smooth); g_image = new Image(5, 4, 3); for (int i = 0; i < g_image->size(); i++) g_image->data()[i] = (unsigned char)(i * 29 + 3); }
std::vector<Task> readers(const std::string& dir)
{
	std::vector<Task> t;
	t.push_back({ "snapshot",[](int) { return observe((const Mesh&)*g_mesh); } });
	t.push_back({ "copy",[](int) { Mesh m(*g_mesh), k; k = m; k.add_mesh(*g_mesh); return observe(k); } });
	t.push_back({ "measure",[](int) { Out o; const Mesh& m = *g_mesh; o(MeshMeasurements::volume(m)); o(MeshMeasurements::surface(m)); o(MeshMeasurements::is_closed(m)); o(MeshMeasurements::has_no_degenerated_triangles(m)); o(MeshMeasurements::is_oriented_outside(m)); return o.o; } });
	t.push_back({ "tessellate",[](int) { Mesh m; MeshTessellate k; k.compute(*g_mesh, 2, m); return observe(m); } });
	t.push_back({ "split",[](int) { Mesh a, b, x, y; MeshBoolean k; k.split_meshes(*g_mesh, *g_cutter, a, b, x, y); O o = observe(a), q = observe(b); o.insert(o.end(), q.begin(), q.end()); return o; } });
	t.push_back({ "to_nurbs",[](int) { NurbsSolid n; NurbsUtil::create_from_mesh(*g_mesh, n); return observe(n); } });
	t.push_back({ "render",[](int) { std::vector<int> px(16 * 12, -7); Renderer r(px.data(), 16, 12); r.set_camera(0, 0, 0, 8, 20, 30, 0, 10); r.add_diffuse_light(0xffffff, 0.5, Point3(0, 0, -1)); r.draw_mesh(*g_mesh, true); return O(px.begin(), px.end()); } });
	t.push_back({ "save_stl",[dir](int i) { std::string f = dir + "/rstl" + std::to_string(i); O r; r.push_back(STLFile::save(f, *g_mesh)); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "save_obj",[dir](int i) { std::string f = dir + "/robj" + std::to_string(i); O r; r.push_back(OBJFile::save(f, *g_mesh)); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "clean",[](int) { Out o; o(MeshMeasurements::is_clean(*g_mesh)); o(MeshMeasurements::has_no_isolated_vertices(*g_mesh)); o(MeshMeasurements::has_no_duplicated_vertices(*g_mesh)); o(MeshMeasurements::has_no_short_edges(*g_mesh)); return o.o; } });
	t.push_back({ "near",[](int) { Out o; for (int i = 0; i < g_mesh->nb_triangles(); i++) if (!g_mesh->is_triangle_unlinked(i)) { int a, b, d; g_mesh->get_near_triangles(i, a, b, d); o(a); o(b); o(d); Triangle3 t; g_mesh->get_triangle(i, t); o(t.surface()); } return o.o; } });
	t.push_back({ "face_solid",[](int) { Face f(*g_mesh); Solid s(*g_mesh); s.add_face(f); return observe(s.mesh()); } });
	t.push_back({ "transform",[](int) { Out o; std::vector<Point3> v{ Point3(1, 2, 3) }; Point3 p(3, 2, 1); for (const Transform* x : g_transforms) { x->apply(p); o(p); x->apply_all(v); o(v[0]); } return o.o; } });
	t.push_back({ "apply",[](int) { Mesh m(*g_mesh); NurbsSurface s; NurbsFactory::create_disk(1, s); for (const Transform* x : g_transforms) { m.apply_transform(*x); s.apply_transform(*x); } O o = observe(m), q = observe(s); o.insert(o.end(), q.begin(), q.end()); return o; } });
	t.push_back({ "bezier",[](int) { Out o; o(g_patch->eval(0.25, 0.5)); Mesh m; g_patch->add_to_mesh(m, 2); for (double d : observe(m)) o(d); QuadBezierTriangle k; k = *g_patch; o(k.eval(0.5, 0.25)); return o.o; } });
	t.push_back({ "smooth",[](int) { return observe((const SmoothMesh&)*g_smooth); } });
	t.push_back({ "smooth_copy",[](int) { SmoothMesh m(*g_smooth); m.add_mesh(*g_smooth); return observe(m); } });
	t.push_back({ "pixels",[](int) { return observe((const Image&)*g_image); } });
	t.push_back({ "image_copy",[](int) { Image m(*g_image), k; k = m; return observe(k); } });
	t.push_back({ "to_bw",[](int) { Image m; ImageUtil::convert_to_bw(*g_image, m); return observe(m); } });
	t.push_back({ "save_bmp",[dir](int i) { std::string f = dir + "/rbmp" + std::to_string(i); O r; r.push_back(ImageIoBmp::write(f, g_image)); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	return t;
}
void explore(mc::Ctx& c, const std::string& section, const std::string& what, const std::vector<Task>& t, const std::function<void()>& setup)
{
	std::vector<std::unique_ptr<O>> ref(t.size()); std::vector<std::string> wrong(t.size()); // results alone
	auto reference = [&](int i) -> const O& {
		if (!ref[i]) { wrong[i] = pristine([&] { setup(); O o = t[i].f(1); g->n = (long)o.size(); if (g->n > (1 << 20)) _exit(3); for (size_t k = 0; k < o.size(); k++) g->d[k] = o[k]; }); ref[i].reset(new O(g->d, g->d + g->n)); }
		return *ref[i];
	};
	int singles = c.bound(24, 80), doubles = c.bound(10, 28);
	c.section(section, S() << "every pair of " << t.size() << " operations " << what << ", from a fresh process: the locations both access are found, then every schedule with at most 2 preemptions at those accesses (" << singles << " single, " << doubles << " x " << doubles << " double)");
	for (int i = 0; i < (int)t.size(); i++) for (int j = i; j < (int)t.size(); j++) c.test([&] { return t[i].name + " | " + t[j].name; }, [&] {
		const O& a = reference(i); const O& b = reference(j);
		for (int k : { i,j }) if (!wrong[k].empty()) { c.fail("alone-" + base(t[k].name), t[k].name + " alone: " + wrong[k]); return; }
		O ra, rb; ra.reserve(8); std::function<void()> fa = [&] { ra = t[i].f(1); }, fb = [&] { rb = t[j].f(2); }; std::string key = base(t[i].name) + "|" + base(t[j].name); std::vector<uint64_t> sh;
		std::string w = pristine([&] { setup(); long n; auto x = sched::conflicts(fa, fb, n); g->accesses = n; g->n = (long)x.size(); for (size_t k = 0; k < x.size() && k < (1 << 20); k++) memcpy(&g->d[k], &x[k], 8); tell(a, ra, t[i].name); tell(b, rb, t[j].name + " after it"); });
		c.step(g->accesses ? 1 : 0); c.obs((int)g->n); for (auto* o : { &a,&b }) for (double d : *o) c.obs(d); sh.resize(g->n); for (long k = 0; k < g->n; k++) memcpy(&sh[k], &g->d[k], 8);
		if (!w.empty()) { c.fail("sequence-" + key, "one after the other: " + w); return; }
		if (sh.empty()) return; // no dependent accesses: every interleaving is equivalent to this one
		for (int first = 1; first <= 2; first++) {
			auto one = [&](const std::vector<long>& plan) {
				std::string w = pristine([&] { setup(); auto r = sched::execute(fa, fb, first, sh, plan); g->points = r.points; g->switches = r.switches; tell(a, ra, t[i].name); tell(b, rb, t[j].name); }); c.step(); c.obs((int)g->switches);
				if (!w.empty()) { std::string s; for (long k : plan) s += " " + std::to_string(k); c.fail("interleaving-" + key, S() << "thread " << first << " first, exchanged at accesses" << s << " of " << g->points << " to " << sh.size() << " common locations: " << w); return false; }
				return true;
			};
			if (!one({})) return;
			long n = g->points; std::vector<long> at; for (long k : ladder(1, (int)std::min<long>(n, 1 << 20), singles / 2)) at.push_back(k - 1); // the first ones and then farther and farther ones
			for (long k = std::max(0L, n - 4); k < n; k++) if (std::find(at.begin(), at.end(), k) == at.end()) at.push_back(k);
			if ((int)at.size() > singles) at.erase(at.begin() + singles - 4, at.end() - 4);
			for (long k : at) if (!one({ k })) return;
			for (size_t x = 0; x < at.size() && (int)x < doubles; x++) for (size_t y = x + 1; y < at.size() && (int)y < doubles; y++) if (!one({ at[x],at[y] })) return;
		}
	});
}
}
void run(mc::Ctx& c)
{
	std::string dir = c.scratch + "/c36-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
	g = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Builders B(dir, false); std::string e = pristine([&] { B.write_files(); }); if (!e.empty()) { c.section("files", "the files the loaders read"); c.test([] { return "saving"; }, [&] { c.fail("saving", e); }); return; }
	std::vector<Task> t = all_tasks(dir, B);
	explore(c, "pairs", "in two threads, each with objects of its own", t, [] {});
	std::vector<Task> r = readers(dir); explore(c, "readers", "in two threads, on the same mesh, smooth mesh and image, which they only read", r, set_readers);
	// the explorer itself: it must find the schedules which break code known to depend on the schedule
	c.section("control", "a counter, a static buffer and a table filled at its first use, written without synchronisation in the harness: the schedule that breaks each must be found");
	for (int k = 0; k < 3; k++) c.test([&] { return S() << "control " << k; }, [&] {
		static long counter; static std::vector<double>* buffer; static bool filled; static double table[8]; bool found = false; double x = 0, y = 0;
		auto work = [&](double* out, double v) {
			if (k == 0) { volatile long* q = &counter; long w = *q; *q = w + 1; *out = *q; }
			if (k == 1) { if (!buffer) buffer = new std::vector<double>(8); double s = 0; for (auto& d : *buffer) d = v; for (auto& d : *buffer) s += d; *out = s / v; }
			if (k == 2) { if (!filled) { filled = true; for (int i = 0; i < 8; i++) ((volatile double*)table)[i] = i; } *out = table[7]; }
		};
		std::function<void()> fa = [&] { work(&x, 1); }, fb = [&] { work(&y, 2); }; std::vector<uint64_t> sh;
		pristine([&] { long n; auto v = sched::conflicts(fa, fb, n); g->n = (long)v.size(); for (size_t q = 0; q < v.size(); q++) memcpy(&g->d[q], &v[q], 8); });
		sh.resize(g->n); for (long q = 0; q < g->n; q++) memcpy(&sh[q], &g->d[q], 8);
		for (long p = 0; p < 40 && !found; p++) for (long p2 = p; p2 < 40 && !found; p2++) { std::vector<long> plan = { p }; if (p2 > p) plan.push_back(p2); pristine([&] { sched::execute(fa, fb, 1, sh, plan); g->d[0] = x; g->d[1] = y; g->d[2] = (double)counter; }); c.step(); found = k == 0 ? g->d[2] != 2 : k == 1 ? g->d[0] != 8 || g->d[1] != 8 : g->d[0] != 7 || g->d[1] != 7; }
		c.obs((int)sh.size()); if (!found) throw std::logic_error("the explorer misses a known race");
	});
}
