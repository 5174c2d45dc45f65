// C32: whatever a builder builds into, the result is the one of a fresh object. All ordered pairs (thorough: triples) of builders of each output type.
#include "builders.hpp"
namespace {
// all ordered pairs and, thorough, triples: after the sequence the object is what the last operation builds in a fresh one
template<class T> void explore(mc::Ctx& c, const std::string& type, const std::vector<Op<T>>& dirty, const std::vector<Op<T>>& ops)
{
	std::vector<Op<T>> all = ops; for (auto& d : dirty) all.push_back(d);
	c.section(type, S() << "every sequence of " << c.bound(1, 2) << " to " << c.bound(2, 3) << " builds or uses (" << all.size() << " operations) of one object followed by every builder (" << ops.size() << ")");
	for (int depth = 1; depth <= c.bound(2, 3); depth++) sequences((int)all.size(), depth, [&](const std::vector<int>& s) {
		for (size_t k = 0; k < ops.size(); k++) {
			if (depth == 3 && s[2] % 3 != 0 && s[0] % 2 != 0) continue;
			c.test([&] { S o; o << type << ": "; for (int i : s) o << all[i].name << "; "; o << "then " << ops[k].name; return o.str(); }, [&] {
				T a, b; for (int i : s) all[i].f(a); ops[k].f(a); ops[k].f(b); c.step(s.size() + 2); O x = observe(a), y = observe(b);
				std::string key = ops[k].name; key = key.substr(0, key.find_first_of("( "));
				MC_CHECK(c, same(x, y), "reuse-" + key, ops[k].name << " into a used object: " << where(x, y));
				if (depth == 1) { ops[k].f(a); O z = observe(a); MC_CHECK(c, same(z, y), "twice-" + key, ops[k].name << " twice in a row: " << where(z, y)); }
				for (double d : y) c.obs(d);
			});
		}
	});
}
template<class A> void unmodified(mc::Ctx& c, const char* what, const A& in, const std::function<void()>& f) { O b = observe(in); f(); c.step(); O a = observe(in); MC_CHECK(c, same(a, b), S() << "input-modified-" << what, what << " modified its input: " << where(a, b)); for (double d : a) c.obs(d); }
}
void run(mc::Ctx& c)
{
	std::string dir = c.scratch + "/c32-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
	Builders B(dir);
	explore<Mesh>(c, "mesh", B.md, B.mo);
	explore<SmoothMesh>(c, "smooth mesh", B.sd, B.so);
	explore<NurbsCurve>(c, "curve", B.cd, B.co);
	explore<NurbsSurface>(c, "surface", B.ud, B.uo);
	explore<NurbsSolid>(c, "NURBS solid", B.ld, B.lo);
	explore<Image>(c, "image", B.id, B.io);
	explore<std::vector<double>>(c, "sample vector", B.dd, B.dv);
	explore<std::vector<Point3>>(c, "polyline", B.pd, B.pv);
	c.section("appending", "every ordered pair of a previous content and an appending operation: the previous content stays in front");
	for (size_t a = 0; a < B.mo.size(); a++) for (int k = 0; k < 5; k++) c.test([&] { return (S() << B.mo[a].name << " then appending operation " << k).str(); }, [&] {
		auto app = [&](Mesh& m) {
			if (k == 0) { NurbsSurface s; NurbsFactory::create_torus(3, 1, s); NurbsUtil::to_mesh(s, m, 2, false); }
			else if (k == 1) { QuadBezierTriangle q; q.set_points(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); q.add_to_mesh(m, 3); }
			else if (k == 2) { SmoothMesh s; SmoothMeshFactory::create_octahedron(1, s); s.add_to_mesh(m, 2); }
			else if (k == 3) m.add_mesh(mesh(0)); else m.add_mesh(mesh(1)); };
		Mesh m, e; B.mo[a].f(m); if (m.nb_triangles() > 2) m.unlink_triangle(1); TriList before = snapshot(m); app(m); app(e); c.step(3); TriList r = snapshot(m), tail = snapshot(e), model = before; size_t nv = model.v.size();
		for (auto& p : tail.v) model.v.push_back(p); for (size_t i = 0; i < tail.t.size(); i++) { model.addt(tail.t[i][0] + (int)nv, tail.t[i][1] + (int)nv, tail.t[i][2] + (int)nv); model.removed.back() = tail.removed[i]; }
		std::string d = diff(r, model, 1e-12, false); MC_CHECK(c, d == "", S() << "append-" << k, d); c.obs(r.hash());
	});
	c.section("inputs", "every builder with an input leaves the input as it was");
	for (int i = 0; i < 7; i++) c.test([&] { return (S() << "curve " << i).str(); }, [&] {
		NurbsCurve n = curve(i); NurbsSurface s; std::vector<Point3> pl; unmodified(c, "extrude", n, [&] { NurbsExtrude e; e.extrude(n, Point3(1, 0, 2), s); }); unmodified(c, "revolve", n, [&] { NurbsRevolve e; e.revolve(n, s); }); unmodified(c, "to_polyline", n, [&] { n.to_polyline(pl); });
		for (int j = 0; j < 7; j++) { NurbsCurve o = curve(j); if (o.degree() != n.degree() || o.nb_points() != n.nb_points()) continue; unmodified(c, "create_ruled", n, [&] { unmodified(c, "create_ruled", o, [&] { NurbsRuled e; e.create_ruled(n, o, s); }); }); }
	});
	for (size_t i = 0; i < B.uo.size(); i++) c.test([&] { return "surface of " + B.uo[i].name; }, [&] { NurbsSurface s; B.uo[i].f(s); Mesh m; unmodified(c, "to_mesh", s, [&] { NurbsUtil::to_mesh(s, m, 3); }); unmodified(c, "to_controlpoints_mesh", s, [&] { NurbsUtil::to_controlpoints_mesh(s, m); }); NurbsSolid q; unmodified(c, "add_surface", s, [&] { q.add_surface(s); q.apply_transform(Scale(2)); }); });
	for (size_t i = 0; i < B.mo.size(); i++) c.test([&] { return "mesh of " + B.mo[i].name; }, [&] {
		Mesh m, o, a, b, d; B.mo[i].f(m); NurbsSolid q; unmodified(c, "tessellate", m, [&] { MeshTessellate t; t.compute(m, 2, o); }); unmodified(c, "create_from_mesh", m, [&] { NurbsUtil::create_from_mesh(m, q); }); unmodified(c, "add_mesh", m, [&] { o.add_mesh(m); o.apply_transform(Scale(3)); });
		if (m.nb_triangles() < 60) unmodified(c, "split_meshes", m, [&] { Mesh t; MeshFactory::create_tetrahedron(1, t); unmodified(c, "split_meshes", t, [&] { MeshBoolean k; k.split_meshes(m, t, o, a, b, d); }); });
		unmodified(c, "save", m, [&] { STLFile::save(dir + "/o.stl", m); OBJFile::save(dir + "/o.obj", m); });
	});
	for (size_t i = 0; i < B.io.size(); i++) c.test([&] { return "image of " + B.io[i].name; }, [&] { Image m, o; B.io[i].f(m); std::vector<double> v; unmodified(c, "to_double", m, [&] { m.to_double(v); }); unmodified(c, "write", m, [&] { ImageIoBmp::write(dir + "/o.bmp", &m); }); if (m.planes() >= 3) unmodified(c, "convert_to_bw", m, [&] { ImageUtil::convert_to_bw(m, o); }); });
	for (const char* f : { "/0.stl","/0.obj","/a.stl","/a.obj","/b.obj","/1.bmp","/3.bmp","/4.bmp","/o.stl","/o.obj","/o.bmp" }) unlink((dir + f).c_str()); rmdir(dir.c_str());
}
