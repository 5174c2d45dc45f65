// C29: the nearest surface wins at every pixel. Oracle: exact pinhole projection with margins for pixel rounding;
// per pixel it gives the set of colours that may show, a single colour wherever the rounding cannot matter.
#include "common.hpp"
#include "Renderer.h"
namespace {
const double PI = 3.14159265358979323846;
struct Cam { V o; double ahead, yaw, pitch, roll, zoom; };
V euler(V p, double yaw, double pitch, double roll)
{
	double a = yaw * PI / 180, b = pitch * PI / 180, g = roll * PI / 180;
	p = { p.x * std::cos(a) + p.z * std::sin(a),p.y,p.z * std::cos(a) - p.x * std::sin(a) };
	p = { p.x,p.z * std::sin(b) - p.y * std::cos(b),p.z * std::cos(b) + p.y * std::sin(b) };
	return { p.x * std::cos(g) + p.y * std::sin(g),p.y * std::cos(g) - p.x * std::sin(g),p.z };
}
V local(const Cam& c, const V& p) { V l = euler(p - c.o, c.yaw, c.pitch, c.roll); l.z += c.ahead; return l; }
// world point which has the given local coordinates (the rotation part is orthogonal)
V world(const Cam& c, V l)
{
	l.z -= c.ahead; V ex = euler({ 1,0,0 }, c.yaw, c.pitch, c.roll), ey = euler({ 0,1,0 }, c.yaw, c.pitch, c.roll), ez = euler({ 0,0,1 }, c.yaw, c.pitch, c.roll);
	return c.o + V{ dot(l,ex),dot(l,ey),dot(l,ez) };
}
struct T3 { V a, b, c; int color; };
struct Drawn // a triangle in screen space
{
	double x[3], y[3], w[3]; int color; double gx, gy, w0; // w = w0 + gx*x + gy*y
	bool inFront = true; double area2 = 0;
};
Drawn project(const Cam& c, int W, int H, const T3& t)
{
	Drawn d; d.color = t.color; const V* p[3] = { &t.a,&t.b,&t.c };
	for (int i = 0; i < 3; i++) { V l = local(c, *p[i]); if (l.z <= 0) d.inFront = false; d.x[i] = l.x * c.zoom / l.z + W / 2; d.y[i] = l.y * c.zoom / l.z + H / 2; d.w[i] = 1 / l.z; }
	d.area2 = (d.x[1] - d.x[0]) * (d.y[2] - d.y[0]) - (d.x[2] - d.x[0]) * (d.y[1] - d.y[0]);
	d.gx = ((d.w[1] - d.w[0]) * (d.y[2] - d.y[0]) - (d.w[2] - d.w[0]) * (d.y[1] - d.y[0])) / d.area2;
	d.gy = ((d.w[2] - d.w[0]) * (d.x[1] - d.x[0]) - (d.w[1] - d.w[0]) * (d.x[2] - d.x[0])) / d.area2;
	d.w0 = d.w[0] - d.gx * d.x[0] - d.gy * d.y[0];
	return d;
}
const double M = 2; // pixels of tolerance
double dist_seg(double px, double py, double ax, double ay, double bx, double by)
{
	double dx = bx - ax, dy = by - ay, q = dx * dx + dy * dy, t = q > 0 ? ((px - ax) * dx + (py - ay) * dy) / q : 0; t = std::min(1., std::max(0., t));
	return std::hypot(px - ax - t * dx, py - ay - t * dy);
}
int cover(const Drawn& d, double px, double py) // 1 surely, 0 surely not, -1 undecided
{
	double s = d.area2 > 0 ? 1 : -1; bool in = true; double dist = 1e9;
	for (int k = 0; k < 3; k++) {
		int n = (k + 1) % 3; double cr = s * ((d.x[n] - d.x[k]) * (py - d.y[k]) - (px - d.x[k]) * (d.y[n] - d.y[k]));
		if (cr < 0) in = false;
		dist = std::min(dist, dist_seg(px, py, d.x[k], d.y[k], d.x[n], d.y[n]));
	}
	if (dist < M) return -1;
	return in ? 1 : 0;
}
// depth range over the tolerance disc; the vertex rounding moves the plane by at most as much
void wrange(const Drawn& d, double px, double py, double& lo, double& hi)
{
	double w = d.w0 + d.gx * px + d.gy * py, e = std::hypot(d.gx, d.gy) * M * 1.5 + 1e-6 * std::fabs(w), mn = std::min(d.w[0], std::min(d.w[1], d.w[2])), mx = std::max(d.w[0], std::max(d.w[1], d.w[2]));
	lo = std::max(w - e, mn * (1 - 1e-6)); hi = std::min(w + e, mx * (1 + 1e-6));
}
bool near_color(int a, int b) { for (int s = 0; s < 24; s += 8) if (std::abs(((a >> s) & 255) - ((b >> s) & 255)) > 1) return false; return (a >> 24) == (b >> 24); }
struct Scene
{
	int W, H; Cam cam; int bg = 0, shownBg = 0; std::vector<int> buf; Renderer r; std::vector<Drawn> model;
	Scene(int w, int h, const Cam& c, int background) : W(w), H(h), cam(c), bg(background), shownBg(background), buf((size_t)w * h), r(buf.data(), w, h)
	{
		r.set_background(bg); r.clear(); setcam(c); r.add_ambient_light(0xffffff, 256. / 255.);
	}
	void setcam(const Cam& c) { cam = c; r.set_camera(c.o.x, c.o.y, c.o.z, c.ahead, c.yaw, c.pitch, c.roll, c.zoom); }
	void clear() { r.clear(); model.clear(); shownBg = bg; }
	bool draw(const T3& t, bool two)
	{
		Drawn d = project(cam, W, H, t); bool ret = r.draw_triangle_1color(P(t.a), P(t.b), P(t.c), t.color, two);
		if (d.inFront && (two || d.area2 > 0)) model.push_back(d);
		return ret;
	}
	int decided = 0;
	std::string check()
	{
		for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
			int c = buf[x + y * W]; double bestLo = -1; bool sure = false; bool ok = false;
			for (auto& d : model) if (cover(d, x, y) == 1) { double lo, hi; wrange(d, x, y, lo, hi); sure = true; bestLo = std::max(bestLo, lo); }
			int cand = 0; std::string names;
			for (auto& d : model) { if (cover(d, x, y) == 0) continue; double lo, hi; wrange(d, x, y, lo, hi); if (sure && hi < bestLo) continue; cand++; names += S() << " " << d.color; if (near_color(c, d.color)) ok = true; }
			if (!sure) { cand++; names += S() << " " << shownBg << "(background)"; if (c == shownBg) ok = true; }
			if (cand == 1) decided++;
			if (!ok) return S() << "pixel (" << x << "," << y << ") of " << W << "x" << H << " shows " << c << ", allowed:" << names;
		}
		return "";
	}
	uint64_t hash() const { uint64_t x = 7; for (int v : buf) x = mc::mix(x, (uint64_t)(uint32_t)v); return x; }
};
std::string tstr(const T3& t) { return S() << str(t.a) << str(t.b) << str(t.c) << " colour " << t.color; }
const int BG = 0x0a0b0c;
// triangles in camera coordinates (x right, y down, z ahead), facing the camera, with well separated or crossing depths, some beyond each border
std::vector<T3> pool(const Cam& c)
{
	std::vector<T3> L = {
		{ {-40,-30,20},{60,-30,20},{-40,70,20}, 0x400000 },      // everything, far
		{ {-4,-3,8},{5,-2,8},{0,4,8}, 0x00c000 },                // inside the screen
		{ {-30,-2,10},{3,-3,6},{2,5,7}, 0x0000e0 },              // beyond the left border, slanted
		{ {1,-4,5},{40,-6,30},{3,6,12}, 0xc0c000 },              // beyond the right border, slanted
		{ {-3,-1,4},{2,-1,5},{0,30,14}, 0x00a0f0 },              // beyond the bottom
		{ {-5,-40,16},{6,-20,13},{1,2,3}, 0xf050f0 },            // beyond the top, very near tip
		{ {-8,-8,16},{8,-8,5},{8,8,5}, 0x808080 },               // strongly slanted, crosses others
		{ {-6,0,9},{6,0.5,9},{-1,3,15}, 0x205080 } };
	for (auto& t : L) { // make it face the camera: positive area on the screen
		double ax = t.a.x / t.a.z, ay = t.a.y / t.a.z, bx = t.b.x / t.b.z, by = t.b.y / t.b.z, cx = t.c.x / t.c.z, cy = t.c.y / t.c.z;
		if ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay) < 0) std::swap(t.b, t.c);
		t.a = world(c, t.a); t.b = world(c, t.b); t.c = world(c, t.c);
	}
	return L;
}
T3 rot(const T3& t, int k) { return k == 0 ? t : k == 1 ? T3{ t.b,t.c,t.a,t.color } : k == 2 ? T3{ t.c,t.a,t.b,t.color } : k == 3 ? T3{ t.a,t.c,t.b,t.color } : k == 4 ? T3{ t.c,t.b,t.a,t.color } : T3{ t.b,t.a,t.c,t.color }; }
}
void run(mc::Ctx& c)
{
	std::vector<Cam> cams = { { {0,0,0},0,0,0,0,20 }, { {0,0,0},5,0,0,0,20 }, { {1,-2,3},0,30,20,-40,20 }, { {10,0,0},2,180,-35,90,28 } };
	if (c.thorough()) { cams.push_back({ {-3,4,100},-2,77,0,13,14 }); cams.push_back({ {0,0,0},0,-90,90,0,20 }); cams.push_back({ {5,5,5},7.5,15,-75,170,24 }); cams.push_back({ {0,0,0},0,0,0,180,20 }); }
	std::vector<std::array<int, 2>> sizes = { {{40,30}},{{31,43}} }; if (c.thorough()) { sizes.push_back({ {64,64} }); sizes.push_back({ {17,80} }); }
	c.section("orders", "every ordered selection of up to three (four when thorough) triangles of a set, drawn in that order");
	for (size_t k = 0; k < cams.size(); k++) for (size_t z = 0; z < sizes.size(); z++) {
		auto L = pool(cams[k]); int n = (int)L.size();
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& s) {
			if (!s.empty()) c.test([&] { S o; o << "camera " << k << " screen " << sizes[z][0] << "x" << sizes[z][1] << " triangles"; for (int i : s) o << " " << i << ":" << tstr(L[i]); return o.str(); }, [&] {
				Scene sc(sizes[z][0], sizes[z][1], cams[k], BG);
				for (size_t j = 0; j < s.size(); j++) { bool vis = sc.draw(rot(L[s[j]], (int)(j + s[0]) % 3), false); c.step(); MC_CHECK(c, vis, "visible-false", "a triangle facing the camera on the screen is reported not visible: " << tstr(L[s[j]])); }
				std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel", e); c.obs(sc.hash());
			});
			if ((int)s.size() == c.bound(3, 4)) return;
			for (int i = 0; i < n; i++) { if (std::find(s.begin(), s.end(), i) != s.end()) continue; s.push_back(i); rec(s); s.pop_back(); }
		};
		std::vector<int> s; rec(s);
	}
	c.section("facing", "every triangle of the set in every corner order, one- and two-sided, alone and over another one");
	for (size_t k = 0; k < cams.size(); k++) for (int i = 0; i < 8; i++) for (int o = 0; o < 6; o++) for (int two = 0; two < 2; two++) for (int under = 0; under < 2; under++)
		c.test([&] { return (S() << "camera " << k << " triangle " << i << " order " << o << " two-sided " << two << " background triangle " << under).str(); }, [&] {
			auto L = pool(cams[k]); Scene sc(40, 30, cams[k], BG); if (under) sc.draw(L[i == 0 ? 1 : 0], false);
			bool vis = sc.draw(rot(L[i], o), two); c.step(); bool expect = two || o < 3;
			MC_CHECK(c, vis == expect, "visible", "draw_triangle_1color returned " << vis << ", the triangle faces " << (o < 3 ? "the camera" : "away") << (two ? ", two-sided" : ""));
			std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel", e); c.obs(sc.hash());
		});
	c.section("colours", "triangles and meshes with edges, with an explicit or their own colour, of every single bit, channel and some mixed values, on two backgrounds: each in its colour, edges drawn whatever it is");
	for (int bit = 0; bit < 32; bit++) for (int kind = 0; kind < 3; kind++) for (int bg : { BG,0xffffff }) for (int edges = 0; edges < 2; edges++) c.test([&] { return (S() << "colour " << bit << (kind == 0 ? " triangle" : kind == 1 ? " mesh colour" : " explicit colour") << " background " << bg << " edges " << edges).str(); }, [&] {
		static const int MORE[8] = { 0,0xff,0xff00,0xff0000,0xffff,0xff00ff,0xffff00,0xffffff }; int col = bit < 24 ? 1 << bit : MORE[bit - 24]; auto L = pool(cams[0]); Scene sc(40, 30, cams[0], bg); T3 t = L[1]; t.color = col; Mesh m; int a = m.add_vertex(P(t.a)), b = m.add_vertex(P(t.b)), d = m.add_vertex(P(t.c)); m.add_triangle(a, b, d); m.set_color(kind == 1 ? col : 0x777777);
		if (kind == 0) { sc.draw(t, false); c.step(); } else { sc.r.draw_mesh(m, false, kind == 1 ? -1 : col); sc.model.push_back(project(sc.cam, sc.W, sc.H, t)); c.step(); } std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-colour", e); c.obs(sc.hash());
		if (!kind || !edges || !col) return; sc.clear(); sc.r.draw_mesh(m, true, kind == 1 ? -1 : col); c.step(); Drawn w = project(sc.cam, sc.W, sc.H, t); for (int q = 0; q < 3; q++) for (int s = 1; s < 20; s++) { double x = w.x[q] + (w.x[(q + 1) % 3] - w.x[q]) * s / 20, y = w.y[q] + (w.y[(q + 1) % 3] - w.y[q]) * s / 20; bool f = false; for (int i = -2; i <= 2; i++) for (int j = -2; j <= 2; j++) { int X = (int)x + i, Y = (int)y + j; if (X >= 0 && Y >= 0 && X < sc.W && Y < sc.H && sc.buf[X + Y * sc.W] == 0) f = true; } MC_CHECK(c, f, "edge-missing", "no edge pixel near (" << x << "," << y << ")"); } });
	c.section("meshes", "every subset of removed triangles of a mesh of five facing and two back triangles, with and without edges");
	for (size_t k = 0; k < cams.size(); k++) for (int mask = 0; mask < 128; mask++) for (int col = 0; col < 2; col++)
		c.test([&] { return (S() << "camera " << k << " removed mask " << mask << (col ? " explicit colour" : " mesh colour")).str(); }, [&] {
			auto L = pool(cams[k]); Scene sc(40, 30, cams[k], BG); Mesh m; m.set_color(0x30d070); int ci = col ? 0xe08010 : 0x30d070;
			for (int i = 0; i < 7; i++) { T3 t = L[i + 1]; if (i >= 5) t = rot(t, 3); int a = m.add_vertex(P(t.a)), b = m.add_vertex(P(t.b)), d = m.add_vertex(P(t.c)); m.add_triangle(a, b, d); }
			for (int i = 0; i < 7; i++) if (mask >> i & 1) m.unlink_triangle(i);
			TriList before = snapshot(m);
			if (col) sc.r.draw_mesh(m, false, ci); else sc.r.draw_mesh(m); c.step();
			for (int i = 0; i < 5; i++) if (!(mask >> i & 1)) { T3 t = L[i + 1]; t.color = ci; sc.model.push_back(project(sc.cam, sc.W, sc.H, t)); }
			std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel-mesh", e); c.obs(sc.hash());
			MC_CHECK(c, diff(before, snapshot(m)) == "", "mesh-modified", "drawing modified the mesh");
			// with edges: black lines on the sides of live facing triangles only
			sc.clear(); sc.r.draw_mesh(m, true, ci); c.step();
			for (int y = 0; y < sc.H; y++) for (int x = 0; x < sc.W; x++) {
				bool nearEdge = false; for (int i = 0; i < 5; i++) if (!(mask >> i & 1)) { Drawn d = project(sc.cam, sc.W, sc.H, L[i + 1]); for (int q = 0; q < 3; q++) if (dist_seg(x, y, d.x[q], d.y[q], d.x[(q + 1) % 3], d.y[(q + 1) % 3]) < M) nearEdge = true; }
				if (!nearEdge) MC_CHECK(c, sc.buf[x + y * sc.W] != 0, "edge-elsewhere", "an edge pixel at (" << x << "," << y << ") away from every drawn triangle");
			}
			if (mask != 127 && (mask & 31) == 30) { // only triangle 1 of the set, which is inside the screen: its outline is closed
				Drawn d = project(sc.cam, sc.W, sc.H, L[1]); for (int q = 0; q < 3; q++) for (int s = 1; s < 20; s++) {
					double x = d.x[q] + (d.x[(q + 1) % 3] - d.x[q]) * s / 20, y = d.y[q] + (d.y[(q + 1) % 3] - d.y[q]) * s / 20; bool f = false;
					for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) { int X = (int)x + a, Y = (int)y + b; if (X >= 0 && Y >= 0 && X < sc.W && Y < sc.H && sc.buf[X + Y * sc.W] == 0) f = true; }
					MC_CHECK(c, f, "edge-missing", "no edge pixel near (" << x << "," << y << ")");
				}
			}
		});
	c.section("histories", "every sequence of draws, clears, background and camera changes up to a depth");
	{
		static const char* NAME[] = { "draw 0","draw 1","draw 2","draw 6","draw back of 3","draw back of 4 two-sided","clear","background change","camera change","mesh with one removed" };
		sequences(10, c.bound(4, 5), [&](const std::vector<int>& s) {
			c.test([&] { S o; for (int x : s) o << NAME[x] << "; "; return o.str(); }, [&] {
				Scene sc(30, 24, cams[0], BG); auto L = pool(cams[0]); int nb = 0;
				for (int x : s) {
					c.step();
					switch (x) {
					case 0: sc.draw(L[0], false); break; case 1: sc.draw(L[1], false); break; case 2: sc.draw(L[2], false); break; case 3: sc.draw(L[6], false); break;
					case 4: sc.draw(rot(L[3], 4), false); break; case 5: sc.draw(rot(L[4], 5), true); break;
					case 6: sc.clear(); for (int v : sc.buf) MC_CHECK(c, v == sc.bg, "clear", "a pixel is " << v << " after clear"); break;
					case 7: sc.bg = BG + 0x101010 * ++nb; sc.r.set_background(sc.bg); break;
					case 8: sc.setcam(sc.cam.zoom == 20 ? Cam{ {0,0,-2},1,10,0,0,15 } : cams[0]); break;
					case 9: { Mesh m; m.set_color(L[5].color); for (int i : std::initializer_list<int>{ 5,3 }) { int a = m.add_vertex(P(L[i].a)), b = m.add_vertex(P(L[i].b)), d = m.add_vertex(P(L[i].c)); m.add_triangle(a, b, d); } m.unlink_triangle(1); sc.r.draw_mesh(m); Drawn d = project(sc.cam, sc.W, sc.H, L[5]); if (d.inFront && d.area2 > 0) sc.model.push_back(d); break; }
					}
				}
				std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel-history", e); c.obs(sc.hash());
			});
		});
	}
	c.section("borders", "triangles reaching the screen by a strip of 0 to 8 pixels along one border, from every side, to 5, 50 and 500 pixels beyond it, on screens of several sizes");
	for (int side = 0; side < 4; side++) for (int q = 0; q <= 32; q++) for (int far : { 5,50,500 }) for (int shape = 0; shape < 3; shape++) for (size_t z = 0; z < 3; z++)
		c.test([&] { return (S() << "border " << side << " strip of " << q / 4. << " pixels, to " << far << " beyond, shape " << shape << " screen " << z).str(); }, [&] {
			static const int SZ[3][2] = { {40,30},{31,43},{64,17} }; int W = SZ[z][0], H = SZ[z][1], n = side < 2 ? W : H, m = side < 2 ? H : W; Scene sc(W, H, cams[0], BG); double in = q / 4.;
			auto pt = [&](double depth, double along, double zz) { double a = side % 2 ? n - 1 - depth : depth, x = side < 2 ? a : along, y = side < 2 ? along : a; return V{ (x - W / 2) * zz / 20,(y - H / 2) * zz / 20,zz }; };
			T3 t = shape == 0 ? T3{ pt(in, -m, 10),pt(in, 2 * m, 10),pt(-far, m / 2., 10),0x40c020 } : shape == 1 ? T3{ pt(in, -m, 5),pt(in + 0.25, 2 * m, 15),pt(-far, m / 2., 10),0x40c020 } : T3{ pt(in, m / 2., 10),pt(-far, -30. * m, 10),pt(-far, 31. * m, 10),0x40c020 };
			sc.draw(t, true); c.step(); std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel-border", e); c.obs(sc.hash());
		});
	c.section("behind", "geometry entirely behind the camera draws nothing: triangles in both orders, lines and points at near and far distances");
	for (size_t k = 0; k < cams.size(); k++) for (double d : { 1e-9,1e-7,1e-6,1e-5,1e-4,1e-3,1e-2,0.1,0.5,1.,10.,1e3,1e5,3e5,1e7,1e9 }) for (int i = 0; i < 8; i++)
		c.test([&] { return (S() << "camera " << k << " triangle " << i << " mirrored behind the camera at distance scale " << d).str(); }, [&] {
			Cam cam = cams[k]; cam.o = { 0,0,0 }; cam.ahead = 0; auto L = pool(cam); Scene sc(40, 30, cam, BG); T3 t = L[i]; V* p[3] = { &t.a,&t.b,&t.c }; for (V* q : p) *q = *q * (-d);
			sc.r.draw_triangle_1color(P(t.a), P(t.b), P(t.c), 0xffffff, true); sc.r.draw_triangle_1color(P(t.b), P(t.a), P(t.c), 0xffffff, true); c.step(2);
			for (int v : sc.buf) MC_CHECK(c, v == BG, "behind-triangle", "a triangle behind the camera is drawn");
			for (int q = 0; q < 3; q++) { sc.r.draw_line(P(*p[q]), P(*p[(q + 1) % 3]), 0xff); sc.r.draw_pixel(P(*p[q]), 0xff00); sc.r.draw_polyline({ P(*p[q]),P(*p[(q + 2) % 3]),P(*p[q]) }, 0xff); c.step(3); }
			for (int v : sc.buf) MC_CHECK(c, v == BG, "behind-line", "a line or point behind the camera is drawn");
			c.obs(sc.hash());
		});
	c.section("points and lines", "points and lines in front of or behind a triangle, over all positions of a grid");
	for (size_t k = 0; k < cams.size(); k++) for (int a = 0; a < 25; a++) for (int b = -1; b < 25; b++) for (int depth = 0; depth < 2; depth++)
		c.test([&] { return (S() << "camera " << k << " from grid point " << a << (b < 0 ? std::string(" alone") : (S() << " to " << b).str()) << (depth ? " nearer" : " farther") << " than the triangle").str(); }, [&] {
			const Cam& cam = cams[k]; auto L = pool(cam); T3 t = L[1]; Scene sc(40, 30, cam, BG); sc.draw(t, false); double z = depth ? 3 : 50; // triangle 1 is at distance 8
			auto grid = [&](int g) { return V{ (g % 5 - 2) * 0.4 * z + 0.01 * z,(g / 5 - 2) * 0.3 * z + 0.01 * z,z }; }; auto base = sc.buf;
			V A = grid(a), B = grid(b < 0 ? a : b); double ax = A.x * 20 / z, ay = A.y * 20 / z, bx = B.x * 20 / z, by = B.y * 20 / z; ax = A.x * cam.zoom / z + 20; ay = A.y * cam.zoom / z + 15; bx = B.x * cam.zoom / z + 20; by = B.y * cam.zoom / z + 15;
			if (b < 0) sc.r.draw_pixel(P(world(cam, A)), 0xffffff); else sc.r.draw_line(P(world(cam, A)), P(world(cam, B)), 0xffffff); c.step();
			int n = 0; Drawn d = sc.model[0];
			for (int y = 0; y < 30; y++) for (int x = 0; x < 40; x++) {
				int v = sc.buf[x + y * 40]; if (v == base[x + y * 40]) continue; n++;
				MC_CHECK(c, v == 0xffffff, "line-colour", "pixel (" << x << "," << y << ") became " << v);
				MC_CHECK(c, dist_seg(x, y, ax, ay, bx, by) < (b < 0 ? 0.75 : 1.5), "line-elsewhere", "pixel (" << x << "," << y << ") is away from the line (" << ax << "," << ay << ")-(" << bx << "," << by << ")");
				MC_CHECK(c, depth || cover(d, x, y) != 1, "line-hidden", "pixel (" << x << "," << y << ") shows something behind the triangle");
			}
			auto shown = [&](double x, double y, double r) { for (int Y = 0; Y < 30; Y++) for (int X = 0; X < 40; X++) if (std::hypot(X - x, Y - y) <= r && sc.buf[X + Y * 40] == 0xffffff) return true; return false; };
			auto visible = [&](double x, double y) { return x > 1.5 && y > 1.5 && x < 38 && y < 28 && (depth || cover(d, x, y) == 0); };
			if (b < 0) { if (visible(ax, ay)) MC_CHECK(c, n == 1 && shown(ax, ay, 0.75), "point-missing", "the point (" << ax << "," << ay << ") is not drawn as one pixel, " << n << " pixels"); }
			else { double l = std::hypot(bx - ax, by - ay); for (int s = 1; s < 30; s++) { double x = ax + (bx - ax) * s / 30, y = ay + (by - ay) * s / 30; if (s * l / 30 < 2 || (30 - s) * l / 30 < 2 || !visible(x, y)) continue; MC_CHECK(c, shown(x, y, 1.5), "line-missing", "nothing drawn near (" << x << "," << y << ")"); } }
			c.obs(sc.hash());
		});
	c.section("polylines", "every list of up to five points over four points, repeats included, with a triangle between: the same picture as its segments one by one");
	for (size_t k = 0; k < cams.size(); k += 2) for (int n = 0; n <= c.bound(5, 6); n++) sequences(4, n, [&](const std::vector<int>& q) { c.test([&] { S s; s << "camera " << k << " points"; for (int i : q) s << " " << i; return s.str(); }, [&] {
		const Cam& cam = cams[k]; auto L = pool(cam); static const V G[4] = { {-1.6,-1.1,2},{24,14,40},{1.5,-0.9,3},{-9,11,20} }; Scene a(40, 30, cam, BG), b(40, 30, cam, BG); a.draw(L[1], false); b.draw(L[1], false); std::vector<Point3> l; for (int i : q) l.push_back(P(world(cam, G[i]))); a.r.draw_polyline(l, 0xabcdef); c.step();
		for (size_t i = 1; i < l.size(); i++) b.r.draw_line(l[i - 1], l[i], 0xabcdef); int dif = 0, at = 0; for (int i = 0; i < 40 * 30; i++) if (a.buf[i] != b.buf[i]) { dif++; at = i; } MC_CHECK(c, dif == 0, "polyline", dif << " pixels differ from drawing the segments, one at (" << at % 40 << "," << at / 40 << ")"); c.obs(a.hash());
	}); });
	c.section("long polylines", "polylines of every number of points of a ladder, scattered over the screen and beyond, closed or not, with a triangle between: the same picture as their segments one by one");
	for (size_t k = 0; k < cams.size(); k += 2) for (int n : ladder(2, c.bound(1030, 4100))) for (int o = 0; o < 3; o++) c.test([&] { return (S() << "camera " << k << " polyline of " << n << " points" << (o == 1 ? " closed" : o == 2 ? " with every point twice" : "")).str(); }, [&] {
		const Cam& cam = cams[k]; auto L = pool(cam); Scene a(60, 50, cam, BG), b(60, 50, cam, BG); a.draw(L[1], false); b.draw(L[1], false); std::vector<Point3> l; for (int i = 0; i < n; i++) { double z = 2 + (i * 5) % 9 * 2.5; l.push_back(P(world(cam, { ((i * 37) % 61 - 30.) / cam.zoom * z,((i * 23 + i / 61 * 7) % 51 - 25.) / cam.zoom * z,z }))); if (o == 2) l.push_back(l.back()); } if (o == 1) l.push_back(l[0]); a.r.draw_polyline(l, 0xabcdef); c.step();
		for (size_t i = 1; i < l.size(); i++) b.r.draw_line(l[i - 1], l[i], 0xabcdef); int dif = 0, at = 0; for (int i = 0; i < 60 * 50; i++) if (a.buf[i] != b.buf[i]) { dif++; at = i; } MC_CHECK(c, dif == 0, "polyline", dif << " pixels differ from drawing the segments, one at (" << at % 60 << "," << at / 60 << ")"); c.obs(a.hash());
		Scene e(60, 50, cam, BG); std::vector<Point3> f; for (int i = 0; i < n - 1; i++) f.push_back(P(world(cam, { -9.5 / cam.zoom * 5,(i % 2 - 9.) / cam.zoom * 5,5. }))); f.push_back(P(world(cam, { 12.5 / cam.zoom * 5,7.5 / cam.zoom * 5,5. }))); e.r.draw_polyline(f, 0xabcdef); int right = 0; for (int y = 0; y < 50; y++) for (int x = 32; x < 60; x++) right += e.buf[x + y * 60] == 0xabcdef; MC_CHECK(c, right >= 5, "polyline-last", "the last segment shows only " << right << " pixels");
	});
	c.section("fresh", "a renderer built over memory filled with each of five patterns, a depth buffer likewise, screens of several sizes: drawing without clearing first, light and camera set, equals drawing after clearing");
	for (int f : MEMORY) for (auto& z : std::vector<std::array<int, 2>>{ {{1,1}},{{7,5}},{{40,30}},{{64,33}} }) for (int bg = 0; bg < 2; bg++) c.test([&] { return (S() << "memory filled with " << f << " screen " << z[0] << "x" << z[1] << (bg ? " background set" : "")).str(); }, [&] {
		int W = z[0], H = z[1]; { std::vector<float*> keep; for (int i = 0; i < 4; i++) { keep.push_back(new float[W * H]); memset(keep.back(), f, sizeof(float) * W * H); } for (auto p : keep) delete[] p; }
		std::vector<int> a(W * H, -7), b(W * H, -7); Over<Renderer> r(f, a.data(), W, H), q(0, b.data(), W, H); for (int x : a) MC_CHECK(c, x == 0, "fresh-background", "a pixel of a new renderer shows " << x); if (bg) for (Renderer* k : { r.p,q.p }) k->set_background(BG); q->clear(); if (bg) r->clear();
		for (Renderer* k : { r.p,q.p }) { k->set_camera(0, 0, 0, 0, 0, 0, 0, std::max(W, H)); k->add_ambient_light(0xffffff, 256. / 255.); double d = 1e6; auto at = [&](double x, double y) { return P(world(cams[0], { x * d,y * d,d })); }; k->draw_triangle_1color(at(-3, -3), at(9, -3), at(-3, 9), 0x0000f0, true); c.step(); }
		for (int i = 0; i < W * H; i++) if (a[i] != 0x0000f0 || b[i] != a[i]) { c.fail("fresh-depth", S() << "pixel (" << i % W << "," << i / W << ") shows " << a[i] << " and " << b[i]); return; } c.obs(W * H);
	});
	c.section("clear", "every screen of up to 26 by 26 pixels, and long, tall and large ones: drawn over, cleared, then drawn farther away");
	{ std::vector<std::array<int, 2>> Z; for (int w = 1; w <= 26; w++) for (int h = 1; h <= 26; h++) Z.push_back({ { w,h } }); for (int n : ladder(27, c.bound(1030, 4100))) for (int q : { 1,2,5,7 }) { Z.push_back({ { n,q } }); Z.push_back({ { q,n } }); } for (int n : ladder(27, c.bound(256, 700))) { Z.push_back({ { n,n } }); Z.push_back({ { n + 3,n - 2 } }); }
	for (auto& z : Z) for (int o = 0; o < 2; o++) c.test([&] { return (S() << "screen " << z[0] << "x" << z[1] << (o ? ", cleared twice" : "")).str(); }, [&] {
		int W = z[0], H = z[1]; std::vector<int> buf((size_t)W * H, -7); Renderer r(buf.data(), W, H); double zoom = std::max(W, H); r.set_camera(0, 0, 0, 0, 0, 0, 0, zoom); r.add_ambient_light(0xffffff, 256. / 255.);
		auto fill = [&](double d, int col) { auto at = [&](double x, double y) { return P(world(cams[0], { x * d,y * d,d })); }; r.draw_triangle_1color(at(-3, -3), at(9, -3), at(-3, 9), col, true); c.step(); };
		auto all = [&](int col, const char* when) { for (size_t i = 0; i < buf.size(); i++) if (buf[i] != col) { c.fail("clear", S() << when << ": pixel (" << i % W << "," << i / W << ") shows " << buf[i] << ", not " << col); return false; } return true; };
		r.set_background(BG); r.clear(); if (!all(BG, "after the first clear")) return; fill(2, 0xf00000); if (!all(0xf00000, "covered")) return; if (o) { r.set_background(0x102030); r.clear(); if (!all(0x102030, "after a clear to another background")) return; fill(1.5, 0x00f000); r.set_background(BG); } r.clear(); if (!all(BG, "after clear")) return; fill(50, 0x0000f0); all(0x0000f0, "covered from far away after clear"); c.obs(W * 1000 + H);
	}); }
	c.section("line depth ladder", "a line and a screen-filling triangle at distances of every power of two, the line nearer or farther by every ratio from 2 to 1+1/32, drawn before or after, then a farther triangle");
	for (int e = c.bound(-10, -20); e <= c.bound(20, 30); e++) for (int k = 0; k <= 5; k++) for (int o = 0; o < 4; o++) for (int ln = 0; ln < 4; ln++) c.test([&] { return (S() << "distance 2^" << e << " ratio 1+2^-" << k << (o & 1 ? " line nearer" : " line farther") << (o & 2 ? " drawn first" : " drawn last") << " line " << ln).str(); }, [&] {
		double d = std::ldexp(1., e), q = 1 + std::ldexp(1., -k), z = o & 1 ? d / q : d * q; Scene sc(20, 16, cams[0], BG); auto mk = [&](double z, int col) { T3 t = { world(cams[0],{ -3 * z,-3 * z,z }),world(cams[0],{ 9 * z,-3 * z,z }),world(cams[0],{ -3 * z,9 * z,z }),col }; return t; }; double zm = cams[0].zoom;
		static const double LN[4][4] = { {-6,0,6,0},{0,5,0,-5},{-5,-5,5,4},{-400,-300,400,301} }; Point3 A = P(world(cams[0], { LN[ln][0] / zm * z,LN[ln][1] / zm * z,z })), B = P(world(cams[0], { LN[ln][2] / zm * z,LN[ln][3] / zm * z,z }));
		for (int i = 0; i < 2; i++) { if ((i == 0) == (o >= 2)) sc.r.draw_line(A, B, 0xffffff); else sc.draw(mk(d, 0x00f000), false); c.step(); } sc.draw(mk(d * q * q, 0xf00000), false); c.step();
		int w = 0, f = 0, g = 0; for (int v : sc.buf) { w += v == 0xffffff; f += v == 0xf00000; g += v == 0x00f000; } MC_CHECK(c, f == 0, "line-depth", f << " pixels show the farthest triangle"); MC_CHECK(c, w + g == 320, "line-depth", "a pixel of another colour"); MC_CHECK(c, o & 1 ? w >= 8 : w == 0, "line-depth", w << " pixels of the line are shown"); c.obs(sc.hash());
	});
	c.section("beyond both sides", "slanted triangles leaving the screen on several sides at once, every direction of slope, overshoot and corner order, crossing a flat one, in both drawing orders");
	for (auto& z : std::vector<std::array<int, 2>>{ {{40,30}},{{24,57}} }) for (size_t k = 0; k < cams.size(); k += c.bound(2, 1)) for (int dir = 0; dir < c.bound(12, 36); dir++) for (double over : { 0.7,2.,9.,60. }) for (int shape = 0; shape < 5; shape++) for (int o = 0; o < 2; o++) c.test([&] { return (S() << "screen " << z[0] << "x" << z[1] << " camera " << k << " slope direction " << dir << " overshoot " << over << " shape " << shape << " order " << o).str(); }, [&] {
		int W = z[0], H = z[1]; const Cam& cm = cams[k]; Scene sc(W, H, cm, BG); static const double SHP[5][3][2] = { {{-1,-1},{3,-1},{-1,3}},{{1,1},{-3,1},{1,-3}},{{0,-2},{2.5,1.5},{-2.5,1.5}},{{-2,-0.2},{2,-0.4},{0.1,1.4}},{{-2,0.3},{0.2,-1.6},{2.2,0.5}} }; double mx = 0, a = dir * 2 * PI / c.bound(12, 36);
		double v[3][2]; for (int i = 0; i < 3; i++) { v[i][0] = SHP[shape][i][0] * (W / 2. + over * W); v[i][1] = SHP[shape][i][1] * (H / 2. + over * H); mx = std::max(mx, std::fabs(v[i][0] * std::cos(a) + v[i][1] * std::sin(a))); }
		const double w0 = 0.1; auto at = [&](double sx, double sy, double w) { double d = 1 / w; return world(cm, { sx / cm.zoom * d,sy / cm.zoom * d,d }); };
		T3 s{ {},{},{},0x00c0f0 }, f{ at(-9 * W, -9 * H, w0),at(27 * W, -9 * H, w0),at(-9 * W, 27 * H, w0),0xf02000 }; V* q[3] = { &s.a,&s.b,&s.c }; for (int i = 0; i < 3; i++) *q[i] = at(v[i][0], v[i][1], w0 * (1 + 0.93 / mx * (v[i][0] * std::cos(a) + v[i][1] * std::sin(a))));
		s = rot(s, (dir + shape) % 3); for (int i = 0; i < 2; i++) { bool r = sc.draw((i + o) % 2 ? f : s, false); c.step(); MC_CHECK(c, r, "visible-false", "a triangle facing the camera is reported not visible"); }
		std::string e = sc.check(); MC_CHECK(c, e == "", "wrong-pixel-clipped", e); c.obs(sc.hash());
	});
	c.section("mixed primitives", "every ordered selection of up to four of a set of points, lines, polylines, triangles and a mesh, each at its own depth: at each pixel the nearest of those which cover it there when drawn alone");
	for (size_t k = 0; k < cams.size(); k++) {
		const Cam& cam = cams[k]; const int NP = 8; const int W = 24, H = 18; auto at = [&cam](double sx, double sy, double z) { return P(world(cam, { sx / cam.zoom * z,sy / cam.zoom * z,z })); };
		static const double Z[NP] = { 4,10,6,3,8,5,7,9 }; static const int CO[NP] = { 0xf00000,0x00f000,0x0000f0,0xf0f000,0x00f0f0,0xf000f0,0x8080f0,0xf08080 };
		auto draw = [&cam, at](Renderer& r, int i) { double z = Z[i]; int co = CO[i]; switch (i) {
			case 0: case 3: case 1: r.draw_pixel(at(0.5, 0.5, z), co); r.draw_pixel(at(i + 3.5, -2.5, z), co); break;
			case 2: case 5: r.draw_line(at(-9, i - 2.5, z), at(9, 0.5 - (i - 3), z), co); break;
			case 4: r.draw_polyline({ at(-6, -6, z),at(6.5, 6, z),at(6.5, -6, z),at(0.5, 0.5, z) }, co); break;
			case 6: r.draw_triangle_1color(at(-8, -7, z), at(8, -6, z), at(0.5, 8, z), co, true); break;
			case 7: { Mesh m; m.set_color(co); Point3 a = at(-7, -8, z), b = at(9, -3, z), d = at(-2, 8, z); m.add_triangle(a, b, d); m.add_triangle(b, a, d); r.draw_mesh(m); break; } } };
		std::function<void(std::vector<int>&)> rec = [&](std::vector<int>& s) {
			if (!s.empty()) c.test([&] { S o; o << "camera " << k << " primitives"; for (int i : s) o << " " << i << "@" << Z[i]; return o.str(); }, [&] {
				static std::map<std::pair<size_t, int>, std::vector<int>> alone; Scene sc(W, H, cam, BG);
				for (int i : s) { auto& a = alone[{ k,i }]; if (a.empty()) { Scene o(W, H, cam, BG); draw(o.r, i); a = o.buf; } draw(sc.r, i); c.step(); }
				for (int x = 0; x < W * H; x++) { int want = BG; double best = 1e9; for (int i : s) if (alone[{ k,i }][x] != BG && Z[i] < best) { best = Z[i]; want = alone[{ k,i }][x]; } if (sc.buf[x] != want) { c.fail("mixed", S() << "pixel (" << x % W << "," << x / W << ") shows " << sc.buf[x] << ", the nearest primitive there " << want); return; } }
				c.obs(sc.hash());
			});
			if ((int)s.size() == c.bound(4, 5)) return;
			for (int i = 0; i < NP; i++) { if (std::find(s.begin(), s.end(), i) != s.end()) continue; s.push_back(i); rec(s); s.pop_back(); }
		};
		std::vector<int> s; rec(s);
	}
	c.section("depth ladder", "two or three screen-filling triangles at distances of every power of two, apart by every ratio from 2 to 1+2^-16, in every order");
	for (int e = c.bound(-10, -20); e <= c.bound(20, 30); e += c.bound(2, 1)) for (int k = 0; k <= 16; k++) for (int o = 0; o < 6; o++) c.test([&] { return (S() << "distance 2^" << e << " ratio 1+2^-" << k << " order " << o).str(); }, [&] {
		double d = std::ldexp(1., e), q = 1 + std::ldexp(1., -k); Scene sc(20, 16, cams[0], BG); auto mk = [&](double z, int col) { T3 t = { world(cams[0],{ -3 * z,-3 * z,z }),world(cams[0],{ 9 * z,-3 * z,z }),world(cams[0],{ -3 * z,9 * z,z }),col }; return t; }; T3 t[3] = { mk(d,0x0000f0),mk(d * q,0x00f000),mk(d * q * q,0xf00000) };
		int p[3] = { 0,1,2 }; for (int i = 0; i < o; i++) std::next_permutation(p, p + 3); for (int i = 0; i < 3; i++) { bool v = sc.draw(t[p[i]], false); c.step(); MC_CHECK(c, v, "visible-false", "a triangle facing the camera is reported not visible"); }
		std::string s = sc.check(); MC_CHECK(c, s == "" && sc.decided > 200, "wrong-pixel-depth", s << " decided " << sc.decided); c.obs(sc.hash());
	});
	c.section("scales", "the whole scene, camera included, at every power of two of size: every pair of triangles of the set");
	for (int e = -20; e <= 20; e += c.bound(4, 1)) for (size_t k = 0; k < cams.size(); k++) for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) if (i != j) c.test([&] { return (S() << "scale 2^" << e << " camera " << k << " triangles " << i << " " << j).str(); }, [&] {
		double f = std::ldexp(1., e); auto L = pool(cams[k]); Cam cm = cams[k]; cm.o = cm.o * f; cm.ahead *= f; Scene sc(40, 30, cm, BG); for (int q : { i,j }) { T3 t = L[q]; t.a = t.a * f; t.b = t.b * f; t.c = t.c * f; bool v = sc.draw(t, false); c.step(); MC_CHECK(c, v, "visible-false", "triangle " << q << " is reported not visible"); } std::string s = sc.check(); MC_CHECK(c, s == "", "wrong-pixel-scale", s); c.obs(sc.hash());
	});
	c.section("large screens", "sizes beside powers of two, long, wide and large: ordered pairs of triangles");
	std::vector<std::array<int, 2>> LS = { {{257,40}},{{40,257}},{{320,200}},{{255,129}},{{512,20}},{{20,512}},{{1025,8}},{{8,1025}} }; if (c.thorough()) { LS.push_back({ {640,480} }); LS.push_back({ {4097,6} }); LS.push_back({ {6,4097} }); }
	for (auto& z : LS) for (size_t k = 0; k < cams.size(); k += 2) for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j += c.bound(3, 1)) if (i != j) c.test([&] { return (S() << "screen " << z[0] << "x" << z[1] << " camera " << k << " triangles " << i << " " << j).str(); }, [&] {
		auto L = pool(cams[k]); Cam cm = cams[k]; cm.zoom = std::max(z[0] / 2., z[1] / 1.5); Scene sc(z[0], z[1], cm, BG); for (int q : { i,j }) { Drawn d = project(cm, z[0], z[1], L[q]); bool on = false; for (int n = 0; n < 3; n++) on |= d.x[n] > 4 && d.y[n] > 4 && d.x[n] < z[0] - 4 && d.y[n] < z[1] - 4; bool v = sc.draw(L[q], false); c.step(); MC_CHECK(c, v || !on, "visible-false", "triangle " << q << " is reported not visible"); } std::string s = sc.check(); MC_CHECK(c, s == "", "wrong-pixel-large", s); c.obs(sc.hash());
	});
	c.section("many tiles", "numbers of disjoint triangles of a ladder, drawn as one mesh (every third removed, or none) and one by one, seen by several cameras: every one shows, nothing else does");
	for (int n : ladder(1, c.bound(1030, 4100))) for (int o = 0; o < 3; o++) for (size_t k = 0; k < cams.size(); k += 2) c.test([&] { return (S() << n << " tiles " << (o == 0 ? "one by one" : o == 1 ? "as a mesh" : "as a mesh, every third removed") << " camera " << k).str(); }, [&] {
		int side = (int)std::ceil(std::sqrt((double)n)); Cam cm = cams[k]; int W = 12 * side, H = 12 * ((n + side - 1) / side); cm.zoom = std::max(cm.zoom, W * 1.); std::vector<int> buf((size_t)W * H, -7); Renderer r(buf.data(), W, H); r.set_background(BG); r.clear(); r.set_camera(cm.o.x, cm.o.y, cm.o.z, cm.ahead, cm.yaw, cm.pitch, cm.roll, cm.zoom); r.add_ambient_light(0xffffff, 256. / 255.);
		std::vector<T3> t; Mesh m; m.set_color(0x40c080); for (int i = 0; i < n; i++) { double z = 3 + i % 7, x0 = i % side * 12 - W / 2, y0 = i / side * 12 - H / 2; auto at = [&](double x, double y) { return world(cm, { (x0 + x) / cm.zoom * z,(y0 + y) / cm.zoom * z,z }); }; T3 q = { at(1,1),at(11.25,1.5),at(5.5,11),o ? 0x40c080 : 0x400000 + i * 77 % 256 * 256 + i % 256 }; t.push_back(q); m.add_triangle(P(q.a), P(q.b), P(q.c)); if (o == 2 && i % 3 == 1) m.unlink_triangle(i); }
		if (o) { r.draw_mesh(m); c.step(); } else for (int i = 0; i < n; i++) { bool v = r.draw_triangle_1color(P(t[i].a), P(t[i].b), P(t[i].c), t[i].color, false); c.step(); MC_CHECK(c, v, "visible-false", "tile " << i << " is reported not visible"); if (c.failed_current()) return; }
		int dec = 0, on = 0; for (int i = 0; i < n; i++) { Drawn d = project(cm, W, H, t[i]); bool live = !(o == 2 && i % 3 == 1); for (int y = i / side * 12; y < i / side * 12 + 12; y++) for (int x = i % side * 12; x < i % side * 12 + 12; x++) { int cv = cover(d, x, y), got = buf[x + y * W]; if (cv < 0) { if (got != BG && !(live && near_color(got, d.color))) { c.fail("wrong-pixel-tiles", S() << "pixel (" << x << "," << y << ") of tile " << i << " shows " << got); return; } continue; } dec++; on += cv && live; if (cv && live ? !near_color(got, d.color) : got != BG) { c.fail("wrong-pixel-tiles", S() << "pixel (" << x << "," << y << ") of tile " << i << " shows " << got << ", expected " << (cv && live ? d.color : BG)); return; } } }
		MC_CHECK(c, on >= (o == 2 ? (n + 1) / 2 : n), "tiles-undecided", on << " pixels decided to be covered"); c.obs(dec); c.obs(on);
	});
	c.section("many triangles", "numbers of triangles of a ladder, each its own colour and depth, drawn near to far, far to near and mixed, as triangles and as one mesh");
	for (int n : ladder(1, c.bound(128, 512))) for (int o = 0; o < 4; o++) c.test([&] { return (S() << n << " triangles order " << o).str(); }, [&] {
		Scene sc(48, 40, { {0,0,0},0,0,0,0,24 }, BG); std::vector<T3> t; for (int i = 0; i < n; i++) { double z = 2 + 30. * i / n, x = ((i * 7) % 11 - 5) * 0.13 * z, y = ((i * 5) % 9 - 4) * 0.13 * z, s = 0.35 * z; t.push_back({ world(sc.cam,{ x - s,y - s,z }),world(sc.cam,{ x + s,y - s,z }),world(sc.cam,{ x,y + s,z }),(i * 2 + 1) * 0x10000 / (2 * n) * 0x80 + i * 37 % 256 * 256 + i % 256 }); }
		if (o == 3) { Mesh m; m.set_color(0x123456); for (auto& q : t) m.add_triangle(P(q.a), P(q.b), P(q.c)); for (int i = 0; i < n; i += 3) m.unlink_triangle(i); sc.r.draw_mesh(m); c.step(); for (int i = 0; i < n; i++) if (i % 3) { t[i].color = 0x123456; sc.model.push_back(project(sc.cam, sc.W, sc.H, t[i])); } }
		else for (int i = 0; i < n; i++) { int q = o == 0 ? i : o == 1 ? n - 1 - i : (int)((long long)i * 7919 % n); if (o == 2 && n % 7919 == 0) q = i; t[q].color &= 0xffffff; bool v = sc.draw(t[q], false); c.step(); MC_CHECK(c, v, "visible-false", "triangle " << q << " is reported not visible"); }
		std::string s = sc.check(); MC_CHECK(c, s == "", "wrong-pixel-many", s); c.obs(sc.hash());
	});
}
