// C28: rendering stays inside the caller's frame buffer, without undefined arithmetic, and ends promptly.
#include "common.hpp"
#include "Renderer.h"
#include <ctime>
namespace {
double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Cam { double o[3], ahead, yaw, pitch, roll, zoom; };
std::vector<Cam> CAM = {
	{{0,0,0},0,0,0,0,8}, {{0,0,-4},0,0,0,0,8}, {{0,0,0},5,0,0,0,40}, {{0,0,0},5,90,0,0,40}, {{1,1,1},2,37,-20,110,1000},
	{{0,0,0},0,0,90,0,1e-9}, {{0,0,0},-3,0,0,180,25}, {{0,0,0},1e9,0,0,0,1e12}, {{1e9,-1e9,1e9},0,45,45,45,1e9}, {{0,0,0},5,0,0,0,0} };

std::vector<std::array<int, 2>> SZ = { { {1,1} },{ {1,9} },{ {9,1} },{ {7,5} },{ {33,20} },{ {2,64} },{ {16,16} } };

const int CANARY = 0x5a17c0de, BG = 0x112233, G = 512;
struct Screen
{
	int w, h; std::vector<int> b; Renderer r;
	Screen(int W, int H, const Cam& c) : w(W), h(H), b(2 * G + (size_t)W * H, CANARY), r(b.data() + G, W, H)
	{
		r.set_background(BG); r.set_camera(c.o[0], c.o[1], c.o[2], c.ahead, c.yaw, c.pitch, c.roll, c.zoom); r.clear();
	}
	bool guard() const { for (int i = 0; i < G; i++) if (b[i] != CANARY || b[b.size() - 1 - i] != CANARY) return false; return true; }
	uint64_t hash() const { uint64_t x = w * 131 + h; for (size_t i = G; i < b.size() - G; i++) x = mc::mix(x, (uint64_t)(uint32_t)b[i]); return x; }
	bool only(const std::set<int>& ok) const { for (size_t i = G; i < b.size() - G; i++) if (b[i] != BG && !ok.count(b[i])) return false; return true; }
};
std::string cam(int i) { auto& c = CAM[i]; return S() << "camera origin " << c.o[0] << "," << c.o[1] << "," << c.o[2] << " ahead " << c.ahead << " angles " << c.yaw << "," << c.pitch << "," << c.roll << " zoom " << c.zoom; }
template<class F> void timed(mc::Ctx& c, const char* what, F f) { double t = cpu(); f(); t = cpu() - t; c.step(); MC_CHECK(c, t < 1., S() << "slow-" << what, what << " took more than one second of processor time"); }
void verdict(mc::Ctx& c, Screen& s, const std::set<int>& colors, const char* what)
{
	MC_CHECK(c, s.guard(), S() << "outside-buffer-" << what, what << " wrote outside the " << s.w << "x" << s.h << " buffer");
	MC_CHECK(c, s.only(colors), S() << "foreign-colour-" << what, what << " wrote a value which is neither the background nor a drawn colour");
	c.obs(s.hash());
}
}
void run(mc::Ctx& c)
{
	double inf = INFINITY, nan = NAN;
	for (double a : { 0.,45.,180. }) for (double b : { 0.,-60. }) for (double h : { 0.,2.,-1e6 }) for (double f : { 3.,-10.,1e6 }) if (c.thorough() || (a == 45 && f > 0)) CAM.push_back({ {0.5,-1,2},h,a,b,a - b,f });
	if (c.thorough()) for (int w = 1; w <= 4; w++) for (int h = 1; h <= 4; h++) SZ.push_back({ {w,h} });
	int NCAM = (int)CAM.size(), NSZ = (int)SZ.size();
	std::vector<double> CO = { -1e300,-1e30,-1e12,-3e9,-1000,-4,-1,-0.25,-1e-9,0,1e-300,1e-9,0.25,1,4,5,1000,3e9,1e12,1e30,1e300 };
	{ CO.push_back(inf); CO.push_back(-inf); CO.push_back(nan); CO.push_back(-5); CO.push_back(1e-5); CO.push_back(-1e300 * 1e8); CO.push_back(2147483648.); CO.push_back(-268435456.); }
	c.section("points", "every point with coordinates from the boundary values, on every screen size and camera");
	for (int k = 0; k < NCAM; k++) for (int z = 0; z < NSZ; z++) for (double x : CO) for (double y : CO) {
		c.test([&] { return (S() << "screen " << SZ[z][0] << "x" << SZ[z][1] << " " << cam(k) << " points (" << x << "," << y << ", each boundary value)").str(); }, [&] {
			Screen s(SZ[z][0], SZ[z][1], CAM[k]);
			timed(c, "draw_pixel", [&] { for (double w : CO) s.r.draw_pixel(Point3(x, y, w), 77); });
			verdict(c, s, { 77 }, "draw_pixel");
		});
	}
	c.section("projection", "every camera projects every boundary point to some screen position without undefined arithmetic");
	for (int k = 0; k < NCAM; k++) for (double x : CO) for (double y : CO) for (double w : { inf,-inf,nan,-1e300,0.,-4.,4.,-5.,5.,1e-300,1e300 })
		c.test([&] { return (S() << cam(k) << " point " << x << "," << y << "," << w).str(); }, [&] {
			RendererCamera a; auto& C = CAM[k]; a.set_origin(C.o[0], C.o[1], C.o[2], C.ahead); a.set_angles(C.yaw, C.pitch, C.roll); a.set_screen(33, 20, C.zoom);
			int X = 0, Y = 0; double W = 0; a.project(Point3(x, y, w), X, Y, W); c.step(); c.obs(X); c.obs(Y);
		});
	// a set of points in front of, on, behind and far away from the cameras
	std::vector<V> PT = { {0,0,0},{0,0,1},{1,0,2},{-1,1,4},{2,-3,-4},{0,0,-5},{30,0,1},{-1e6,2,3},{3,1e7,-2},{1e9,1e9,1e9},{-1e12,0,0.5},{0,-1e12,1},{1e-9,-1e-9,1e-9},{1e300,1,1},{4,1e300,-1e300},{-0.5,-0.5,1},{0.5,-0.4,1},{0.1,0.6,1} };
	for (V p : std::vector<V>{ {2147483648.,0,1},{-2147483648.,-2147483648.,1},{268435456.,-268435456.,8},{1,1,1e300},{0,0,1e-5},{-1e18,1e18,1e6},{100,100,-100},{-4,4,5} }) PT.push_back(p);
	int NP = (int)PT.size();
	c.section("lines", "every ordered pair of points, on every screen and camera, as line and as polyline");
	for (int k = 0; k < NCAM; k++) for (int z = 0; z < NSZ; z++) for (int a = 0; a < NP; a++) for (int b = 0; b < NP; b++)
		c.test([&] { return (S() << "screen " << SZ[z][0] << "x" << SZ[z][1] << " " << cam(k) << " line " << str(PT[a]) << " - " << str(PT[b])).str(); }, [&] {
			Screen s(SZ[z][0], SZ[z][1], CAM[k]);
			timed(c, "draw_line", [&] { s.r.draw_line(P(PT[a]), P(PT[b]), 77); });
			timed(c, "draw_polyline", [&] { s.r.draw_polyline(std::vector<Point3>{ P(PT[b]), P(PT[a]), P(PT[(a + b) % NP]) }, 78); s.r.draw_polyline({ P(PT[a]) }, 79); s.r.draw_polyline({}, 79); });
			verdict(c, s, { 77,78 }, "draw_line");
		});
	c.section("triangles", "every ordered triple of points, one- and two-sided, on every screen and camera");
	for (int k = 0; k < NCAM; k++) for (int z = 0; z < NSZ; z++) for (int a = 0; a < NP; a++) for (int b = 0; b < NP; b++)
		c.test([&] { return (S() << "screen " << SZ[z][0] << "x" << SZ[z][1] << " " << cam(k) << " triangles " << str(PT[a]) << " " << str(PT[b]) << " and every other point").str(); }, [&] {
			Screen s(SZ[z][0], SZ[z][1], CAM[k]); s.r.add_ambient_light(0xffffff); s.r.add_diffuse_light(0x808080, 0.5, Point3(0.6, 0, -0.8));
			for (int d = 0; d < NP; d++)
				timed(c, "draw_triangle", [&] { s.r.draw_triangle_1color(P(PT[a]), P(PT[b]), P(PT[d]), 0x123456, false); s.r.draw_triangle_1color(P(PT[a]), P(PT[b]), P(PT[d]), 0x123456, true); });
			MC_CHECK(c, s.guard(), "outside-buffer-draw_triangle", "a triangle wrote outside the buffer"); c.obs(s.hash());
			for (size_t i = G; i < s.b.size() - G; i++) MC_CHECK(c, s.b[i] == BG || (s.b[i] >= 0 && s.b[i] <= 0xffffff), "foreign-colour-draw_triangle", "a triangle wrote the value " << s.b[i]);
		});
	c.section("meshes", "meshes of boundary points with edges, removed triangles and extreme lights");
	for (int k = 0; k < NCAM; k++) for (int z = 0; z < NSZ; z++) for (int a = 0; a < NP; a++) for (int l = 0; l < 6; l++)
		c.test([&] { return (S() << "screen " << SZ[z][0] << "x" << SZ[z][1] << " " << cam(k) << " fan of triangles around " << str(PT[a]) << " light set " << l).str(); }, [&] {
			Screen s(SZ[z][0], SZ[z][1], CAM[k]);
			if (l == 1) s.r.add_ambient_light(0xffffff, 1e12);
			if (l == 2) { s.r.add_ambient_light(0xffffff, 3.); s.r.add_diffuse_light(0xffffff, 1e30, Point3(0, 0, -1)); }
			if (l == 3) { s.r.add_ambient_light(0x00ff00, -1.); s.r.add_diffuse_light(0xff00ff, 2., Point3(0, 1, 0)); }
			if (l == 4) { s.r.add_ambient_light(-1, 0.); s.r.add_diffuse_light(0x7fffffff, 1., Point3(0, 0, 0)); }
			if (l == 5) { s.r.add_ambient_light(0x404040, 1e300); s.r.add_diffuse_light(0xffffff, 1., Point3(1e300, 1e300, 1e300)); }
			Mesh m; for (auto& p : PT) m.add_vertex(P(p));
			for (int b = 0; b < NP; b++) { m.add_triangle(a, b, (b + 1) % NP); m.add_triangle(b, a, (b + 3) % NP); if (b % 5 == 4) m.unlink_triangle(b); }
			timed(c, "draw_mesh", [&] { s.r.draw_mesh(m, false); s.r.draw_mesh(m, true, 0x8899aa); s.r.draw_mesh(m, true, 0); Mesh e; s.r.draw_mesh(e, true); s.r.clear(); s.r.draw_mesh(m, true); });
			MC_CHECK(c, s.guard(), "outside-buffer-draw_mesh", "a mesh wrote outside the buffer"); c.obs(s.hash());
			for (size_t i = G; i < s.b.size() - G; i++) MC_CHECK(c, s.b[i] >= 0 && s.b[i] <= 0xffffff, "foreign-colour-draw_mesh", "a mesh wrote the value " << s.b[i]);
		});
	c.section("large screens", "long, wide and large screens of sizes beside powers of two: points, lines, polylines, triangles and meshes of boundary points");
	std::vector<std::array<int, 2>> LS = { {{640,3}},{{3,640}},{{300,200}},{{257,129}},{{1024,2}},{{4097,1}},{{1,4097}},{{255,255}},{{256,257}} }; if (c.thorough()) for (int k = 6; k <= 14; k++) for (int d = -1; d <= 1; d++) { LS.push_back({ {(1 << k) + d,3} }); LS.push_back({ {2,(1 << k) + d} }); }
	for (size_t z = 0; z < LS.size(); z++) for (int k = 0; k < NCAM; k += c.bound(3, 1)) for (int a = 0; a < NP; a++) c.test([&] { return (S() << "screen " << LS[z][0] << "x" << LS[z][1] << " " << cam(k) << " from " << str(PT[a])).str(); }, [&] {
		Cam cm = CAM[k]; Screen s(LS[z][0], LS[z][1], cm);
		s.r.draw_pixel(P(PT[a]), 77); for (int b = 0; b < NP; b++) timed(c, "draw_line", [&] { s.r.draw_line(P(PT[a]), P(PT[b]), 77); s.r.draw_polyline({ P(PT[b]),P(PT[a]),P(PT[(a + b) % NP]) }, 78); }); verdict(c, s, { 77,78 }, "draw_line");
		Screen q(LS[z][0], LS[z][1], cm); for (int b = 0; b < NP; b++) timed(c, "draw_triangle", [&] { q.r.draw_triangle_1color(P(PT[a]), P(PT[b]), P(PT[(b * 5 + a + 1) % NP]), 0x123456, b % 2); }); verdict(c, q, { 0 }, "draw_triangle");
		Mesh m; for (auto& p : PT) m.add_vertex(P(p)); for (int b = 0; b < NP; b++) m.add_triangle(a, b, (b + 1) % NP); timed(c, "draw_mesh", [&] { q.r.draw_mesh(m, true, 0x8899aa); }); verdict(c, q, { 0 }, "draw_mesh");
	});
	c.section("borders", "points, lines and triangles whose corners sit on, just in and just out of each border and corner of the screen, on every small screen");
	for (int w = 1; w <= c.bound(6, 12); w++) for (int h = 1; h <= c.bound(6, 12); h++) {
		std::vector<V> B; for (double x : { -1.,-0.6,-0.4,0.,0.4,0.6,w - 1.4,w - 1.,w - 0.6,w - 0.4,w + 0.,w + 0.4,w + 1. }) for (double y : { -1.,-0.4,0.,0.4,h - 1.,h - 0.6,h - 0.4,h + 0.,h + 1. }) B.push_back({ x,y,0 });
		for (size_t a = 0; a < B.size(); a++) c.test([&] { return (S() << "screen " << w << "x" << h << " from screen position " << B[a].x << "," << B[a].y).str(); }, [&] {
			Cam cm = { {0,0,0},0,0,0,0,16 }; Screen s(w, h, cm), q(w, h, cm); auto at = [&](const V& p, double z) { return Point3((p.x - w / 2) / 16 * z, -(p.y - h / 2) / 16 * z, z); };
			s.r.draw_pixel(at(B[a], 4), 77); for (size_t b = 0; b < B.size(); b++) { s.r.draw_line(at(B[a], 4), at(B[b], 8), 77); q.r.draw_triangle_1color(at(B[a], 4), at(B[b], 4), at(B[(b * 7 + a) % B.size()], 8), 0x123456, true); q.r.draw_triangle_1color(at(B[a], 4), at(B[b], 8), at(B[(b + 1) % B.size()], 16), 0x123456, false); c.step(3); }
			verdict(c, s, { 77 }, "draw_line"); verdict(c, q, { 0 }, "draw_triangle");
		});
	}
}
