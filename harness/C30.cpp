// C30: projection against an independent pinhole camera, lighting against the light equation.
#include "common.hpp"
#include "Renderer.h"
namespace {
const double PI = 3.14159265358979323846;
V euler(V p, double yaw, double pitch, double roll)
{
	double a = yaw * PI / 180, b = pitch * PI / 180, g = roll * PI / 180;
	p = { p.x * std::cos(a) + p.z * std::sin(a),p.y,p.z * std::cos(a) - p.x * std::sin(a) };
	p = { p.x,p.z * std::sin(b) - p.y * std::cos(b),p.z * std::cos(b) + p.y * std::sin(b) };
	return { p.x * std::cos(g) + p.y * std::sin(g),p.y * std::cos(g) - p.x * std::sin(g),p.z };
}
struct Cam { V o; double ahead, yaw, pitch, roll, zoom; int w, h; };
V local(const Cam& c, const V& p) { V l = euler(p - c.o, c.yaw, c.pitch, c.roll); l.z += c.ahead; return l; }
V world(const Cam& c, V l)
{
	l.z -= c.ahead; V ex = euler({ 1,0,0 }, c.yaw, c.pitch, c.roll), ey = euler({ 0,1,0 }, c.yaw, c.pitch, c.roll), ez = euler({ 0,0,1 }, c.yaw, c.pitch, c.roll);
	return c.o + V{ dot(l,ex),dot(l,ey),dot(l,ez) };
}
std::string cs(const Cam& c) { return S() << "camera " << str(c.o) << " ahead " << c.ahead << " angles " << c.yaw << "," << c.pitch << "," << c.roll << " zoom " << c.zoom << " screen " << c.w << "x" << c.h; }
void setup(RendererCamera& r, const Cam& c, int order)
{
	for (int i = 0; i < 3; i++) switch ((order + i * (order < 3 ? 1 : 2)) % 3) {
	case 0: r.set_origin(c.o.x, c.o.y, c.o.z, c.ahead); break; case 1: r.set_angles(c.yaw, c.pitch, c.roll); break; case 2: r.set_screen(c.w, c.h, c.zoom); break;
	}
}
bool pix(int X, double v) { return v >= 0 ? std::fabs(X - v) <= 0.5 + 1e-6 : std::fabs(X - v) <= 1.5 + 1e-6; }
}
void run(mc::Ctx& c)
{
	std::vector<Cam> cams;
	for (double y : { 0.,30.,90.,-150. }) for (double p : { 0.,45.,-90.,170. }) for (double r : { 0.,-60.,180. }) for (double ah : { 0.,6.,-2. }) for (int s = 0; s < 3; s++) {
		if (!c.thorough() && s && ah != 6) continue;
		cams.push_back({ s == 1 ? V{2,-3,5} : s == 2 ? V{-100,50,0.25} : V{},ah,y,p,r,s == 0 ? 20. : s == 1 ? 100. : 7.5,s == 0 ? 64 : s == 1 ? 31 : 200,s == 0 ? 48 : s == 1 ? 33 : 10 });
	}
	std::vector<V> loc; for (double z : { 0.5,1.,3.,8.,1000.,-1.,-7. }) for (int x = -3; x <= 3; x++) for (int y = -3; y <= 3; y++) loc.push_back({ x * 0.21 * std::fabs(z),y * 0.17 * std::fabs(z),z });
	c.section("projection", "every camera of a grid of positions, angles, zooms and screens, configured in every order, times a lattice of points in front and behind");
	for (auto& k : cams) for (int order = 0; order < 6; order++)
		c.test([&] { return (S() << cs(k) << " setter order " << order).str(); }, [&] {
			RendererCamera r; if (order & 1) { Cam o = cams[(&k - &cams[0] + 17) % cams.size()]; setup(r, o, 0); } setup(r, k, order);
			for (auto& l : loc) {
				V p = world(k, l); Point3 g = r.local_ref(P(p)); c.step();
				MC_CHECK(c, len(v(g) - l) < 1e-9 * (1 + len(l) + len(k.o)), "local", "point " << str(p) << " has camera coordinates " << str(g) << ", expected " << str(l));
				int X = -7, Y = -7; double W = -7; r.project(P(p), X, Y, W); c.step(); c.obs(X); c.obs(Y);
				double ex = l.x * k.zoom / l.z + k.w / 2, ey = l.y * k.zoom / l.z + k.h / 2;
				MC_CHECK(c, pix(X, ex) && pix(Y, ey), "projection", "camera coordinates " << str(l) << " project to (" << X << "," << Y << "), expected (" << ex << "," << ey << ")");
				MC_CHECK(c, near(W, 1 / l.z, 1e-9), "inverse-depth", "depth value " << W << ", expected " << 1 / l.z);
				if (l.x == 0 && l.y == 0 && l.z > 0) MC_CHECK(c, X == k.w / 2 && Y == k.h / 2, "centre", "straight ahead projects to (" << X << "," << Y << ")");
			}
		});
	c.section("rigid motion", "camera and geometry moved together, every camera times lattice displacements: the picture does not change");
	for (auto& k : cams) for (V d : std::vector<V>{ {8,0,0},{0,-16,0},{0,0,4},{-2,2,32},{1024,512,-256} })
		c.test([&] { return (S() << cs(k) << " moved by " << str(d)).str(); }, [&] {
			RendererCamera a, b; Cam m = k; m.o = k.o + d; setup(a, k, 0); setup(b, m, 0);
			for (auto& l : loc) {
				V p = world(k, l); p = { std::floor(p.x * 64) / 64,std::floor(p.y * 64) / 64,std::floor(p.z * 64) / 64 }; V q = p + d;
				if (std::fabs(local(k, p).z) < 0.05) continue;
				int X, Y, X2, Y2; double W, W2; a.project(P(p), X, Y, W); b.project(P(q), X2, Y2, W2); c.step(2);
				MC_CHECK(c, std::abs(X - X2) <= 1 && std::abs(Y - Y2) <= 1 && near(W, W2), "moved-together", "point " << str(p) << " projects to (" << X << "," << Y << ") and (" << X2 << "," << Y2 << ") after moving everything by " << str(d)); c.obs(X); c.obs(Y);
			}
		});
	c.section("renderer camera", "every camera through Renderer::set_camera: a drawn point lights the predicted pixel");
	for (auto& k : cams) c.test([&] { return cs(k); }, [&] {
		std::vector<int> buf((size_t)k.w * k.h); Renderer r(buf.data(), k.w, k.h); r.set_background(5); r.set_camera(k.o.x, k.o.y, k.o.z, k.ahead, k.yaw, k.pitch, k.roll, k.zoom);
		for (auto& l : loc) {
			if (l.z <= 0) continue; r.clear(); r.draw_pixel(P(world(k, l)), 99); c.step();
			double ex = l.x * k.zoom / l.z + k.w / 2, ey = l.y * k.zoom / l.z + k.h / 2; int n = 0, X = -1, Y = -1; for (int i = 0; i < k.w * k.h; i++) if (buf[i] != 5) { n++; X = i % k.w; Y = i / k.w; }
			bool in = ex >= 0 && ey >= 0 && ex < k.w - 0.5 - 1e-6 && ey < k.h - 0.5 - 1e-6, out = ex < -1.5 || ey < -1.5 || ex > k.w || ey > k.h;
			MC_CHECK(c, !in || (n == 1 && pix(X, ex) && pix(Y, ey)), "drawn-point", "camera coordinates " << str(l) << " light " << n << " pixels, last (" << X << "," << Y << "), expected (" << ex << "," << ey << ")");
			MC_CHECK(c, !out || n == 0, "drawn-point-outside", "camera coordinates " << str(l) << " outside the screen light a pixel"); c.obs(n); c.obs(X + 1000 * Y);
		}
	});
	c.section("camera changes", "every sequence of three changes of one camera parameter (or none) on one renderer and one camera object: the picture is that of the last camera");
	for (size_t k0 = 0; k0 < cams.size(); k0 += c.bound(23, 5)) sequences(9, c.bound(3, 4), [&](const std::vector<int>& q) { c.test([&] { S o; o << cs(cams[k0]) << " changes"; for (int x : q) o << " " << x; return o.str(); }, [&] {
		Cam k = cams[k0]; std::vector<int> buf((size_t)k.w * k.h); Renderer r(buf.data(), k.w, k.h); RendererCamera rc; r.set_background(5); setup(rc, k, 0); r.set_camera(k.o.x, k.o.y, k.o.z, k.ahead, k.yaw, k.pitch, k.roll, k.zoom);
		for (int x : q) {
			Cam old = k; switch (x) { case 0: k.o.x += 1; break; case 1: k.o.y -= 2; break; case 2: k.o.z += 0.5; break; case 3: k.ahead += 3; break; case 4: k.yaw += 25; break; case 5: k.pitch -= 35; break; case 6: k.roll += 45; break; case 7: k.zoom *= 1.5; break; }
			r.set_camera(k.o.x, k.o.y, k.o.z, k.ahead, k.yaw, k.pitch, k.roll, k.zoom); if (x < 4) rc.set_origin(k.o.x, k.o.y, k.o.z, k.ahead); else if (x < 7) rc.set_angles(k.yaw, k.pitch, k.roll); else if (x == 7) rc.set_screen(k.w, k.h, k.zoom); (void)old;
			for (V l : { V{ 0,0,4 },V{ 0.11,-0.09,2 },V{ -0.3,0.2,5 } }) {
				V p = world(k, l); double ex = l.x * k.zoom / l.z + k.w / 2, ey = l.y * k.zoom / l.z + k.h / 2; int X = -7, Y = -7; double W = -7; rc.project(P(p), X, Y, W); c.step();
				MC_CHECK(c, pix(X, ex) && pix(Y, ey) && near(W, 1 / l.z, 1e-9), "camera-changed", "after change " << x << " camera coordinates " << str(l) << " project to (" << X << "," << Y << "), expected (" << ex << "," << ey << ")");
				if (ex < 1 || ey < 1 || ex > k.w - 2 || ey > k.h - 2) continue; r.clear(); r.draw_pixel(P(p), 99); c.step(); int n = 0; X = Y = -1; for (int i = 0; i < k.w * k.h; i++) if (buf[i] != 5) { n++; X = i % k.w; Y = i / k.w; }
				MC_CHECK(c, n == 1 && pix(X, ex) && pix(Y, ey), "renderer-camera-changed", "after change " << x << " camera coordinates " << str(l) << " light " << n << " pixels, last (" << X << "," << Y << "), expected (" << ex << "," << ey << ")"); c.obs(X); c.obs(Y);
			}
		}
	}); });
	// lights
	struct L { bool amb; int col; double f; V dir; };
	std::vector<L> LT = { {true,0xffffff,1,{}},{true,0x204060,0.5,{}},{true,0x808080,2,{}},{false,0xffffff,1,{0,0,-1}},{false,0xff8000,0.75,{0.6,0,-0.8}},{false,0x00ffff,1.5,{0,1,0}},{false,0x604020,1,{-0.48,0.64,0.6}},{true,0x0000ff,1,{}},{true,0xffffff,0,{}} };
	std::vector<int> MC = { 0xffffff,0x000000,0x804020,0x0180ff,0xff0000,0x12ab7f };
	// triangles ahead of the default camera; normals of several directions (unit by construction: rational)
	struct TR { V a, b, c; }; std::vector<TR> TT = { { {-9,-9,10},{9,-9,10},{0,18,10} },{ {-9,-9,13},{9,-9,7},{0,15,10} },{ {-9,-6,16},{9,-6,16},{0,12,6} },{ {-5,-9,9},{12,-9,20},{0,18,10} } };
	auto light = [&](const std::vector<L>& ls, int material, const V& n, double out[3]) {
		for (int ch = 0; ch < 3; ch++) { int s = 16 - 8 * ch; double t = 0; for (auto& l : ls) { double k = l.f * ((l.col >> s) & 255) / 256.; if (!l.amb) k *= std::max(0., dot(n, l.dir)); t += k; } out[ch] = std::min(255., ((material >> s) & 255) * t); }
	};
	c.section("light objects", "every light applied to every colour and normal multiplies each channel by its light");
	std::vector<V> N; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) { V n = { (double)x,(double)y,(double)z }; N.push_back(n * (1 / len(n))); }
	for (auto& l : LT) for (int m : MC) c.test([&] { return (S() << (l.amb ? "ambient " : "diffuse ") << l.col << " factor " << l.f << " direction " << str(l.dir) << " material " << m).str(); }, [&] {
		for (auto& n : N) {
			double r = ((m >> 16) & 255) / 256., g = ((m >> 8) & 255) / 256., b = (m & 255) / 256.; double o[3]; light({ l }, m, n, o);
			if (l.amb) { RendererLightAmbiant a(l.col, l.f); a.apply(r, g, b, P(n)); } else { RendererLightDiffuse a(l.col, l.f, P(l.dir)); a.apply(r, g, b, P(n)); } c.step();
			MC_CHECK(c, std::fabs(std::min(255., r * 256) - o[0]) < 1e-6 && std::fabs(std::min(255., g * 256) - o[1]) < 1e-6 && std::fabs(std::min(255., b * 256) - o[2]) < 1e-6, "light", "normal " << str(n) << " gives " << r * 256 << "," << g * 256 << "," << b * 256 << ", expected " << o[0] << "," << o[1] << "," << o[2]);
			MC_CHECK(c, r >= 0 && g >= 0 && b >= 0, "light-negative", "negative light"); c.obs(r); c.obs(g); c.obs(b);
		}
	});
	c.section("lit triangles", "every list of up to three lights times materials times triangle orientations: the colour on the screen");
	int nl = (int)LT.size();
	for (int a = -1; a < nl; a++) for (int b = -1; b < nl; b++) for (int d = -1; d < nl; d++) {
		if ((a < 0 && (b >= 0 || d >= 0)) || (b < 0 && d >= 0)) continue;
		c.test([&] { return (S() << "lights " << a << " " << b << " " << d).str(); }, [&] {
			std::vector<int> buf(33 * 33); Renderer r(buf.data(), 33, 33); r.set_camera(0, 0, 0, 0, 0, 0, 0, 20); r.set_background(-3); std::vector<L> ls; for (int i : { a,b,d }) if (i >= 0) ls.push_back(LT[i]);
			for (auto& l : ls) if (l.amb) r.add_ambient_light(l.col, l.f); else r.add_diffuse_light(l.col, l.f, P(l.dir));
			for (int m : MC) for (size_t t = 0; t < TT.size(); t++) for (int flip = 0; flip < 2; flip++) for (int how = 0; how < 3; how++) {
				// camera coordinates have y down: world y = -y
				V A = TT[t].a, B = TT[t].b, C = TT[t].c; A.y = -A.y; B.y = -B.y; C.y = -C.y; if (flip) std::swap(B, C);
				V n = cross(B - A, C - A); n = n * (1 / len(n)); bool faces = dot(n, A) < 0; r.clear();
				if (how == 0) r.draw_triangle_1color(P(A), P(B), P(C), m, true);
				else { if (!faces) continue; Mesh me; me.set_color(how == 1 ? m : 0x55aa55); me.add_vertex(P(A)); me.add_vertex(P(B)); me.add_vertex(P(C)); me.add_triangle(0, 1, 2); if (how == 1) r.draw_mesh(me); else r.draw_mesh(me, false, m); }
				c.step(); int px = buf[16 + 16 * 33]; double o[3]; light(ls, m, n, o); c.obs(px);
				for (int ch = 0; ch < 3; ch++) { int g = (px >> (16 - 8 * ch)) & 255; MC_CHECK(c, px != -3 && std::fabs(g - o[ch]) <= 1.0, "lit-colour", "material " << m << " normal " << str(n) << (how == 0 ? " triangle" : how == 1 ? " mesh of that colour" : " mesh, requested colour") << ": channel " << ch << " of the pixel " << px << " is " << g << ", expected " << o[ch]); }
				MC_CHECK(c, (px >> 24) == 0, "colour-range", "pixel value " << px << " out of range");
			}
		});
	}
	c.section("fresh cameras", "a new camera built over memory of several contents, none or one of its settings made: at the origin, looking straight ahead");
	for (int f : MEMORY) for (int k = 0; k < 4; k++) c.test([&] { return (S() << "memory " << f << " setting " << k).str(); }, [&] {
		Over<RendererCamera> r(f); Cam m = { V{},0,0,0,0,0,0,0 }; if (k == 1) { m.o = { 1,-2,3 }; m.ahead = 2; r->set_origin(1, -2, 3, 2); } if (k == 2) { m.yaw = 30; m.pitch = -45; m.roll = 60; r->set_angles(30, -45, 60); } if (k == 3) { m.w = 64; m.h = 31; m.zoom = 20; r->set_screen(64, 31, 20); }
		for (auto& l : loc) { V p = world(m, l); Point3 g = r->local_ref(P(p)); c.step(); MC_CHECK(c, len(v(g) - l) < 1e-9 * (1 + len(l)), "fresh-local", "point " << str(p) << " has camera coordinates " << str(g) << ", expected " << str(l)); int X = -7, Y = -7; double W = -7; r->project(P(p), X, Y, W); double ex = l.x * m.zoom / l.z + m.w / 2, ey = l.y * m.zoom / l.z + m.h / 2; MC_CHECK(c, pix(X, ex) && pix(Y, ey) && near(W, 1 / l.z, 1e-9), "fresh-projection", "camera coordinates " << str(l) << " project to (" << X << "," << Y << "), expected (" << ex << "," << ey << ")"); c.obs(X); c.obs(Y); }
	});
	c.section("projection magnitudes", "distances in front and behind, zooms and offsets of every power of two, screens up to 4096 wide");
	for (int e = -20; e <= 20; e++) for (int z = -4; z <= 16; z += 2) for (int s = 0; s < 6; s++) c.test([&] { return (S() << "distance 2^" << e << " zoom 2^" << z << " screen " << s).str(); }, [&] {
		static const int SW[6] = { 1,640,1921,4096,2,257 }, SH[6] = { 1,480,1080,3,999,256 }; double f = std::ldexp(1., e), zo = std::ldexp(1.25, z); Cam k = { V{ 1,-2,0.5 } *f,f * (s % 3 - 1),s * 40. - 80,s * 25. - 60,s * 70.,zo,SW[s],SH[s] }; RendererCamera r; setup(r, k, s);
		for (int sg = 1; sg >= -1; sg -= 2) for (int x = -4; x <= 4; x++) for (int y = -4; y <= 4; y++) { double lz = sg * f * (x + y & 1 ? 1 : 1.75); V l = { x * 0.25 * k.w / zo * lz,y * 0.25 * k.h / zo * lz,lz }, p = world(k, l); int X = -7, Y = -7; double W = -7; r.project(P(p), X, Y, W); c.step(); double ex = l.x * zo / lz + k.w / 2, ey = l.y * zo / lz + k.h / 2, tol = 1e-11 * (k.w + k.h + zo) * 8 * (1 + 4 * len(k.o) / f); (void)tol;
			auto pixt = [&](int g, double v) { return v >= 0 ? std::fabs(g - v) <= 0.5 + 1e-5 + tol : std::fabs(g - v) <= 1.5 + 1e-5 + tol; }; MC_CHECK(c, pixt(X, ex) && pixt(Y, ey), "projection", "camera coordinates " << str(l) << " project to (" << X << "," << Y << "), expected (" << ex << "," << ey << ")"); MC_CHECK(c, std::fabs(W * lz - 1) < 1e-8 * (1 + len(l) / std::fabs(lz)), "inverse-depth", "depth value " << W << ", expected " << 1 / lz); c.obs(X); c.obs(Y); }
	});
	// one triangle facing the default camera, lit by ls: the colour in the middle of the screen
	auto shot = [&](const std::vector<L>& ls, int m, const V& A, const V& B, const V& C) { std::vector<int> buf(9 * 9); Renderer r(buf.data(), 9, 9); r.set_camera(0, 0, 0, 0, 0, 0, 0, 20); r.set_background(-3); r.clear(); for (auto& l : ls) if (l.amb) r.add_ambient_light(l.col, l.f); else r.add_diffuse_light(l.col, l.f, P(l.dir)); r.draw_triangle_1color(P(A), P(B), P(C), m, true); return buf[4 + 4 * 9]; };
	auto expect = [&](const std::vector<L>& ls, int m, const V& n, int px, const std::string& w) { double o[3]; light(ls, m, n, o); c.step(); c.obs(px); for (int ch = 0; ch < 3; ch++) { int g = (px >> (16 - 8 * ch)) & 255; if (px == -3 || std::fabs(g - o[ch]) > 1.0 || px >> 24) { c.fail("lit-" + w, S() << "material " << m << " normal " << str(n) << ": channel " << ch << " of the pixel " << px << " is " << g << ", expected " << o[ch]); return; } } };
	V TA = { -9,-9,10 }, TB = { 9,-9,10 }, TC = { 0,18,10 }, TN = cross(TB - TA, TC - TA); TN = TN * (1 / len(TN));
	c.section("channel values", "every value of every channel of material and of light, for ambient and diffuse light");
	for (int val = 0; val < 256; val++) for (int ch = 0; ch < 3; ch++) c.test([&] { return (S() << "value " << val << " channel " << ch).str(); }, [&] {
		int x = val << (8 * ch), rest = 0x402010; for (int other = 0; other < 2; other++) for (int amb = 0; amb < 2; amb++) for (double f : { 1.,0.5,1.7 }) { int col = other ? (x | (rest & ~(255 << 8 * ch))) : x; std::vector<L> a = { { amb == 1,0xffffff,f,TN } }, b = { { amb == 1,col,f,TN } }; expect(a, col, TN, shot(a, col, TA, TB, TC), "material"); expect(b, 0xffffff, TN, shot(b, 0xffffff, TA, TB, TC), "light"); expect(b, 0x7f7f7f, TN, shot(b, 0x7f7f7f, TA, TB, TC), "light"); }
	});
	c.section("darkening lights", "ambient lights of positive and negative factors in every order: the channel is the clamped sum");
	for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) for (int k = 0; k < 7; k++) c.test([&] { return (S() << "lights " << i << " " << j << " " << k).str(); }, [&] {
		static const double F[7] = { 1,-0.5,0.25,-0.125,0,2,-3 }; static const int CO[7] = { 0xffffff,0xffffff,0x80ff40,0x4080ff,0xffffff,0x808080,0x202020 }; std::vector<L> q = { { true,CO[i],F[i],{} },{ true,CO[j],F[j],{} },{ true,CO[k],F[k],{} } };
		for (int m : { 0xffffff,0x804020,0x0180ff }) { double o[3]; for (int ch = 0; ch < 3; ch++) { int s = 16 - 8 * ch; double t = 0; for (auto& l : q) t += l.f * ((l.col >> s) & 255) / 256.; o[ch] = std::max(0., std::min(255., ((m >> s) & 255) * t)); } int px = shot(q, m, TA, TB, TC); c.step(); c.obs(px);
			for (int ch = 0; ch < 3; ch++) { int g = (px >> (16 - 8 * ch)) & 255; MC_CHECK(c, px != -3 && std::fabs(g - o[ch]) <= 1 && px >> 24 == 0, "darkening", "material " << m << ": channel " << ch << " of the pixel " << px << " is " << g << ", expected " << o[ch]); } }
	});
	c.section("many lights", "numbers of lights of a ladder, ambient, diffuse and alternating, equal and one stronger");
	for (int n : ladder(0, c.bound(256, 2048))) for (int kind = 0; kind < 3; kind++) for (int strong = -1; strong < 3; strong++) c.test([&] { return (S() << n << " lights kind " << kind << " stronger " << strong).str(); }, [&] {
		std::vector<L> ls; for (int i = 0; i < n; i++) ls.push_back({ kind == 0 || (kind == 2 && i % 2), i % 3 ? 0xffffff : 0x80ff40,1. / n,i % 5 ? TN : V{ 0.6,0,0.8 } }); if (n && strong >= 0) ls[strong == 0 ? 0 : strong == 1 ? n - 1 : n / 2].f += 0.4; expect(ls, 0x80c0a0, TN, shot(ls, 0x80c0a0, TA, TB, TC), "many");
	});
	c.section("light magnitudes", "triangles of every power of two of size, factors and materials: the colour depends on the normal only");
	for (int e = -40; e <= 40; e += c.bound(2, 1)) for (size_t t = 0; t < TT.size(); t++) for (int flip = 0; flip < 2; flip++) c.test([&] { return (S() << "triangle " << t << " size 2^" << e << " flip " << flip).str(); }, [&] {
		double s = std::ldexp(1., e); V A = TT[t].a * s, B = TT[t].b * s, C = TT[t].c * s; if (flip) std::swap(B, C); V n = cross((B - A) * (1 / s), (C - A) * (1 / s)); n = n * (1 / len(n)); for (auto& l : LT) for (double f : { 1.,std::ldexp(1., e),std::ldexp(1., -std::abs(e)) }) { L q = l; q.f = f; expect({ q }, 0x6080c0, n, shot({ q }, 0x6080c0, A, B, C), "magnitude"); }
	});
	c.section("cosines", "diffuse light from every direction of a circle and a lattice, every degree: proportional to the cosine and never negative");
	for (int a = -180; a < 180; a++) for (int b = -1; b <= 1; b++) c.test([&] { return (S() << "angle " << a << " elevation " << b).str(); }, [&] {
		double x = a * PI / 180, y = b * 0.5; V d = { std::sin(x) * std::cos(y),std::sin(y),std::cos(x) * std::cos(y) }; for (size_t t = 0; t < TT.size(); t++) { V A = TT[t].a, B = TT[t].b, C = TT[t].c, n = cross(B - A, C - A); n = n * (1 / len(n)); for (double f : { 1.,3. }) { std::vector<L> q = { { false,0xf0c090,f,d },{ true,0x101010,1,{} } }; expect(q, 0x6080c0, n, shot(q, 0x6080c0, A, B, C), "cosine"); } }
	});
}
