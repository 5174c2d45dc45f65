// C31: image cells, resizing, grey conversion, scaling and generators against per-pixel definitions.
#include "common.hpp"
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
namespace {
int count(double cx, double cy, int n) { double x = cx, y = cy; int k = 0; while (x * x + y * y < 4) { double t = x * x - y * y + cx; y = 2 * x * y + cy; x = t; if (k == n) break; k++; } return k; }
// the count does not depend on rounding: the same for points all around
bool stable(double cx, double cy, int n, int k) { for (double e : { 5e-7,2e-6,5e-6 }) for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (count(cx + a * e, cy + b * e, n) != k) return false; return true; }
uint64_t himg(const Image& m) { uint64_t h = mc::mix(mc::mix((uint64_t)m.width(), (uint64_t)m.height()), (uint64_t)m.planes()); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int p = 0; p < m.planes(); p++) h = mc::mix(h, m(x, y, p)); return h; }
}
void run(mc::Ctx& c)
{
	int B = c.bound(10, 16);
	c.section("cells", "every size up to the bound and 1 to 5 planes: every cell written through each accessor and read through all, no other cell changes");
	for (int w = 1; w <= B; w++) for (int h = 1; h <= B; h++) for (int p = 1; p <= 5; p++)
		c.test([&] { return (S() << w << "x" << h << "x" << p).str(); }, [&] {
			Image m(w, h, p), r; r.resize(w, h, p); const Image& cm = m;
			for (const Image* i : { &m,&r }) MC_CHECK(c, i->width() == w && i->height() == h && i->planes() == p && i->size() == w * h * p, "dimensions", "dimensions " << i->width() << "x" << i->height() << "x" << i->planes() << " size " << i->size());
			for (int way = 0; way < 2; way++) {
				std::vector<unsigned char> model((size_t)w * h * p, 0); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) m(x, y, q) = 0;
				int k = 0; std::set<const unsigned char*> addr;
				for (int q = 0; q < p; q++) for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
					unsigned char val = (unsigned char)(1 + (k++ * 7) % 255); size_t id = ((size_t)x * h + y) * p + q; model[id] = val;
					if (way == 0) m(x, y, q) = val; else *m.pixel(x, y, q) = val; c.step();
					addr.insert(cm.pixel(x, y, q)); MC_CHECK(c, cm.pixel(x, y, q) >= m.data() && cm.pixel(x, y, q) < m.data() + w * h * p, "cell-outside", "cell outside of the data");
					if (q) MC_CHECK(c, cm.pixel(x, y, q) == cm.pixel(x, y) + q, "planes-apart", "planes of a pixel are not adjacent");
					if (k % 5 == 0 || k == w * h * p) for (int a = 0; a < w; a++) for (int b = 0; b < h; b++) for (int d = 0; d < p; d++) { unsigned char e = model[((size_t)a * h + b) * p + d]; MC_CHECK(c, m(a, b, d) == e && cm(a, b, d) == e && *m.pixel(a, b, d) == e && *cm.pixel(a, b, d) == e && (d || (m(a, b) == e && cm(a, b) == e && *cm.pixel(a, b) == e && *m.pixel(a, b) == e)), "cell", "cell (" << a << "," << b << "," << d << ") is " << (int)cm(a, b, d) << ", expected " << (int)e); }
				}
				MC_CHECK(c, (int)addr.size() == w * h * p, "cell-alias", "two cells share an address"); c.obs(himg(m));
			}
		});
	c.section("resizes", "every sequence of three (four when thorough) sizes, each written completely");
	{
		std::vector<std::array<int, 3>> Z = { {0,0,1},{1,1,1},{5,2,1},{2,5,3},{3,3,4},{0,4,3},{8,8,4},{1,9,2},{2,5,1},{5,2,3},{1,10,1},{3,4,3},{4,3,3},{12,1,3} };
		sequences((int)Z.size(), c.bound(4, 5), [&](const std::vector<int>& s) { c.test([&] { S o; for (int i : s) o << Z[i][0] << "x" << Z[i][1] << "x" << Z[i][2] << " "; return o.str(); }, [&] {
			Image m; for (int i : s) {
				auto& z = Z[i]; m.resize(z[0], z[1], z[2]); c.step(); MC_CHECK(c, m.width() == z[0] && m.height() == z[1] && m.planes() == z[2] && m.size() == z[0] * z[1] * z[2], "dimensions", "wrong dimensions after resizing");
				int k = 0; for (int x = 0; x < z[0]; x++) for (int y = 0; y < z[1]; y++) for (int p = 0; p < z[2]; p++) m(x, y, p) = (unsigned char)(k++ * 3 + 1);
				k = 0; for (int x = 0; x < z[0]; x++) for (int y = 0; y < z[1]; y++) for (int p = 0; p < z[2]; p++) MC_CHECK(c, m(x, y, p) == (unsigned char)(k++ * 3 + 1), "cell-after-resize", "cell lost after resizing"); c.obs(himg(m));
			}
		}); });
	}
	c.section("grey", "every size up to the bound, 3 to 5 planes, into fresh and used images; and every triple of a grid of byte values");
	for (int w = 0; w <= B; w++) for (int h = 0; h <= B; h++) for (int p = 3; p <= 5; p++) for (int used = 0; used < 3; used++)
		c.test([&] { return (S() << w << "x" << h << "x" << p << (used == 0 ? " into a fresh image" : used == 1 ? " into a larger colour image" : " into a smaller image")).str(); }, [&] {
			Image m(w, h, p), o; if (used == 1) { o.resize(13, 14, 4); memset(o.data(), 0xee, 13 * 14 * 4); } if (used == 2) { o.resize(1, 1, 1); o(0, 0) = 9; }
			int k = 3; for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int q = 0; q < p; q++) m(x, y, q) = (unsigned char)(k += 37); uint64_t b = himg(m);
			ImageUtil::convert_to_bw(m, o); c.step(); MC_CHECK(c, o.width() == w && o.height() == h && o.planes() == 1, "grey-dimensions", "grey image is " << o.width() << "x" << o.height() << "x" << o.planes());
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) MC_CHECK(c, o(x, y) == (m(x, y, 0) + m(x, y, 1) + m(x, y, 2)) / 3, "grey", "pixel (" << x << "," << y << ") is " << (int)o(x, y)); MC_CHECK(c, himg(m) == b, "grey-modified", "the source image changed"); c.obs(himg(o));
		});
	for (int r = 0; r < 256; r += 1) c.test([&] { return (S() << "all values with first plane " << r).str(); }, [&] {
		int st = c.bound(3, 1), n = 255 / st + 1; Image m(n, n, 3), o; for (int g = 0; g < n; g++) for (int b = 0; b < n; b++) { m(g, b, 0) = (unsigned char)r; m(g, b, 1) = (unsigned char)(g * st); m(g, b, 2) = (unsigned char)(b * st); }
		ImageUtil::convert_to_bw(m, o); c.step(n * n); for (int g = 0; g < n; g++) for (int b = 0; b < n; b++) MC_CHECK(c, o(g, b) == (r + g * st + b * st) / 3, "grey", "(" << r << "," << g * st << "," << b * st << ") gives " << (int)o(g, b)); c.obs(himg(o));
	});
	c.section("scale", "every byte value times a set of factors, on several sizes and plane counts; and every sequence of two factors");
	std::vector<double> F = { 0,0.001,0.25,0.5,0.75,1,1.25,1.5,2,2.5,3,10,255,256,1000,1e6,1e12,1e300,-0.5,-1,-100,-1e12,1. / 3,0.999,1.001 };
	for (double f : F) for (double g : F) for (int p = 1; p <= 4; p++) {
		if (!c.thorough() && p != 1 && g != 1) continue;
		c.test([&] { return (S() << "factors " << f << " then " << g << " on " << p << " planes").str(); }, [&] {
			Image m(16, 16 * p, p); std::vector<int> e; int k = 0; for (int y = 0; y < m.height(); y++) for (int x = 0; x < 16; x++) for (int q = 0; q < p; q++) { m(x, y, q) = (unsigned char)(k % 256); e.push_back(k++ % 256); }
			for (double s : { f,g }) {
				ImageUtil::scale(m, s); c.step(); size_t i = 0; MC_CHECK(c, m.width() == 16 && m.height() == 16 * p && m.planes() == p, "scale-dimensions", "size changed");
				for (int y = 0; y < m.height(); y++) for (int x = 0; x < 16; x++) for (int q = 0; q < p; q++, i++) { double v = e[i] * s; int a = m(x, y, q); bool ok = v >= 255 ? a == 255 : v <= 0 ? a == 0 : std::fabs(a - v) <= 0.5 + 1e-9; MC_CHECK(c, ok, "scale", e[i] << " scaled by " << s << " gives " << a); e[i] = a; }
			}
			c.obs(himg(m));
		});
	}
	c.section("generators", "every size up to a bound and several larger ones times iteration counts, into fresh and used images");
	std::vector<std::array<int, 2>> SZ; int G = c.bound(24, 48); for (int w = 0; w <= G; w++) for (int h = 0; h <= G; h++) SZ.push_back({ w,h }); SZ.push_back({ 64,33 }); SZ.push_back({ 33,64 }); SZ.push_back({ 130,130 });
	for (auto& z : SZ) for (int used = 0; used < 2; used++) c.test([&] { return (S() << z[0] << "x" << z[1] << (used ? " used" : " fresh")).str(); }, [&] {
		int w = z[0], h = z[1]; Image m; if (used) { m.resize(7, 50, 3); memset(m.data(), 0x99, 7 * 50 * 3); }
		ImageGenerator::Shierpinsky(m, w, h); c.step(); MC_CHECK(c, m.width() == w && m.height() == h && m.planes() == 4, "generator-dimensions", "Sierpinski image is " << m.width() << "x" << m.height() << "x" << m.planes());
		for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int p = 0; p < 3; p++) MC_CHECK(c, m(x, y, p) == ((x & y) ? 0 : 255), "sierpinski", "pixel (" << x << "," << y << ") plane " << p << " is " << (int)m(x, y, p)); c.obs(himg(m));
		for (int n : { 1,2,7,50,255 }) {
			ImageGenerator::Mandelbrot(m, w, h, n); c.step(); MC_CHECK(c, m.width() == w && m.height() == h && m.planes() == 4, "generator-dimensions", "Mandelbrot image has a wrong size");
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
				double cx = -2.1 + (w - x) / (double)w * 3, cy = -1.5 + (h - y) / (double)h * 3; int k = count(cx, cy, n); if ((int)m(x, y, 0) == k && m(x, y, 1) == k && m(x, y, 2) == k) continue;
				if (!stable(cx, cy, n, k)) continue;
				for (int p = 0; p < 3; p++) MC_CHECK(c, m(x, y, p) == k, "mandelbrot", "pixel (" << x << "," << y << ") of " << w << "x" << h << " with " << n << " iterations is " << (int)m(x, y, p) << ", expected " << k);
			}
			c.obs(himg(m));
		}
		Image d; ImageGenerator::Mandelbrot(d, w, h); bool eq = himg(d) == himg(m); MC_CHECK(c, eq, "default-iterations", "default iteration count is not 255");
	});
	auto sizes = [&](int top) { std::vector<std::array<int, 2>> z; for (int n : ladder(15, top)) for (int k : { 1,2,3 }) { z.push_back({ n,k }); z.push_back({ k,n }); } for (int n : ladder(15, c.bound(256, 1024))) for (int d : { -1,0,1 }) z.push_back({ n,n + d }); return z; };
	c.section("large cells", "long, wide and square images of sizes beside every power of two, one to five planes: distinct addresses, written by one accessor and read by the others, resized from and to another size");
	for (auto& z : sizes(c.bound(65536, 1 << 20))) for (int p = 1; p <= 5; p++) c.test([&] { return (S() << z[0] << "x" << z[1] << "x" << p).str(); }, [&] {
		int w = z[0], h = z[1]; Image m(3, 5, 2); m.resize(w, h, p); const Image& k = m; c.step(); MC_CHECK(c, m.width() == w && m.height() == h && m.planes() == p && m.size() == w * h * p, "dimensions", "dimensions " << m.width() << "x" << m.height() << "x" << m.planes() << " size " << m.size());
		auto val = [&](int x, int y, int q) { uint64_t i = ((uint64_t)y * w + x) * p + q; return (unsigned char)((i * 2654435761u) >> 13); };
		for (int way = 0; way < 2; way++) {
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int q = 0; q < p; q++) { unsigned char e = val(x, y, q) + way; if (way) m(x, y, q) = e; else *m.pixel(x, y, q) = e; }
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int q = 0; q < p; q++) { unsigned char e = val(x, y, q) + way; MC_CHECK(c, k(x, y, q) == e && m(x, y, q) == e && *k.pixel(x, y, q) == e && *m.pixel(x, y, q) == e, "cell", "cell (" << x << "," << y << "," << q << ") is " << (int)k(x, y, q) << ", expected " << (int)e); }
		}
		c.obs(himg(m)); std::vector<double> d; m.to_double(d); MC_CHECK(c, d.size() == (size_t)w * h, "to-double-size", "to_double gives " << d.size() << " values");
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) MC_CHECK(c, d[(size_t)y * w + x] == (unsigned char)(val(x, y, 0) + 1), "to-double", "value " << x << "," << y << " is " << d[(size_t)y * w + x]);
	});
	c.section("to double", "every size up to the bound, one to five planes, into fresh and used vectors");
	for (int w = 0; w <= B; w++) for (int h = 0; h <= B; h++) for (int p = 1; p <= 5; p++) for (size_t used : std::initializer_list<size_t>{ 0,3,500 }) c.test([&] { return (S() << w << "x" << h << "x" << p << " into a vector of " << used).str(); }, [&] {
		Image m(w, h, p); int k = 0; for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int q = 0; q < p; q++) m(x, y, q) = (unsigned char)(k += 41); uint64_t b = himg(m);
		std::vector<double> d(used, -3.5); m.to_double(d); c.step(); MC_CHECK(c, d.size() == (size_t)w * h, "to-double-size", "to_double gives " << d.size() << " values");
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) MC_CHECK(c, d[(size_t)y * w + x] == (double)m(x, y), "to-double", "value " << x << "," << y << " is " << d[(size_t)y * w + x]); MC_CHECK(c, himg(m) == b, "to-double-modified", "the image changed"); c.obs(himg(m));
	});
	c.section("large grey and scale", "grey conversion and scaling of long, wide and square images beside every power of two, into fresh and used images");
	for (auto& z : sizes(c.bound(65536, 1 << 20))) for (int p = 3; p <= 4; p++) c.test([&] { return (S() << z[0] << "x" << z[1] << "x" << p).str(); }, [&] {
		int w = z[0], h = z[1]; Image m(w, h, p), o(w % 7, 3, 2); uint64_t i = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) m(x, y, q) = (unsigned char)((i++ * 2654435761u) >> 11);
		ImageUtil::convert_to_bw(m, o); c.step(); MC_CHECK(c, o.width() == w && o.height() == h && o.planes() == 1, "grey-dimensions", "grey image is " << o.width() << "x" << o.height() << "x" << o.planes());
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) MC_CHECK(c, o(x, y) == (m(x, y, 0) + m(x, y, 1) + m(x, y, 2)) / 3, "grey", "pixel (" << x << "," << y << ") is " << (int)o(x, y)); c.obs(himg(o));
		Image s(m); ImageUtil::scale(s, 1.5); c.step(); MC_CHECK(c, s.width() == w && s.height() == h && s.planes() == p, "scale-dimensions", "size changed");
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) { double e = m(x, y, q) * 1.5; int a = s(x, y, q); MC_CHECK(c, e >= 255 ? a == 255 : std::fabs(a - e) <= 0.5 + 1e-9, "scale", (int)m(x, y, q) << " scaled by 1.5 gives " << a << " at (" << x << "," << y << "," << q << ")"); } c.obs(himg(s));
	});
	c.section("factors", "every byte value times every power of two, its neighbours on both sides and every multiple of 1/64 up to 8");
	{
		std::vector<double> fs; for (int k = -300; k <= 300; k += 1) if (std::abs(k) < 20 || k % 20 == 0) for (double q : { 1.,1.25,0.999 }) { fs.push_back(std::ldexp(q, k)); fs.push_back(-std::ldexp(q, k)); } for (int k = 0; k <= 512; k++) fs.push_back(k / 64.);
		for (double f : fs) c.test([&] { return (S() << "factor " << f).str(); }, [&] {
			Image m(256, 1, 1); for (int x = 0; x < 256; x++) m(x, 0) = (unsigned char)x; ImageUtil::scale(m, f); c.step();
			for (int x = 0; x < 256; x++) { double e = x * f; int a = m(x, 0); MC_CHECK(c, e >= 255 ? a == 255 : e <= 0 ? a == 0 : std::fabs(a - e) <= 0.5 + 1e-9, "scale", x << " scaled by " << f << " gives " << a); } c.obs(himg(m));
		});
	}
	c.section("large generators", "widths and heights beside every power of two, fresh and used images");
	for (auto& z : sizes(c.bound(8192, 65536))) c.test([&] { return (S() << z[0] << "x" << z[1]).str(); }, [&] {
		int w = z[0], h = z[1]; Image m(3, 3, 1); ImageGenerator::Shierpinsky(m, w, h); c.step(); MC_CHECK(c, m.width() == w && m.height() == h && m.planes() == 4, "generator-dimensions", "Sierpinski image is " << m.width() << "x" << m.height() << "x" << m.planes());
		for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int p = 0; p < 3; p++) MC_CHECK(c, m(x, y, p) == ((x & y) ? 0 : 255), "sierpinski", "pixel (" << x << "," << y << ") plane " << p << " is " << (int)m(x, y, p)); c.obs(himg(m));
		for (int n : { 20,200 }) {
			ImageGenerator::Mandelbrot(m, w, h, n); c.step(); MC_CHECK(c, m.width() == w && m.height() == h && m.planes() == 4, "generator-dimensions", "Mandelbrot image has a wrong size");
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
				double cx = -2.1 + (w - x) / (double)w * 3, cy = -1.5 + (h - y) / (double)h * 3; int k = count(cx, cy, n);
				if ((int)m(x, y, 0) == k && m(x, y, 1) == k && m(x, y, 2) == k) continue;
				if (!stable(cx, cy, n, k)) continue;
				c.fail("mandelbrot", S() << "pixel (" << x << "," << y << ") of " << w << "x" << h << " with " << n << " iterations is " << (int)m(x, y, 0) << "," << (int)m(x, y, 1) << "," << (int)m(x, y, 2) << ", expected " << k); return;
			}
			c.obs(himg(m));
		}
	});
}
