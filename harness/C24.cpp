// C24: BMP files against an independent codec.
#include "common.hpp"
#include "ImageIoBmp.h"

namespace {
typedef unsigned char u8;
int rd(const std::string& s, size_t o, int n) { uint32_t r = 0; for (int i = 0; i < n; i++) r |= (uint32_t)(u8)s[o + i] << (8 * i); return (int)r; }
u8 pat(int k, int x, int y, int p, int w) { switch (k) { case 0: return (u8)(1 + x * 7 + y * 31 + p * 101); case 1: return (u8)(255 - x - y * w * 3 - p); case 2: return (x + y + p) % 2 ? 255 : 0; default: return (u8)(mc::mix(mc::mix((uint64_t)x, (uint64_t)y), (uint64_t)p) >> 7); } }
void fill(Image& im, int w, int h, int p, int k) { im.resize(w, h, p); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) im(x, y, q) = pat(k, x, y, q, w); }
// independent decoder: "" or the error
std::string decode(const std::string& s, int w, int h, int planes, const std::function<u8(int, int, int)>& want)
{
	if (s.size() < 54) return S() << s.size() << " bytes"; if (s[0] != 'B' || s[1] != 'M') return "magic"; if (rd(s, 2, 4) != (int)s.size()) return S() << "declared size " << rd(s, 2, 4) << " of " << s.size(); if (rd(s, 6, 4)) return "reserved fields";
	int off = rd(s, 10, 4), bpp = planes * 8, pal = planes == 1 ? 1024 : 0; if (rd(s, 14, 4) != 40) return "info header size"; if (rd(s, 18, 4) != w || rd(s, 22, 4) != h) return S() << "dimensions " << rd(s, 18, 4) << "x" << rd(s, 22, 4); if (rd(s, 26, 2) != 1) return "plane count"; if (rd(s, 28, 2) != bpp) return S() << "bits " << rd(s, 28, 2); if (rd(s, 30, 4)) return "compression";
	int stride = (w * planes + 3) / 4 * 4, sz = rd(s, 34, 4); if (sz != 0 && sz != stride * h) return S() << "image size " << sz; if (off < 54 + pal || (size_t)off + (size_t)stride * h != s.size()) return S() << "data offset " << off << " for " << s.size() << " bytes";
	int used = rd(s, 46, 4); if (planes == 1) { if (used != 0 && used != 256) return "palette size"; for (int i = 0; i < 256; i++) for (int k = 0; k < 3; k++) if ((u8)s[54 + 4 * i + k] != i) return S() << "palette entry " << i; }
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int p = 0; p < std::min(planes, 3); p++) { u8 b = s[off + (size_t)stride * (h - 1 - y) + x * planes + (planes == 1 ? 0 : 2 - p)]; if (b != want(x, y, p)) return S() << "pixel " << x << "," << y << " plane " << p << " is " << (int)b << " expected " << (int)want(x, y, p); }
	return "";
}
std::string put(int v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
std::string encode(int w, int h, int planes, int k, int variant) // variant: 0 plain, 1 short palette / gap before data, 2 image size 0 and used colours, 3 longer info header
{
	int stride = (w * planes + 3) / 4 * 4, ncol = planes == 1 ? (variant == 1 ? 16 : variant >= 10 ? variant - 10 : 256) : 0, ih = variant == 3 ? 108 : 40, gap = variant == 1 ? 2 : 0, off = 14 + ih + 4 * ncol + gap;
	std::string s = "BM" + put(off + stride * h, 4) + put(0, 4) + put(off, 4) + put(ih, 4) + put(w, 4) + put(h, 4) + put(1, 2) + put(planes * 8, 2) + put(0, 4) + put(variant == 2 ? 0 : stride * h, 4) + put(2835, 4) + put(2835, 4) + put(variant == 1 || variant >= 10 ? ncol : variant == 2 && planes == 1 ? 256 : 0, 4) + put(0, 4); s += std::string(ih - 40, 0);
	for (int i = 0; i < ncol; i++) { int g = variant == 1 ? i * 17 : i; s += put(g | g << 8 | g << 16, 4); } s += std::string(gap, 7);
	for (int y = h - 1; y >= 0; y--) { std::string r; for (int x = 0; x < w; x++) for (int p = 0; p < planes; p++) r += (char)pat(k, x, y, planes == 1 ? 0 : p < 3 ? 2 - p : 3, w); while ((int)r.size() < stride) r += (char)0xEE; s += r; }
	return s;
}
void write_file(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
void use(Image& im, int u) { if (u == 1) fill(im, 7, 9, 3, 0); else if (u == 2) fill(im, 1, 1, 1, 2); }
}
void run(mc::Ctx& c)
{
	std::string f = c.scratch + "/i.bmp"; int N = c.bound(13, 26);
	std::vector<std::array<int, 2>> sizes; for (int w = 1; w <= N; w++) for (int h = 1; h <= N; h++) sizes.push_back({ w,h }); for (int w : { 255,256,257,258,1000 }) { sizes.push_back({ w,2 }); sizes.push_back({ 3,w }); }
	c.section("write and read", S() << "sizes 1.." << N << " squared and some large ones, 1, 3 and 4 planes, 4 pixel patterns, over absent, shorter and longer files, read into fresh and used images");
	for (auto& z : sizes) for (int p : { 1,3,4 }) for (int k = 0; k < 4; k++) c.test([&] { return S() << z[0] << "x" << z[1] << "x" << p << " pattern " << k; }, [&] {
		int w = z[0], h = z[1]; ::unlink(f.c_str()); if (k == 1) write_file(f, "x"); if (k == 2) write_file(f, std::string(30000, 'y'));
		Image im; fill(im, w, h, p, k); bool ok = ImageIoBmp::write(f, &im); c.step(); MC_CHECK(c, ok, "write-result", "write returned false"); std::string d = decode(slurp(f), w, h, p, [&](int x, int y, int q) { return pat(k, x, y, q, w); }); MC_CHECK(c, d == "", "written-file", d); if (d != "") return;
		MC_CHECK(c, im.width() == w && im.height() == h && im.planes() == p && im(w - 1, h - 1, p - 1) == pat(k, w - 1, h - 1, p - 1, w), "input-modified", "the image was modified");
		Image t; use(t, (w + k) % 3); ok = ImageIoBmp::read(f, &t); c.step(); MC_CHECK(c, ok && t.width() == w && t.height() == h && t.planes() == p, "read-result", "result " << ok << " " << t.width() << "x" << t.height() << "x" << t.planes()); if (c.failed_current()) return;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < std::min(p, 3); q++) { if (t(x, y, q) != pat(k, x, y, q, w)) { c.fail("read-pixel", S() << "pixel " << x << "," << y << " plane " << q << " is " << (int)t(x, y, q) << " expected " << (int)pat(k, x, y, q, w)); return; } c.obs((int)t(x, y, q)); }
	});
	c.section("large", "long and large images: one side beside every power of two, more than 65536 pixels; data far behind the header");
	std::vector<std::array<int, 2>> big; for (int k = 16; k <= c.bound(8192, 65536); k *= 2) for (int d = -1; d <= 1; d++) for (int s : { 1,2,5 }) { big.push_back({ k + d,s }); big.push_back({ s,k + d }); } for (auto z : std::initializer_list<std::array<int, 2>>{ {256,256},{257,255},{300,220},{65537,1},{1,65537},{22000,1},{32769,2} }) big.push_back(z);
	for (auto& z : big) for (int p : { 1,3,4 }) for (int gap : { 0,1,200,1000,70000 }) { if (gap > 1 && z[0] * z[1] > 5000) continue; c.test([&] { return S() << z[0] << "x" << z[1] << "x" << p << " gap " << gap; }, [&] {
		int w = z[0], h = z[1], k = (w + h) % 8 ? 3 : 1; Image t; if (!gap) { Image im; fill(im, w, h, p, k); ::unlink(f.c_str()); bool ok = ImageIoBmp::write(f, &im); c.step(); MC_CHECK(c, ok, "write-result", "write returned false"); std::string d = decode(slurp(f), w, h, p, [&](int x, int y, int q) { return pat(k, x, y, q, w); }); MC_CHECK(c, d == "", "written-file", d); if (d != "") return; }
		else { std::string s = encode(w, h, p, k, 0); int off = rd(s, 10, 4); s.insert(off, std::string(gap, 9)); s.replace(10, 4, put(off + gap, 4)); s.replace(2, 4, put((int)s.size(), 4)); write_file(f, s); use(t, w % 3); }
		bool ok = ImageIoBmp::read(f, &t); c.step(); MC_CHECK(c, ok && t.width() == w && t.height() == h && t.planes() == p, "read-result", "result " << ok << " " << t.width() << "x" << t.height() << "x" << t.planes()); if (c.failed_current()) return;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < std::min(p, 3); q++) if (t(x, y, q) != pat(k, x, y, q, w)) { c.fail("read-pixel", S() << "pixel " << x << "," << y << " plane " << q << " is " << (int)t(x, y, q) << " expected " << (int)pat(k, x, y, q, w)); return; } c.obs(w * 31 + h);
	}); }
	c.section("palettes", "8-bit files whose pixels use only the first 1..256 greys and which store just these, data right behind, sizes 1..9, read into fresh and used images");
	for (int nc = 1; nc <= 256; nc++) for (int w : { 1,3,4,9 }) for (int u = 0; u < 3; u++) c.test([&] { return S() << nc << " palette entries, " << w << "x" << (nc % 5 + 1) << " target " << u; }, [&] {
		int h = nc % 5 + 1; std::string s = encode(w, h, 1, 0, 10 + nc); int off = rd(s, 10, 4), st = (w + 3) / 4 * 4; auto px = [&](int x, int y) { return (u8)((x * 5 + y * 3 + nc - 1) % nc); }; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) s[off + st * (h - 1 - y) + x] = (char)px(x, y); write_file(f, s); Image t; use(t, u); bool ok = ImageIoBmp::read(f, &t); c.step(); MC_CHECK(c, ok && t.width() == w && t.height() == h && t.planes() == 1, "palette-result", "result " << ok << " " << t.width() << "x" << t.height() << "x" << t.planes()); if (c.failed_current()) return;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (t(x, y, 0) != px(x, y)) { c.fail("palette-pixel", S() << "pixel " << x << "," << y << " is " << (int)t(x, y, 0) << " expected " << (int)px(x, y)); return; } c.obs((int)t(x, y, 0)); }
	});
	c.section("foreign files", "valid files by an independent writer: every size, depth, pattern and header variant, read into fresh and used images");
	for (auto& z : sizes) for (int p : { 1,3,4 }) for (int var = 0; var < 4; var++) for (int u = 0; u < 3; u++) c.test([&] { return S() << z[0] << "x" << z[1] << "x" << p << " variant " << var << " target " << u; }, [&] {
		int w = z[0], h = z[1], k = (w + h + var) % 4; std::string s = encode(w, h, p, k, var); write_file(f, s); Image t; use(t, u); bool ok = ImageIoBmp::read(f, &t); c.step(); MC_CHECK(c, ok && t.width() == w && t.height() == h && t.planes() == p, "foreign-result", "result " << ok << " " << t.width() << "x" << t.height() << "x" << t.planes()); if (c.failed_current()) return;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < p; q++) { if (t(x, y, q) != pat(k, x, y, q, w)) { c.fail("foreign-pixel", S() << "pixel " << x << "," << y << " plane " << q << " is " << (int)t(x, y, q) << " expected " << (int)pat(k, x, y, q, w)); return; } c.obs((int)t(x, y, q)); }
		MC_CHECK(c, slurp(f) == s, "file-modified", "the file was modified");
	});
}
