// C25: loaders on every truncation and substitution of representative files, and on every short token sequence.
#include "common.hpp"
#include "STLFile.h"
#include "OBJFile.h"
#include "ImageIoBmp.h"
#include "MeshFactory.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace {
size_t biggest = 0, total = 0; bool counting = false;
void on_malloc(const volatile void*, size_t n) { if (counting) { total += n; if (n > biggest) biggest = n; } }
void on_free(const volatile void*) {}
template<class F> bool load(mc::Ctx& c, size_t fileSize, F f)
{
	biggest = total = 0; counting = true; bool r = f(); counting = false; c.step();
	size_t lim = 65536 + 64 * fileSize; MC_CHECK(c, biggest <= lim, "memory", "one allocation of " << biggest << " bytes for a file of " << fileSize);
	return r;
}
typedef unsigned char u8;
int rd(const std::string& s, size_t o, int n) { uint32_t r = 0; for (int i = 0; i < n; i++) r |= (uint32_t)(u8)s[o + i] << (8 * i); return n == 2 ? (int)(int16_t)r : (int)r; }
std::string put(int v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
void write_file(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
std::string F;

// ---- STL
std::string stl(int n) { std::string s(80, ' '); s += put(n, 4); for (int i = 0; i < n; i++) { float v[12]; for (int k = 0; k < 12; k++) v[k] = k < 3 ? k == 2 : i * 10 + k * 0.5f; s.append((char*)v, 48); s += put(0, 2); } return s; }
void check_stl(mc::Ctx& c, const std::string& s, int mustBe, int used) // mustBe: 1 true, 0 false, -1 either
{
	write_file(F, s); Mesh m; if (used) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(0); }
	bool ok = load(c, s.size(), [&] { return STLFile::load(F, m); }); TriList l = snapshot(m);
	int n = s.size() >= 84 ? rd(s, 80, 4) : -1; bool complete = n >= 0 && (uint64_t)n * 50 + 84 <= s.size();
	if (!complete) MC_CHECK(c, !ok, "stl-incomplete-accepted", "a file of " << s.size() << " bytes declaring " << n << " facets was accepted with " << l.t.size() << " triangles");
	if (mustBe == 1) MC_CHECK(c, ok, "stl-valid-rejected", "a complete file was rejected");
	if (ok && complete) {
		MC_CHECK(c, (int)l.t.size() == n, "stl-invented", l.t.size() << " triangles of " << n); if ((int)l.t.size() != n) return;
		for (int i = 0; i < n; i++) { float p[9]; memcpy(p, s.data() + 84 + 50 * i + 12, 36); float g[9]; for (int k = 0; k < 3; k++) { V q = l.v[l.t[i][k]]; g[3 * k] = q.x; g[3 * k + 1] = q.y; g[3 * k + 2] = q.z; } bool any = false; for (int r = 0; r < 3; r++) { bool e = true; for (int k = 0; k < 9; k++) { float a = g[k], b = p[(k + 3 * r) % 9]; e = e && (a == b || (a != a && b != b)); } any = any || e; } MC_CHECK(c, any, "stl-invented", "triangle " << i << " is not the one in the file"); }
	}
	c.obs(ok); c.obs((int)l.t.size()); c.obs((int)l.v.size());
	// the target is still usable
	m.add_vertex(1, 2, 3); m.add_vertex(2, 2, 3); int a = m.add_vertex(1, 5, 3); m.add_triangle(a - 2, a - 1, a); std::string v = stl(2); write_file(F, v); ok = STLFile::load(F, m); MC_CHECK(c, ok && m.nb_triangles() == 2, "stl-unusable", "a valid file cannot be loaded afterwards");
}
// ---- OBJ
struct Line { std::vector<std::string> tok; };
// 1 certainly valid, 0 certainly invalid, -1 undecided; fills the content when valid
bool plain_int(const std::string& t, long long& r) { if (t.empty()) return false; size_t i = t[0] == '-' ? 1 : 0; if (i == t.size() || t.size() > 12) return false; for (size_t k = i; k < t.size(); k++) if (!isdigit((u8)t[k])) return false; r = atoll(t.c_str()); return true; }
bool plain_num(const std::string& t, double& d) { size_t i = t[0] == '-' ? 1 : 0; bool dig = false; int dot = 0; for (size_t k = i; k < t.size(); k++) { if (isdigit((u8)t[k])) dig = true; else if (t[k] == '.') dot++; else return false; } if (!dig || dot > 1) return false; d = strtod(t.c_str(), 0); return true; }
int judge_obj(const std::string& s, std::vector<V>& v, std::vector<Tri>& f)
{
	v.clear(); f.clear(); std::istringstream is(s); std::string line; std::vector<std::pair<std::vector<long long>, int>> fs; bool unsure = false, bad = false;
	for (char ch : s) if ((u8)ch < 32 && ch != '\n' && ch != '\t' && ch != '\r') unsure = true; else if ((u8)ch > 126) unsure = true;
	while (std::getline(is, line)) {
		std::istringstream ls(line); std::vector<std::string> t; std::string x; while (ls >> x) t.push_back(x); if (t.empty()) continue; if (line.find('#') != std::string::npos && t[0][0] != '#') unsure = true; if (line.size() && line.back() == '\\') unsure = true;
		if (t[0] == "v") { double d[3]; if (t.size() < 4) { double e; bool clean = true; for (size_t k = 1; k < t.size(); k++) clean = clean && plain_num(t[k], e); if (clean) bad = true; else unsure = true; v.push_back(V()); continue; } bool ok = true; for (int k = 0; k < 3; k++) if (!plain_num(t[k + 1], d[k])) { ok = false; if (!isdigit((u8)t[k + 1][0]) && t[k + 1][0] != '-' && t[k + 1][0] != '.' && t[k + 1][0] != '+' && tolower(t[k + 1][0]) != 'n' && tolower(t[k + 1][0]) != 'i') bad = true; else unsure = true; } if (t.size() > 4) { double e; for (size_t k = 4; k < t.size(); k++) if (!plain_num(t[k], e)) unsure = true; } v.push_back(ok ? V{ d[0],d[1],d[2] } : V()); }
		else if (t[0] == "f") {
			if (t.size() < 4) { bad = true; continue; } if (t.size() > 4) unsure = true; std::vector<long long> q;
			for (size_t k = 1; k < t.size(); k++) { std::string a = t[k].substr(0, t[k].find('/')); long long i; if (plain_int(a, i)) { q.push_back(i); for (char ch : t[k]) if (!isdigit((u8)ch) && ch != '/' && ch != '-') unsure = true; if (t[k].find('/') != std::string::npos && !isdigit((u8)t[k].back())) unsure = true; } else if (k < 4) { if (a.empty() || isalpha((u8)a[0])) bad = true; else unsure = true; } }
			if (q.size() >= 3) fs.push_back({ { q[0],q[1],q[2] },(int)v.size() });
		}
	}
	for (auto& g : fs) { Tri t; for (int k = 0; k < 3; k++) { long long i = g.first[k]; i = i < 0 ? i + g.second : i - 1; if (i < 0 || i >= (long long)v.size() || g.first[k] == 0) bad = true; else { if (i >= g.second) unsure = true; t[k] = (int)i; } } if (!bad) f.push_back(t); }
	if (bad && !unsure) return 0; if (bad || unsure) return -1; return 1;
}
void check_obj(mc::Ctx& c, const std::string& s, int used)
{
	write_file(F, s); Mesh m; if (used) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(0); } std::vector<V> v; std::vector<Tri> f; int j = judge_obj(s, v, f);
	bool ok = load(c, s.size(), [&] { return OBJFile::load(F, m); }); TriList l = snapshot(m); c.obs(ok); c.obs((int)l.v.size()); c.obs((int)l.t.size());
	if (j == 0) MC_CHECK(c, !ok, "obj-malformed-accepted", "a malformed file was accepted with " << l.v.size() << " vertices and " << l.t.size() << " triangles: " << s);
	if (j == 1) { MC_CHECK(c, ok, "obj-valid-rejected", "a valid file was rejected: " << s); if (ok) { MC_CHECK(c, l.v.size() == v.size() && l.t.size() == f.size(), "obj-content", l.v.size() << " vertices and " << l.t.size() << " triangles, expected " << v.size() << " and " << f.size() << ": " << s); if (!c.failed_current()) { for (size_t i = 0; i < v.size(); i++) MC_CHECK(c, near(P(l.v[i]), v[i]), "obj-content", "vertex " << i); for (size_t i = 0; i < f.size(); i++) MC_CHECK(c, same_tri(l.t[i], f[i]), "obj-content", "triangle " << i << ": " << s); } } }
	if (ok) { size_t nv = 0, nf = 0, p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::istringstream ls(s.substr(p, e - p)); std::string k; ls >> k; nv += k == "v"; nf += k == "f"; p = e + 1; } MC_CHECK(c, l.v.size() <= nv && l.t.size() <= 2 * nf * 64, "obj-invented", l.v.size() << " vertices and " << l.t.size() << " triangles for " << nv << " v and " << nf << " f statements"); }
	for (auto& t : l.t) for (int k = 0; k < 3; k++) MC_CHECK(c, t[k] >= 0 && t[k] < (int)l.v.size(), "obj-reference", "a triangle refers to vertex " << t[k] << " of " << l.v.size());
	m.add_vertex(1, 2, 3); write_file(F, "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"); ok = OBJFile::load(F, m); MC_CHECK(c, ok && m.nb_triangles() == 1 && m.nb_vertices() == 3, "obj-unusable", "a valid file cannot be loaded afterwards");
}
// ---- BMP
std::string bmp(int w, int h, int planes) { int stride = (w * planes + 3) / 4 * 4, pal = planes == 1 ? 1024 : 0, off = 54 + pal; std::string s = "BM" + put(off + stride * h, 4) + put(0, 4) + put(off, 4) + put(40, 4) + put(w, 4) + put(h, 4) + put(1, 2) + put(planes * 8, 2) + put(0, 4) + put(stride * h, 4) + put(2835, 4) + put(2835, 4) + put(0, 4) + put(0, 4); for (int i = 0; pal && i < 256; i++) s += put(i | i << 8 | i << 16, 4); for (int y = 0; y < h; y++) { std::string r; for (int x = 0; x < w * planes; x++) r += (char)(1 + y * 37 + x * 5); while ((int)r.size() < stride) r += '\0'; s += r; } return s; }
void check_bmp(mc::Ctx& c, const std::string& s, bool valid, int used)
{
	write_file(F, s); Image im; if (used) im.resize(5, 6, 3); bool ok = load(c, s.size(), [&] { return ImageIoBmp::read(F, &im); });
	bool head = s.size() >= 54 && s[0] == 'B' && s[1] == 'M'; long long w = 0, h = 0, off = 0; int bpp = 0, comp = 0; if (head) { off = (uint32_t)rd(s, 10, 4); w = rd(s, 18, 4); h = rd(s, 22, 4); bpp = rd(s, 28, 2); comp = rd(s, 30, 4); }
	bool flip = h > 0; long long ah = std::llabs(h); bool known = head && comp == 0 && (bpp == 8 || bpp == 24 || bpp == 32) && w > 0 && ah > 0 && off >= 54; long long stride = known ? (w * (bpp / 8) + 3) / 4 * 4 : 0; bool complete = known && off <= (long long)s.size() && ah <= ((long long)s.size() - off) / std::max(1LL, stride);
	if (!complete) MC_CHECK(c, !ok, "bmp-bad-accepted", "accepted as " << im.width() << "x" << im.height() << "x" << im.planes() << " (file of " << s.size() << " bytes, header " << w << "x" << h << " " << bpp << " bits, compression " << comp << ", data at " << off << ")");
	if (valid) MC_CHECK(c, ok, "bmp-valid-rejected", "a valid file was rejected");
	if (ok && complete) {
		int pl = bpp / 8; MC_CHECK(c, im.width() == w && im.height() == ah && im.planes() == pl, "bmp-invented", "image " << im.width() << "x" << im.height() << "x" << im.planes() << " for a file " << w << "x" << h << "x" << pl); if (c.failed_current()) return;
		for (int y = 0; y < ah; y++) for (int x = 0; x < w; x++) for (int p = 0; p < std::min(pl, 3); p++) { u8 e = s[off + stride * (flip ? ah - 1 - y : y) + x * pl + (pl == 1 ? 0 : 2 - p)]; if (im(x, y, p) != e) { c.fail("bmp-invented", S() << "pixel " << x << "," << y << " plane " << p << " is " << (int)im(x, y, p) << ", the file has " << (int)e); return; } }
	}
	c.obs(ok); c.obs(im.width()); c.obs(im.height()); c.obs(im.planes());
	if (im.width() > 0 && im.height() > 0 && im.planes() > 0) { im(im.width() - 1, im.height() - 1, im.planes() - 1) = 3; } write_file(F, bmp(3, 2, 3)); ok = ImageIoBmp::read(F, &im); MC_CHECK(c, ok && im.width() == 3 && im.height() == 2, "bmp-unusable", "a valid file cannot be read afterwards");
}
}
void run(mc::Ctx& c)
{
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); F = c.scratch + "/f.bin";
	c.section("no file", "missing files, directories, files below files, empty files and a device, all loaders, fresh and used targets");
	for (int k = 0; k < 5; k++) for (int ld = 0; ld < 3; ld++) for (int u = 0; u < 2; u++) c.test([&] { return S() << "loader " << ld << (k == 0 ? " missing file" : k == 1 ? " directory" : k == 2 ? " path below a file" : k == 3 ? " empty file" : " /dev/null") << (u ? " used target" : ""); }, [&] {
		::unlink(F.c_str()); std::string p = k == 0 ? c.scratch + "/absent" : k == 1 ? c.scratch : k == 2 ? F + "/x" : k == 3 ? F : "/dev/null"; if (k == 2 || k == 3) write_file(F, "");
		Mesh m; Image im; if (u) { MeshFactory::create_box(1, 2, 3, m); im.resize(3, 4, 3); } bool ok = load(c, 0, [&] { return ld == 0 ? STLFile::load(p, m) : ld == 1 ? OBJFile::load(p, m) : ImageIoBmp::read(p, &im); });
		MC_CHECK(c, !ok || (ld == 1 && k >= 3), "no-file-accepted", "reported success"); if (ok) MC_CHECK(c, m.nb_triangles() == 0, "no-file-invented", "geometry from nothing"); m.add_vertex(1, 2, 3); im.resize(2, 2, 1); im(1, 1) = 3; c.obs(ok); c.obs(k); c.obs(ld);
	});
	c.section("stl truncations", "files of 0..4 facets cut at every length, or with extra bytes, fresh and used targets");
	for (int n = 0; n <= 4; n++) { std::string s = stl(n); for (size_t k = 0; k <= s.size() + 3; k++) c.test([&] { return S() << n << " facets, " << k << " bytes of " << s.size(); }, [&] { std::string t = k <= s.size() ? s.substr(0, k) : s + std::string(k - s.size(), 'z'); check_stl(c, t, k == s.size() ? 1 : -1, k % 2); }); }
	c.section("stl substitutions", "every byte of a 2-facet file replaced by every value (count bytes) or by boundary values, pairs of count bytes");
	{ std::string s = stl(2); for (size_t k = 0; k < s.size(); k++) for (int v = 0; v < 256; v++) { if (k < 80 || k >= 84) { if (v != 0 && v != 1 && v != 0x7f && v != 0x80 && v != 0xff && v != 's') continue; } c.test([&] { return S() << "byte " << k << " = " << v; }, [&] { std::string t = s; t[k] = (char)v; check_stl(c, t, k < 80 || k >= 84 ? 1 : -1, v % 2); }); }
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int v = 0; v < 256; v += 17) for (int w : { 0,1,0x7f,0x80,0xff }) c.test([&] { return S() << "count bytes " << a << "=" << v << " " << b << "=" << w; }, [&] { std::string t = s; t[80 + a] = (char)v; t[80 + b] = (char)w; check_stl(c, t, -1, 0); }); }
	const std::string obj = "# c\nv 0 0 0\nv 1.5 0 0 0.5 0.5 0.5\nv 0 2 -1\nvn 0 0 1\n\nv 3 -1 4\nf 1 2 3\nf 3/1 2//1 4/1/1\nf -1 -2 -4\n";
	c.section("obj truncations and substitutions", "a representative file cut at every length, every byte replaced by each of a set of values, inserted and deleted bytes");
	for (size_t k = 0; k <= obj.size(); k++) c.test([&] { return S() << "cut at " << k; }, [&] { check_obj(c, obj.substr(0, k), k % 2); });
	for (size_t k = 0; k < obj.size(); k++) for (int v : std::initializer_list<int>{ 0,10,13,32,'-','/','0','1','9','v','f','#','.','e','+',255 }) for (int md = 0; md < 2; md++) c.test([&] { return S() << "byte " << k << (md ? " preceded by " : " replaced by ") << v; }, [&] { std::string t = obj; if (md) t.insert(k, 1, (char)v); else t[k] = (char)v; check_obj(c, t, k % 2); });
	for (size_t k = 0; k < obj.size(); k++) for (int n = 1; n <= 12; n++) c.test([&] { return S() << n << " bytes deleted at " << k; }, [&] { std::string t = obj; t.erase(k, n); check_obj(c, t, 0); });
	const std::vector<std::string> T = { "v ","f ","\n","1 ","-1 ","0 ","2 ","3 ","9999999999 ","1/","/","x ","1e999 ","-2147483648 ","2147483647 ","1/1/1 ","nan ","#" };
	int D = c.bound(4, 5); c.section("obj token sequences", S() << "every sequence of " << D << " tokens over " << T.size() << ", alone and after a valid prefix with three vertices");
	sequences((int)T.size(), D, [&](const std::vector<int>& q) { for (int pre = 0; pre < 2; pre++) { if (pre == 0 && q[0] > 1) continue; c.test([&, q, pre] { std::string s; for (int i : q) s += T[i]; return S() << (pre ? "after 3 vertices and \"f \": " : "") << s; }, [&, q, pre] { std::string s = pre ? "v 0 0 0\nv 1 0 0\nv 0 1 0\nf " : ""; for (int i : q) s += T[i]; check_obj(c, s, q[0] % 2); }); } });
	c.section("obj references", "a face with one reference within five of every power of two up to 2^70, of both signs and zero, at each corner, in each notation, after 1, 3, 5 and 40 vertices");
	for (int nv : { 1,3,5,40 }) for (int e = 0; e <= 70; e++) for (int d = -5; d <= 5; d++) for (int sg = -1; sg <= 1; sg += 2) for (int cr = 0; cr < 4; cr++) for (int nt = 0; nt < 3; nt++) {
		__int128 x = ((__int128)1 << e) + d; if (x < 0 || (x == 0 && sg < 0)) continue; if (nv != 3 && (nt || cr > 1)) continue; std::string t; if (x == 0) t = "0"; else for (__int128 y = x; y; y /= 10) t.insert(t.begin(), (char)('0' + (int)(y % 10))); if (sg < 0) t = "-" + t; bool in = x >= 1 && x <= nv; if (nt) t += nt == 1 ? "/1" : "//1";
		c.test([&, t, nv, cr] { return S() << nv << " vertices, reference " << t << " at corner " << cr; }, [&, t, nv, cr, in] {
			S s; for (int i = 0; i < nv; i++) s << "v " << i << " " << i * i << " 0\n"; s << "f"; for (int k = 0; k < (cr == 3 ? 4 : 3); k++) { s << " "; if (k == cr) s << t; else s << 1 + k % nv; } s << "\n"; check_obj(c, s, 0); write_file(F, s); Mesh m; bool ok = OBJFile::load(F, m); if (!in && cr < 3) MC_CHECK(c, !ok, "obj-malformed-accepted", "a file with reference " << t << " to one of " << nv << " vertices was accepted"); }); }
	c.section("bmp truncations", "8, 24 and 32 bit files cut at every length, fresh and used targets");
	for (int p : { 1,3,4 }) { std::string s = bmp(5, 3, p); for (size_t k = 0; k <= s.size() + 2; k++) c.test([&] { return S() << p << " planes, " << k << " bytes of " << s.size(); }, [&] { std::string t = k <= s.size() ? s.substr(0, k) : s + std::string(k - s.size(), 'z'); check_bmp(c, t, k >= s.size(), k % 2); }); }
	c.section("bmp substitutions", "every header byte of 8, 24 and 32 bit files replaced by every value; 32-bit header fields by boundary values, in pairs");
	for (int p : { 1,3,4 }) { std::string s = bmp(5, 3, p); for (size_t k = 0; k < 54; k++) for (int v = 0; v < 256; v++) c.test([&] { return S() << p << " planes, byte " << k << " = " << v; }, [&] { std::string t = s; t[k] = (char)v; check_bmp(c, t, t == s, v % 2); });
		static const int FV[] = { 0,1,-1,2,5,40,54,0x7fffffff,(int)0x80000000,46341,65536,-65536,0x40000000,1000000 }; static const int FO[] = { 2,10,14,18,22,26,30,34,46 };
		for (int a = 0; a < 9; a++) for (int b = a; b < 9; b++) for (int x : FV) for (int y : FV) { if (a == b && x != y) continue; c.test([&] { return S() << p << " planes, field at " << FO[a] << " = " << x << ", at " << FO[b] << " = " << y; }, [&] { std::string t = s; t.replace(FO[a], 4, put(x, 4)); t.replace(FO[b], 4, put(y, 4)); check_bmp(c, t, false, 0); }); } }
	c.section("long files", "files of a ladder of sizes: STL cut inside and between facets and with wrong counts; OBJ with one malformed or dangling statement at the ends and in the middle; BMP cut by a byte, a row and more");
	for (int n : ladder(1, c.bound(1030, 4100))) { std::string s = stl(n); std::set<size_t> cuts; for (int k : { 0,1,2,3,12,25,48,49,50,51,100 }) if ((size_t)k <= s.size()) cuts.insert(s.size() - k); for (int k : { 0,1,n / 2,n - 1 }) for (int d : { 0,1,49 }) if (84 + 50 * (size_t)k + d <= s.size()) cuts.insert(84 + 50 * (size_t)k + d);
		for (size_t k : cuts) c.test([&] { return S() << n << " facets, " << k << " bytes of " << s.size(); }, [&] { check_stl(c, s.substr(0, k), k == s.size() ? 1 : -1, k % 2); });
		for (int k : { n + 1,n + 2,2 * n + 1,n + 256,n + 65536,n + (1 << 24),(int)(n | 0x80000000u) }) c.test([&] { return S() << n << " facets, declared " << k; }, [&] { std::string t = s; t.replace(80, 4, put(k, 4)); check_stl(c, t, -1, n % 2); });
	}
	for (int n : ladder(3, c.bound(520, 2100))) for (int kind = 0; kind < 12; kind++) for (int at : { 0,1,n / 3,n / 2,n - 2,n - 1 }) for (int cr = 0; cr < 3; cr++) { if (kind >= 8 && cr) continue; c.test([&] { return S() << n << " vertices and faces, defect " << kind << " at " << at << " corner " << cr; }, [&] {
		std::string s; S v, f; for (int i = 0; i < n; i++) { if (kind == 8 && i == at) v << "v " << i << " 1\n"; else if (kind == 9 && i == at) v << "v " << i << " x 2\n"; else v << "v " << i << " " << i % 3 << " " << i % 5 << "\n"; }
		for (int i = 0; i < n; i++) { int q[3] = { i + 1,(i + 1) % n + 1,(i + 2) % n + 1 }; f << "f"; for (int k = 0; k < 3; k++) { if (i == at && kind == 10 && k == 2) break; if (i != at || k != cr || kind >= 8) { f << " " << q[k]; continue; } switch (kind) { case 0: f << " " << n + 1; break; case 1: f << " 0"; break; case 2: f << " " << -(n + 1); break; case 3: f << " x"; break; case 4: f << " 2000000000"; break; case 5: f << " " << n + 1 << "/1"; break; case 6: f << " 0//1"; break; default: f << " -" << n; } } f << "\n"; if (kind == 11 && i == at) f << "f\n"; }
		s = v.str() + f.str(); check_obj(c, s, at % 2); }); }
	for (int p : { 1,3,4 }) for (int w : ladder(1, c.bound(520, 2100))) for (int h : { 1,2,7,33 }) { std::string s = bmp(w, h, p); size_t row = (w * p + 3) / 4 * 4; for (size_t k : { (size_t)0,(size_t)1,row - 1,row,row + 1,row * h - 1,row * h }) c.test([&] { return S() << w << "x" << h << "x" << p << " without its last " << k << " bytes"; }, [&] { check_bmp(c, s.substr(0, s.size() - k), k == 0, h % 2); }); }
	c.section("cross formats", "each loader on the files of the other formats and on patterns");
	std::vector<std::string> X = { stl(3),obj,bmp(5,3,1),bmp(5,3,3),std::string(300,'\0'),std::string(300,'\xff'),std::string(300,'v'),"solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid x\n" };
	for (size_t k = 0; k < X.size(); k++) for (int ld = 0; ld < 3; ld++) c.test([&] { return S() << "content " << k << " loader " << ld; }, [&] { if (ld == 0) check_stl(c, X[k], -1, 1); else if (ld == 1) check_obj(c, X[k], 1); else check_bmp(c, X[k], false, 1); });
}
