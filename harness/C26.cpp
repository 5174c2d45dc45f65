// C26: savers under write failures at every byte and every write call.
#include "common.hpp"
#include "STLFile.h"
#include "OBJFile.h"
#include "ImageIoBmp.h"
#include "MeshFactory.h"
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <signal.h>
#include <errno.h>

namespace {
// fault injector at the write calls of the C++ library
bool armed = false; int failAt = -1, err = ENOSPC, calls = 0; long shortTo = 0; ino_t theIno = 0;
bool is_target(int fd) { struct stat st; return armed && ::fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_ino == theIno; }
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
	if (is_target(fd)) { int k = calls++; if (failAt >= 0 && k >= failAt) { errno = err; return -1; } if (shortTo && (long)n > shortTo) n = shortTo; }
	return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (is_target(fd)) { int k = calls++; if (failAt >= 0 && k >= failAt) { errno = err; return -1; } if (shortTo) { for (int i = 0; i < n; i++) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, std::min((size_t)shortTo, v[i].iov_len)); } }
	return syscall(SYS_writev, fd, v, n);
}
namespace {
struct Target { std::string name; std::function<bool(const std::string&)> save; };
std::vector<Target> targets(bool big)
{
	std::vector<Target> r;
	auto mesh = [](int k, Mesh& m) { if (k == 1) { m.add_vertex(0, 0, 0); m.add_vertex(1, 0, 0); m.add_vertex(0, 1, 0); m.add_triangle(0, 1, 2); } else if (k == 2) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(3); m.set_color(0x123456); } else if (k == 3) { m.add_vertex(1, 2, 3); } else if (k == 4) MeshFactory::create_sphere_uv(2, 14, m); };
	for (int k = big ? 4 : 0; k < (big ? 5 : 4); k++) { r.push_back({ S() << "stl mesh " << k,[=](const std::string& f) { Mesh m; mesh(k, m); return STLFile::save(f, m); } }); r.push_back({ S() << "obj mesh " << k,[=](const std::string& f) { Mesh m; mesh(k, m); return OBJFile::save(f, m); } }); }
	for (int p : { 1,3,4 }) for (int w = big ? 70 : 1; w <= (big ? 70 : 5); w += 2) r.push_back({ S() << "bmp " << w << "x" << w + 1 << "x" << p,[=](const std::string& f) { Image im(w, w + 1, p); for (int i = 0; i < im.size(); i++) im.data()[i] = (unsigned char)(i * 7 + 1); return ImageIoBmp::write(f, &im); } });
	return r;
}
void limit(rlim_t n) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n == RLIM_INFINITY ? r.rlim_max : std::min(n, r.rlim_max); setrlimit(RLIMIT_FSIZE, &r); }
}
void run(mc::Ctx& c)
{
	signal(SIGXFSZ, SIG_IGN); std::string f = c.scratch + "/s.out", full; auto put = [&](int pre) { ::unlink(f.c_str()); if (pre) { std::ofstream o(f); o << std::string(pre == 1 ? 3 : 60000, 'p'); } };
	auto reference = [&](const Target& t) { put(0); bool ok = t.save(f); return ok ? slurp(f) : std::string("?"); };
	auto after = [&](const Target& t, const std::string& ref) { bool ok = t.save(f); MC_CHECK(c, ok && slurp(f) == ref, "later-save", "a later save without fault gives " << ok << " and " << slurp(f).size() << " bytes of " << ref.size()); };
	auto small = targets(false), big = targets(true);
	std::vector<std::string> ref; for (auto& t : small) ref.push_back(reference(t)); std::vector<std::string> bref; for (auto& t : big) bref.push_back(reference(t));
	c.section("size limits", "small files: writing fails beyond every byte position, over absent, shorter and longer files");
	for (size_t k = 0; k < small.size(); k++) for (size_t n = 0; n <= ref[k].size() + 1; n++) for (int pre = 0; pre < 3; pre++) { if (pre && n % 3 && !c.thorough()) continue; c.test([&] { return S() << small[k].name << " limit " << n << " of " << ref[k].size() << " previous file " << pre; }, [&] {
		put(pre); limit(n); bool ok = small[k].save(f); limit(RLIM_INFINITY); c.step(); std::string s = slurp(f); bool complete = s == ref[k];
		MC_CHECK(c, !ok || complete, "false-success", "reported success with " << s.size() << " of " << ref[k].size() << " bytes written"); if (n >= ref[k].size()) MC_CHECK(c, ok && complete, "false-failure", "reported failure although nothing failed"); c.obs(ok); c.obs((int)n); after(small[k], ref[k]);
	}); }
	c.section("size limits of large files", "files of several buffers: writing fails beyond every position of a fine grid and around every buffer boundary");
	for (size_t k = 0; k < big.size(); k++) { std::set<size_t> L; size_t z = bref[k].size(); for (size_t n = 0; n <= z; n += c.bound(211, 7)) L.insert(n); for (size_t b = 0; b <= z; b += 1024) for (int d = -2; d <= 2; d++) if ((long)b + d >= 0 && b + d <= z) L.insert(b + d); for (size_t d = 0; d < 12; d++) L.insert(z - d); for (size_t n : L) c.test([&] { return S() << big[k].name << " limit " << n << " of " << z; }, [&] {
		put((int)n % 3); limit(n); bool ok = big[k].save(f); limit(RLIM_INFINITY); c.step(); std::string s = slurp(f); bool complete = s == bref[k]; MC_CHECK(c, !ok || complete, "false-success", "reported success with " << s.size() << " of " << z << " bytes written"); if (n >= z) MC_CHECK(c, ok && complete, "false-failure", "reported failure although nothing failed"); c.obs(ok); c.obs((int)n); if (n % 5 == 0) after(big[k], bref[k]);
	}); }
	c.section("failing write calls", "every write call of every save fails (disk full or I/O error), or all of them are short");
	for (int b = 0; b < 2; b++) { auto& T = b ? big : small; auto& R = b ? bref : ref; for (size_t k = 0; k < T.size(); k++) {
		// the number of write calls of a faultless save
		{ put(1); struct stat st; stat(f.c_str(), &st); theIno = st.st_ino; calls = 0; failAt = -1; shortTo = 0; armed = true; T[k].save(f); armed = false; } int n = calls;
		for (int i = 0; i < n; i++) for (int e : { ENOSPC,EIO,EDQUOT }) { if (n > 400 && i % (n / 200) && i < n - 5) continue; c.test([&, n] { return S() << T[k].name << " write call " << i << " of " << n << " and all later ones fail with errno " << e; }, [&, i, e] {
			put(1); struct stat st; stat(f.c_str(), &st); theIno = st.st_ino; calls = 0; failAt = i; err = e; shortTo = 0; armed = true; bool ok = T[k].save(f); armed = false; failAt = -1; c.step(); std::string s = slurp(f); MC_CHECK(c, !ok || s == R[k], "false-success", "reported success with " << s.size() << " of " << R[k].size() << " bytes written"); c.obs(ok); c.obs(i); after(T[k], R[k]);
		}); }
		for (long sh : { 1L,7L,500L }) c.test([&, sh] { return S() << T[k].name << " writes of at most " << sh << " bytes"; }, [&, sh] {
			put(1); struct stat st; stat(f.c_str(), &st); theIno = st.st_ino; calls = 0; failAt = -1; shortTo = sh; armed = true; bool ok = T[k].save(f); armed = false; shortTo = 0; c.step(); std::string s = slurp(f); MC_CHECK(c, !ok || s == R[k], "false-success", "reported success with " << s.size() << " of " << R[k].size() << " bytes written"); MC_CHECK(c, ok, "short-writes", "short writes made the save fail"); c.obs((int)sh); c.obs((int)s.size());
		});
	} }
	c.section("unwritable targets", "directories, absent directories, paths below files, an always full device, an empty name");
	for (auto& t : small) for (int w = 0; w < 5; w++) c.test([&] { return S() << t.name << (w == 0 ? " to a directory" : w == 1 ? " into an absent directory" : w == 2 ? " below a file" : w == 3 ? " to /dev/full" : " to an empty name"); }, [&] {
		put(1); std::string p = w == 0 ? c.scratch : w == 1 ? c.scratch + "/absent/x" : w == 2 ? f + "/x" : w == 3 ? "/dev/full" : ""; bool ok = t.save(p); c.step(); if (w == 3) { put(0); t.save(f); if (slurp(f).empty()) return; } MC_CHECK(c, !ok, "unwritable", "reported success"); c.obs(w); c.obs((int)ok);
	});
}
