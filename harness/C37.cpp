// C37: the same operations in differently compiled copies of the library. Each copy is a shared library of its own (harness/variant.cpp and all of /repo's sources).
#include "common.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <memory>
#include <sys/stat.h>
namespace {
struct Variant
{
	std::string name; void* h; int (*groups)(); const char* (*group)(int); int (*count)(int); const char* (*opname)(int, int); int (*kind)(int, int); long (*run)(int, const int*, int, double*, long); std::vector<double> out;
	Variant(const std::string& lib, const std::string& n, const std::string& dir) : name(n), out(1 << 21)
	{
		h = dlopen(lib.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
		groups = (int (*)())dlsym(h, "v_groups"); group = (const char* (*)(int))dlsym(h, "v_group"); count = (int (*)(int))dlsym(h, "v_count"); opname = (const char* (*)(int, int))dlsym(h, "v_name"); kind = (int (*)(int, int))dlsym(h, "v_kind"); run = (long (*)(int, const int*, int, double*, long))dlsym(h, "v_run");
		mkdir(dir.c_str(), 0700); ((void (*)(const char*))dlsym(h, "v_init"))(dir.c_str());
	}
};
}
void run(mc::Ctx& c)
{
	char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); if (l < 0) exit(3); self[l] = 0; std::string dir = self; dir = dir.substr(0, dir.rfind('/')); std::string tmp = c.scratch + "/c37-" + std::to_string(getpid()); mkdir(tmp.c_str(), 0700);
	std::vector<std::unique_ptr<Variant>> vs; static const char* N[] = { "gcc -O0 with assertions, locals zeroed","gcc -O3 without assertions","clang -O2 without assertions, locals patterned" };
	for (int i = 0; i < 3; i++) vs.emplace_back(new Variant(S() << dir << "/libvariant" << i << ".so", N[i], S() << tmp << "/" << i));
	Variant& ref = *vs[0]; for (auto& v : vs) if (v->groups() != ref.groups()) exit(3);
	auto compare = [&](int g, const std::vector<int>& s) {
		c.test([&, g, s] { S o; o << ref.group(g) << ": "; for (int i : s) o << ref.opname(g, i) << "; "; return o.str(); }, [&, g, s] {
			std::string key = ref.group(g); for (char& ch : key) if (ch == ' ') ch = '-'; if (ref.kind(g, s.back()) == 0 && !isdigit(ref.opname(g, s.back())[0])) { std::string n = ref.opname(g, s.back()); key += "-" + n.substr(0, n.find_first_of("( ")); }
			mallopt(M_PERTURB, 0xff); /* new memory is zero */ long n = ref.run(g, s.data(), (int)s.size(), ref.out.data(), (long)ref.out.size()); c.step(s.size()); if (n > (long)ref.out.size()) exit(3);
			for (size_t k = 1; k < vs.size(); k++) {
				Variant& v = *vs[k]; mallopt(M_PERTURB, k == 1 ? 0x5a : 0x80); long m = v.run(g, s.data(), (int)s.size(), v.out.data(), (long)v.out.size()); c.step(s.size());
				if (n != m) { c.fail("build-" + key, S() << v.name << ": observation of " << m << " values instead of " << n); return; }
				for (long i = 0; i < n; i++) { double a = ref.out[i], b = v.out[i]; if (a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a))) continue; c.fail("build-" + key, S() << v.name << ": value " << i << " is " << b << " instead of " << a); return; }
			}
			for (long i = 0; i < n; i++) c.obs(ref.out[i]);
		});
	};
	for (int g = 0; g < ref.groups(); g++) {
		int n = ref.count(g); for (auto& v : vs) if (v->count(g) != n) { c.section("setup", "the copies list the same operations"); c.test([] { return std::string("setup"); }, [&] { c.fail("setup", "the copies of the library wrote different files"); }); return; }
		bool one = ref.opname(g, 0)[0] >= '0' && ref.opname(g, 0)[0] <= '9'; std::string name = ref.group(g);
		int depth = one ? 1 : name == "operation" ? c.bound(1, 2) : n > 60 ? c.bound(2, 2) : c.bound(3, 3); c.section(name, S() << "every sequence of up to " << depth << " of " << n << " operations, observed in each copy of the library");
		for (int d = 1; d <= depth; d++) sequences(n, d, [&](const std::vector<int>& s) { if (one && !c.thorough() && name == "geometry" && s[0] >= 20000) return; int last = ref.kind(g, s.back()); if (last == 2 || (last == 1 && (s.size() < 2 || ref.kind(g, s[s.size() - 2]) != 0))) return; compare(g, s); });
	}
	if (system(("rm -r '" + tmp + "'").c_str())) {}
}
