// C34: random axes: unit, finite, a function of the seed only, spread over all directions.
#include "common.hpp"
#include "GeometryUtil.h"
namespace {
Point3 ax(int s) { Point3 p(7, 7, 7); GeometryUtil::compute_random_axis(p, s); return p; }
}
void run(mc::Ctx& c)
{
	c.section("every seed", "every seed of a contiguous range around zero and around the limits of int, in blocks of 256");
	int R = c.bound(400, 4000); std::vector<long long> starts; for (int b = -R; b < R; b++) starts.push_back(b * 256LL); for (int b = 1; b <= 40; b++) { starts.push_back(2147483647LL - 256 * b); starts.push_back(-2147483648LL + 256 * (b - 1)); }
	for (long long st : starts) c.test([&] { return (S() << "seeds " << st << " to " << st + 255).str(); }, [&] {
		std::vector<Point3> a; int oct[8] = { 0 };
		for (int i = 0; i < 256; i++) {
			int s = (int)(st + i); Point3 p = ax(s); c.step(); a.push_back(p);
			MC_CHECK(c, finite(p), "finite", "seed " << s << " gives " << str(p)); MC_CHECK(c, std::fabs(len(v(p)) - 1) < 1e-12, "unit", "seed " << s << " gives " << str(p) << " of length " << len(v(p)));
			oct[(p.x() > 0) + 2 * (p.y() > 0) + 4 * (p.z() > 0)]++; if (i % 16 == 0) c.obsp(p);
		}
		for (int i = 255; i >= 0; i -= 3) { Point3 p = ax((int)(st + i)); c.step(); MC_CHECK(c, same(p, a[i]), "reproducible", "seed " << st + i << " gives " << str(p) << " after other seeds, before " << str(a[i])); }
	});
	c.section("orders", "every sequence of three seeds of a set, into fresh and used points: only the last seed counts");
	std::vector<int> SD = { 0,1,2,3,-1,-2,42,1000,2147483647,-2147483647 - 1 };
	sequences((int)SD.size(), c.bound(3, 5), [&](const std::vector<int>& s) { c.test([&] { S o; for (int i : s) o << SD[i] << " "; return o.str(); }, [&] {
		Point3 p(0, 0, 0); for (int i : s) { GeometryUtil::compute_random_axis(p, SD[i]); c.step(); MC_CHECK(c, same(p, ax(SD[i])), "history", "seed " << SD[i] << " gives " << str(p) << ", alone " << str(ax(SD[i]))); }
		Point3 d, e(1, 1, 1); GeometryUtil::compute_random_axis(d); GeometryUtil::compute_random_axis(e); c.step(2); MC_CHECK(c, same(d, e) && same(d, ax(0)), "default", "the default seed gives " << str(d) << " and " << str(e) << ", seed 0 gives " << str(ax(0))); c.obsp(p);
	}); });
	c.section("scattered seeds", "a thousand seeds apart by every power of two, and every seed of a set beside every power of two: different seeds give different axes");
	for (int k = 0; k <= 20; k++) for (int b : { 2,77777 }) c.test([&] { return (S() << "seeds from " << b << " by steps of 2^" << k).str(); }, [&] {
		std::set<std::array<double, 3>> all; int n = 1000; for (int i = 0; i < n; i++) { Point3 p = ax(b + (i << k)); c.step(); MC_CHECK(c, finite(p) && std::fabs(len(v(p)) - 1) < 1e-12, "unit", "seed " << b + (i << k) << " gives " << str(p)); all.insert({ p.x(),p.y(),p.z() }); if (i % 16 == 0) c.obsp(p); }
		MC_CHECK(c, (int)all.size() > n * 0.99, "scattered", "only " << all.size() << " different axes for " << n << " seeds"); });
	for (int b : { 2,3,10,42,1000,12345 }) c.test([&] { return (S() << "seed " << b << " and those beside it by powers of two").str(); }, [&] { std::set<std::array<double, 3>> all; for (int k = -1; k <= 30; k++) { Point3 p = ax(k < 0 ? b : b + (1 << k)); c.step(); all.insert({ p.x(),p.y(),p.z() }); c.obsp(p); } MC_CHECK(c, (int)all.size() >= 31, "scattered", "only " << all.size() << " different axes for 32 seeds"); });
	c.section("spread", "the axes of 20000 consecutive seeds: every cap around 26 directions is hit about as often as on a uniform sphere, no axis is frequent");
	for (int st : { 0,100000,-20000 }) c.test([&] { return (S() << "seeds from " << st).str(); }, [&] {
		int n = 20000; std::set<std::array<double, 3>> all; std::vector<V> D; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) { V d = { (double)x,(double)y,(double)z }; D.push_back(d * (1 / len(d))); }
		std::vector<int> hit(D.size()); V sum; for (int i = 0; i < n; i++) { Point3 p = ax(st + i); c.step(); all.insert({ p.x(),p.y(),p.z() }); sum = sum + v(p); for (size_t k = 0; k < D.size(); k++) if (dot(D[k], v(p)) > 0.9) hit[k]++; }
		for (size_t k = 0; k < D.size(); k++) { MC_CHECK(c, hit[k] > n * 0.05 * 0.8 && hit[k] < n * 0.05 * 1.2, "spread", "direction " << str(D[k]) << " is hit " << hit[k] << " times of " << n << ", uniform " << n * 0.05); c.obs(hit[k]); }
		MC_CHECK(c, len(sum) < 0.03 * n, "mean", "mean axis " << str(sum * (1. / n))); MC_CHECK(c, (int)all.size() > n * 0.99, "distinct", "only " << all.size() << " different axes");
	});
}
