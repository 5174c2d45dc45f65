#pragma once
#include "common.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "Transform.h"

// independent rational B-spline: textbook recursive Cox-de Boor basis
inline double basis(const std::vector<double>& U, int i, int p, double u, double end)
{
	if (p == 0) {
		if (u >= U[i] && u < U[i + 1]) return 1;
		// the domain is closed on the right: the last non-empty interval contains its end
		if (u == end && U[i] < U[i + 1] && U[i + 1] == end) return 1;
		return 0;
	}
	double a = 0, b = 0;
	if (U[i + p] > U[i]) a = (u - U[i]) / (U[i + p] - U[i]) * basis(U, i, p - 1, u, end);
	if (U[i + p + 1] > U[i + 1]) b = (U[i + p + 1] - u) / (U[i + p + 1] - U[i + 1]) * basis(U, i + 1, p - 1, u, end);
	return a + b;
}
// the same, skipping the functions whose support does not hold u
inline double nbasis(const std::vector<double>& U, int i, int p, double u, double end) { return u < U[i] || u > U[i + p + 1] ? 0. : basis(U, i, p, u, end); }
struct CurveSpec
{
	int p = 1; std::vector<V> pt; std::vector<double> w, U; // U clamped, increasing
	V eval(double t) const // t in the normalised range 0..1
	{
		double u = U.front() + t * (U.back() - U.front());
		if (t == 1) u = U.back();
		V s; double ws = 0;
		for (size_t i = 0; i < pt.size(); i++) { double b = nbasis(U, (int)i, p, u, U.back()) * w[i]; if (b == 0) continue; s = s + pt[i] * b; ws += b; }
		return s * (1 / ws);
	}
	void normalise() { double a = U.front(), b = U.back(); for (auto& k : U) k = (k - a) / (b - a); }
	std::string text() const
	{
		S s; s << "degree " << p << " points"; for (auto& q : pt) s << " " << str(q);
		s << " weights"; for (double d : w) s << " " << d; s << " knots"; for (double d : U) s << " " << d; return s.str();
	}
	// order 0: degree,knots,weights,points ; 1: points first
	void build(NurbsCurve& n, int order = 0) const
	{
		std::vector<Point3> q; for (auto& a : pt) q.push_back(P(a));
		if (order == 0) { n.set_degree(p); n.set_knots(U); n.set_weights(w); n.set_points(q); }
		else { n.set_points(q); n.set_weights(w); n.set_knots(U); n.set_degree(p); }
	}
};
struct SurfSpec
{
	int pu = 1, pv = 1, nu = 2, nv = 2; std::vector<V> pt; std::vector<double> w, U, W_; // W_: v knots
	V eval(double tu, double tv) const
	{
		double u = tu == 1 ? U.back() : U.front() + tu * (U.back() - U.front()), vv = tv == 1 ? W_.back() : W_.front() + tv * (W_.back() - W_.front());
		std::vector<double> bu(nu), bv(nv);
		for (int i = 0; i < nu; i++) bu[i] = nbasis(U, i, pu, u, U.back());
		for (int j = 0; j < nv; j++) bv[j] = nbasis(W_, j, pv, vv, W_.back());
		V s; double ws = 0;
		for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) { double b = bu[i] * bv[j] * w[i + nu * j]; if (b == 0) continue; s = s + pt[i + nu * j] * b; ws += b; }
		return s * (1 / ws);
	}
	std::string text() const
	{
		S s; s << "degrees " << pu << "," << pv << " net " << nu << "x" << nv << " points"; for (auto& q : pt) s << " " << str(q);
		s << " weights"; for (double d : w) s << " " << d; s << " knotsU"; for (double d : U) s << " " << d; s << " knotsV"; for (double d : W_) s << " " << d; return s.str();
	}
	void build(NurbsSurface& n, int order = 0) const
	{
		std::vector<Point3> q; for (auto& a : pt) q.push_back(P(a));
		if (order == 0) { n.set_degree(pu, pv); n.set_knots_u(U); n.set_knots_v(W_); n.set_weights(w); n.set_points(q, nu, nv); }
		else { n.set_points(q, nu, nv); n.set_weights(w); n.set_knots_v(W_); n.set_knots_u(U); n.set_degree(pu, pv); }
	}
};
// all ways to spend m interior knots on distinct values with multiplicity <= maxMult (compositions)
inline std::vector<std::vector<int>> compositions(int m, int maxMult)
{
	std::vector<std::vector<int>> r;
	std::function<void(int, std::vector<int>)> f = [&](int left, std::vector<int> c) {
		if (left == 0) { r.push_back(c); return; }
		for (int k = 1; k <= std::min(left, maxMult); k++) { auto d = c; d.push_back(k); f(left - k, d); }
	};
	f(m, {});
	return r;
}
// clamped knots with the given interior multiplicities; spacing 0 uniform, 1 uneven
inline std::vector<double> make_knots(int p, const std::vector<int>& mult, int spacing)
{
	std::vector<double> U(p + 1, 0.); double x = 0;
	static const double step[] = { 1,0.25,2.5,0.5,1.75,0.125,3 };
	for (size_t i = 0; i < mult.size(); i++) { x += spacing ? step[i % 7] : 1; for (int k = 0; k < mult[i]; k++) U.push_back(x); }
	x += spacing ? step[mult.size() % 7] : 1;
	for (int k = 0; k <= p; k++) U.push_back(x);
	return U;
}
inline V some_point(int i) // irregular, no symmetry, no three aligned
{
	static const double a[] = { 0,1.5,2.25,4,3.5,-1,-2.5,0.75,6,-3 }, b[] = { 0.5,2,-1,1.25,3,-2,0.25,4,-3.5,1 }, c[] = { 1,-0.5,3,0.25,-2,2.5,1.75,-1.5,0.125,5 };
	return { a[i % 10] + i / 10,b[(i * 3) % 10] - i / 10,c[(i * 7) % 10] + 2 * (i / 10) };
}
static const int NB_WEIGHT_PATTERNS = 6;
inline double some_weight(int pattern, int i, int n)
{
	switch (pattern) {
	case 0: return 1;
	case 1: return i % 2 ? 0.7071067811865476 : 1;
	case 2: return i == 0 ? 3 : 1;
	case 3: return i == n - 1 ? 0.25 : 1;
	case 4: return 0.5 + i * 0.75;
	default: return i % 3 == 1 ? 50 : 0.04;
	}
}
// parameters to look at, in 0..1: knots, next to knots, between knots
inline std::vector<double> probes(const std::vector<double>& U, int per = 3)
{
	std::set<double> s; double a = U.front(), b = U.back();
	for (size_t i = 0; i + 1 < U.size(); i++) {
		double x = (U[i] - a) / (b - a), y = (U[i + 1] - a) / (b - a);
		s.insert(x); s.insert(y);
		if (y > x) { for (int k = 1; k <= per; k++) s.insert(x + (y - x) * k / (per + 1)); s.insert(x + (y - x) * 1e-7); s.insert(y - (y - x) * 1e-7); }
	}
	return std::vector<double>(s.begin(), s.end());
}
// empty if the sizes fit together and no knot is below the one before it
inline std::string malformed(const NurbsSurface& n)
{
	if ((int)n.points().size() != n.nb_points_u() * n.nb_points_v() || n.weights().size() != n.points().size()) return S() << n.points().size() << " points, " << n.weights().size() << " weights for a net " << n.nb_points_u() << "x" << n.nb_points_v();
	if ((int)n.knots_u().size() != n.nb_points_u() + n.degree_u() + 1 || (int)n.knots_v().size() != n.nb_points_v() + n.degree_v() + 1) return S() << n.knots_u().size() << "," << n.knots_v().size() << " knots for a net " << n.nb_points_u() << "x" << n.nb_points_v() << " of degrees " << n.degree_u() << "," << n.degree_v();
	for (auto* k : { &n.knots_u(),&n.knots_v() }) for (size_t i = 0; i + 1 < k->size(); i++) if (!((*k)[i] <= (*k)[i + 1])) return S() << "knot " << i + 1 << " is " << (*k)[i + 1] << ", below the one before it, " << (*k)[i];
	return "";
}
inline CurveSpec make_curve(int p, const std::vector<int>& mult, int spacing, int wpat, int shift = 0)
{
	CurveSpec c; c.p = p; c.U = make_knots(p, mult, spacing); int n = (int)c.U.size() - p - 1;
	for (int i = 0; i < n; i++) { c.pt.push_back(some_point(i + shift)); c.w.push_back(some_weight(wpat, i, n)); }
	return c;
}
inline SurfSpec make_surf(int pu, int pv, const std::vector<int>& mu, const std::vector<int>& mv, int spacing, int wpat)
{
	SurfSpec s; s.pu = pu; s.pv = pv; s.U = make_knots(pu, mu, spacing); s.W_ = make_knots(pv, mv, spacing ? 0 : 1);
	s.nu = (int)s.U.size() - pu - 1; s.nv = (int)s.W_.size() - pv - 1;
	for (int j = 0; j < s.nv; j++) for (int i = 0; i < s.nu; i++) {
		V q = some_point(i + 3 * j); s.pt.push_back({ q.x + i,q.y + j * 1.5,q.z });
		s.w.push_back(some_weight(wpat, (i * 2 + j * 3) % 7, 7));
	}
	return s;
}
