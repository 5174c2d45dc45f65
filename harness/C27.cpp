// C27: STEP files parsed by an independent ISO 10303-21 reader; surfaces rebuilt and re-evaluated.
#include "nurbs.hpp"
#include "StepFile.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include <memory>

namespace {
// ---- Part 21 reader
struct Par { char k = '?'; std::string s; double d = 0; long i = 0; std::vector<Par> l; std::vector<Par>* e = nullptr; }; // k: i integer, r real, s string, e enumeration, # reference, $ omitted, * derived, ( list
struct Rec { std::string name; std::vector<Par> p; };
struct Reader
{
	const std::string& s; size_t i = 0; std::string err; std::map<long, std::vector<Rec>> inst; std::vector<Rec> header; std::vector<long> order;
	Reader(const std::string& t) : s(t) {}
	bool bad(const std::string& e) { if (err.empty()) err = S() << e << " at byte " << i << " near '" << s.substr(i, 40) << "'"; return false; }
	void ws() { while (i < s.size()) { if (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') i++; else if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i); if (e == std::string::npos) { i = s.size(); return; } i = e + 2; } else return; } }
	bool lit(const char* t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t)) return bad(S() << "expected " << t); i += n; return true; }
	bool keyword(std::string& k) { ws(); size_t b = i; while (i < s.size() && (isupper((unsigned char)s[i]) || s[i] == '_' || (i > b && (isdigit((unsigned char)s[i]) || s[i] == '-')))) i++; k = s.substr(b, i - b); return i > b || bad("expected a keyword"); }
	bool par(Par& p)
	{
		ws(); if (i >= s.size()) return bad("end of file in a parameter");
		char ch = s[i];
		if (ch == '$' || ch == '*') { p.k = ch; i++; return true; }
		if (ch == '\'') { i++; p.k = 's'; while (i < s.size()) { if (s[i] == '\'') { if (i + 1 < s.size() && s[i + 1] == '\'') i++; else break; } if ((unsigned char)s[i] < 32 || (unsigned char)s[i] > 126) return bad("bad character in a string"); p.s += s[i++]; } return lit("'"); }
		if (ch == '#') { i++; p.k = '#'; size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i == b) return bad("bad reference"); p.i = atol(s.substr(b, i - b).c_str()); return true; }
		if (ch == '.') { i++; p.k = 'e'; while (i < s.size() && (isupper((unsigned char)s[i]) || s[i] == '_' || isdigit((unsigned char)s[i]))) p.s += s[i++]; return p.s.empty() ? bad("bad enumeration") : lit("."); }
		if (ch == '(') { i++; p.k = '('; return list(p.l); }
		// INTEGER = [sign] digit {digit}; REAL = [sign] digit {digit} "." {digit} ["E" [sign] digit {digit}]
		size_t b = i; if (s[i] == '+' || s[i] == '-') i++; size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i == d) return bad("unexpected character"); p.k = 'i';
		if (i < s.size() && s[i] == '.') { p.k = 'r'; i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i < s.size() && s[i] == 'E') { i++; if (s[i] == '+' || s[i] == '-') i++; size_t x = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (x == i) return bad("bad exponent"); } }
		if (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '.')) return bad("bad number"); p.d = strtod(s.substr(b, i - b).c_str(), 0); if (p.k == 'i') { if (std::fabs(p.d) > 1e15) return bad("integer out of range"); p.i = (long)p.d; } return true;
	}
	bool list(std::vector<Par>& l) { ws(); if (s[i] == ')') { i++; return true; } while (true) { Par p; if (!par(p)) return false; l.push_back(p); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } return lit(")"); } }
	bool rec(Rec& r) { return keyword(r.name) && lit("(") && list(r.p); }
	bool parse()
	{
		if (!lit("ISO-10303-21;") || !lit("HEADER;")) return false;
		while (true) { ws(); if (s.compare(i, 7, "ENDSEC;") == 0) { i += 7; break; } Rec r; if (!rec(r) || !lit(";")) return false; header.push_back(r); }
		if (header.size() < 3 || header[0].name != "FILE_DESCRIPTION" || header[1].name != "FILE_NAME" || header[2].name != "FILE_SCHEMA") return bad("the header does not hold FILE_DESCRIPTION, FILE_NAME and FILE_SCHEMA");
		if (header[0].p.size() != 2 || header[1].p.size() != 7 || header[2].p.size() != 1) return bad("header entity parameters");
		if (!lit("DATA;")) return false;
		while (true) {
			ws(); if (s.compare(i, 7, "ENDSEC;") == 0) { i += 7; break; } Par id; if (!par(id) || id.k != '#' || id.i <= 0) return bad("expected an instance name"); if (!lit("=")) return false; ws(); std::vector<Rec> rs;
			if (s[i] == '(') { i++; while (true) { ws(); if (s[i] == ')') { i++; break; } Rec r; if (!rec(r)) return false; if (rs.size() && rs.back().name >= r.name) return bad("partial entities are not in alphabetical order"); rs.push_back(r); } if (rs.empty()) return bad("empty instance"); }
			else { Rec r; if (!rec(r)) return false; rs.push_back(r); }
			if (!lit(";")) return false; if (inst.count(id.i)) return bad(S() << "instance #" << id.i << " defined twice"); inst[id.i] = rs; order.push_back(id.i);
		}
		if (!lit("END-ISO-10303-21;")) return false; ws(); return i == s.size() || bad("text after the end");
	}
	void refs(const std::vector<Par>& l) { for (auto& p : l) { if (p.k == '#' && !inst.count(p.i)) bad(S() << "reference #" << p.i << " to nothing"); refs(p.l); } }
	void check_refs() { for (auto& x : inst) for (auto& r : x.second) refs(r.p); }
	const Rec* get(long id, const std::string& name) { auto it = inst.find(id); if (it == inst.end()) return nullptr; for (auto& r : it->second) if (r.name == name) return &r; return nullptr; }
};
struct Read { SurfSpec s; bool cu, cv; };
std::string surface(Reader& r, long id, Read& o)
{
	static const char* parts[] = { "BOUNDED_SURFACE","B_SPLINE_SURFACE","B_SPLINE_SURFACE_WITH_KNOTS","GEOMETRIC_REPRESENTATION_ITEM","RATIONAL_B_SPLINE_SURFACE","REPRESENTATION_ITEM","SURFACE" };
	for (auto n : parts) if (!r.get(id, n)) return S() << "#" << id << " has no " << n; auto* b = r.get(id, "B_SPLINE_SURFACE"); auto* k = r.get(id, "B_SPLINE_SURFACE_WITH_KNOTS"); auto* w = r.get(id, "RATIONAL_B_SPLINE_SURFACE");
	if (b->p.size() != 7 || k->p.size() != 5 || w->p.size() != 1) return "parameter counts"; if (b->p[0].k != 'i' || b->p[1].k != 'i' || b->p[2].k != '(' || b->p[3].k != 'e') return "parameter types"; o.s.pu = b->p[0].i; o.s.pv = b->p[1].i;
	for (int q : { 4,5,6 }) if (b->p[q].k != 'e' || (b->p[q].s != "T" && b->p[q].s != "F" && b->p[q].s != "U")) return "logical flags"; o.cu = b->p[4].s == "T"; o.cv = b->p[5].s == "T";
	auto& L = b->p[2].l; o.s.nu = (int)L.size(); if (!o.s.nu) return "empty net"; o.s.nv = (int)L[0].l.size(); o.s.pt.assign(o.s.nu * o.s.nv, V()); o.s.w.assign(o.s.nu * o.s.nv, 0); // ISO 10303-42: the first index runs along u
	for (int i = 0; i < o.s.nu; i++) { if ((int)L[i].l.size() != o.s.nv) return "ragged net"; for (int j = 0; j < o.s.nv; j++) { auto& p = L[i].l[j]; if (p.k != '#') return "net entry"; auto* c = r.get(p.i, "CARTESIAN_POINT"); if (!c || c->p.size() != 2 || c->p[1].k != '(' || c->p[1].l.size() != 3) return S() << "#" << p.i << " is not a point"; for (auto& x : c->p[1].l) if (x.k != 'r') return S() << "coordinate of #" << p.i << " is not a real"; o.s.pt[i + o.s.nu * j] = { c->p[1].l[0].d,c->p[1].l[1].d,c->p[1].l[2].d }; } }
	auto& W = w->p[0].l; if ((int)W.size() != o.s.nu) return S() << W.size() << " weight rows for " << o.s.nu; for (int i = 0; i < o.s.nu; i++) { if ((int)W[i].l.size() != o.s.nv) return "weight columns"; for (int j = 0; j < o.s.nv; j++) { if (W[i].l[j].k != 'r') return "a weight is not a real"; if (W[i].l[j].d <= 0) return "weight not positive"; o.s.w[i + o.s.nu * j] = W[i].l[j].d; } }
	for (int d = 0; d < 2; d++) { auto& M = k->p[d].l; auto& K = k->p[2 + d].l; auto& U = d ? o.s.W_ : o.s.U; int p = d ? o.s.pv : o.s.pu, n = d ? o.s.nv : o.s.nu; if (M.size() != K.size() || M.size() < 2) return S() << M.size() << " multiplicities for " << K.size() << " knots"; double last = 0; for (size_t q = 0; q < K.size(); q++) { if (M[q].k != 'i' || K[q].k != 'r') return "knot types"; if (q && !(K[q].d > last)) return S() << "knots not strictly increasing: " << last << " then " << K[q].d; last = K[q].d; if (M[q].i < 1 || M[q].i > p + 1) return S() << "multiplicity " << M[q].i; for (int z = 0; z < M[q].i; z++) U.push_back(K[q].d); } if ((int)U.size() != n + p + 1) return S() << (d ? "v" : "u") << " multiplicities sum to " << U.size() << " for " << n << " points of degree " << p; }
	return "";
}
struct Want { SurfSpec s; bool cu, cv; };
// nurbs -> spec, through the public getters
Want spec(const NurbsSurface& n) { Want w; w.s.pu = n.degree_u(); w.s.pv = n.degree_v(); w.s.nu = n.nb_points_u(); w.s.nv = n.nb_points_v(); for (auto& p : n.points()) w.s.pt.push_back(v(p)); w.s.w = n.weights(); w.s.U = n.knots_u(); w.s.W_ = n.knots_v(); w.cu = n.is_closed_u(); w.cv = n.is_closed_v(); return w; }
void verify(mc::Ctx& c, const std::string& text, const std::vector<Want>& want)
{
	Reader r(text); bool ok = r.parse(); if (ok) r.check_refs(); MC_CHECK(c, r.err.empty(), "syntax", r.err); if (!r.err.empty()) return;
	struct Ty { const char* n; int par; const char* to; }; static const Ty ty[] = { {"ADVANCED_FACE",2,"B_SPLINE_SURFACE"},{"CLOSED_SHELL",1,"ADVANCED_FACE"},{"MANIFOLD_SOLID_BREP",1,"CLOSED_SHELL"},{"ADVANCED_BREP_SHAPE_REPRESENTATION",1,"MANIFOLD_SOLID_BREP"},{"SHAPE_REPRESENTATION_RELATIONSHIP",2,"SHAPE_REPRESENTATION"},{"SHAPE_REPRESENTATION_RELATIONSHIP",3,"ADVANCED_BREP_SHAPE_REPRESENTATION"},{"SHAPE_DEFINITION_REPRESENTATION",0,"PRODUCT_DEFINITION_SHAPE"},{"SHAPE_DEFINITION_REPRESENTATION",1,"SHAPE_REPRESENTATION"},{"PRODUCT_DEFINITION_SHAPE",2,"PRODUCT_DEFINITION"},{"PRODUCT_DEFINITION",3,"PRODUCT_DEFINITION_CONTEXT"} };
	std::vector<long> surf; std::map<std::string, int> cnt; std::map<long, int> used;
	for (long id : r.order) for (auto& q : r.inst[id]) { cnt[q.name]++; if (q.name == "B_SPLINE_SURFACE") surf.push_back(id); for (auto& t : ty) if (q.name == t.n) { if ((int)q.p.size() <= t.par) { c.fail("types", S() << t.n << " #" << id << " has " << q.p.size() << " parameters"); return; } auto& p = q.p[t.par]; std::vector<const Par*> rs; if (p.k == '(') for (auto& z : p.l) rs.push_back(&z); else rs.push_back(&p); if (rs.empty()) c.fail("types", S() << t.n << " #" << id << " refers to nothing"); for (auto* z : rs) { if (z->k != '#' || !r.get(z->i, t.to)) { c.fail("types", S() << t.n << " #" << id << " refers to something that is not a " << t.to); return; } used[z->i]++; } } }
	MC_CHECK(c, surf.size() == want.size(), "surface-count", surf.size() << " surfaces in the file, " << want.size() << " written"); if (surf.size() != want.size()) return;
	MC_CHECK(c, cnt["SHAPE_DEFINITION_REPRESENTATION"] == 1 && cnt["PRODUCT_DEFINITION"] == 1, "types", "product entities");
	for (size_t k = 0; k < want.size(); k++) {
		MC_CHECK(c, used[surf[k]] >= 1, "surface-unused", "surface " << k << " belongs to no face"); Read o; std::string e = surface(r, surf[k], o); if (e != "") { c.fail("surface", S() << "surface " << k << ": " << e); return; } const SurfSpec& s = want[k].s;
		MC_CHECK(c, o.s.pu == s.pu && o.s.pv == s.pv && o.s.nu == s.nu && o.s.nv == s.nv && o.cu == want[k].cu && o.cv == want[k].cv, "surface-data", "surface " << k << ": degrees " << o.s.pu << "," << o.s.pv << " net " << o.s.nu << "x" << o.s.nv << " closed " << o.cu << o.cv << ", written " << s.pu << "," << s.pv << " " << s.nu << "x" << s.nv << " " << want[k].cu << want[k].cv); if (c.failed_current()) return;
		double big = 0; for (auto& q : s.pt) big = std::max({ big,std::fabs(q.x),std::fabs(q.y),std::fabs(q.z) });
		for (int i = 0; i <= 5; i++) for (int j = 0; j <= 5; j++) { double u = i / 5., w = j / 5.; V a = o.s.eval(u, w), b = s.eval(u, w); if (!(len(a - b) <= 1e-9 * big)) { c.fail("surface-shape", S() << "surface " << k << " read back at " << u << "," << w << " is " << str(a) << ", written " << str(b)); return; } if (i % 2) c.obsp(P(a)); }
	}
}
}
void run(mc::Ctx& c)
{
	std::string f = c.scratch + "/s.stp";
	auto surf1 = [&](const NurbsSurface& n) { ::unlink(f.c_str()); { StepWriter w; w.open(f); MC_CHECK(c, w.is_open(), "open", "not open"); w.write(n); w.close(); } c.step(); verify(c, slurp(f), { spec(n) }); };
	int P = c.bound(4, 5), M = c.bound(2, 3);
	c.section("surfaces", S() << "degrees 1.." << P << " squared, up to " << M << " interior knots per direction in every composition, 6 weight patterns, 4 closed flags, 3 coordinate scales");
	for (int a = 1; a <= P; a++) for (int b = 1; b <= P; b++) for (int m = 0; m <= M; m++) for (int k = 0; k <= M; k++) for (auto& mu : compositions(m, a)) for (auto& mv : compositions(k, b)) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int sc = 0; sc < 3; sc++) {
		SurfSpec s = make_surf(a, b, mu, mv, (w + sc) % 2, w); double z = sc == 0 ? 1 : sc == 1 ? 1e-7 : 3e8; for (auto& q : s.pt) q = q * z; int cl = (a + b + m + k + w) % 4;
		c.test([=] { return S() << s.text() << " closed " << cl; }, [&, s, cl] { NurbsSurface n; s.build(n); n.set_closed_u(cl & 1); n.set_closed_v(cl & 2); surf1(n); });
	}
	c.section("close knots and magnitudes", "two knots of either direction apart by every power of two down to 2^-50, at several places, degrees 1..3; a knot as close to an end; nets and weights of every power of two from 2^-60 to 2^60");
	for (int a = 1; a <= 3; a++) for (int dir = 0; dir < 2; dir++) for (int e = 2; e <= 50; e++) for (int at = 0; at < 6; at++) c.test([=] { return S() << "degree " << a << (dir ? " v" : " u") << " knots apart by 2^-" << e << " place " << at; }, [&, a, dir, e, at] {
		SurfSpec s = dir ? make_surf(2, a, {}, { 1,1 }, 0, at % 3) : make_surf(a, 2, { 1,1 }, {}, 0, at % 3); double g = std::ldexp(1., -e); auto& k = dir ? s.W_ : s.U; double* q = &k[a + 1]; if (at < 3) { q[0] = 0.25 * (at + 1); q[1] = q[0] + g; if (at == 2) { q[0] = 0.75 - g; q[1] = 0.75; } } else if (at == 3) { q[0] = g; q[1] = 0.5; } else if (at == 4) { q[0] = 0.5; q[1] = 1 - g; } else { q[0] = g; q[1] = 1 - g; }
		if (!(q[0] < q[1]) || !(q[1] < 1) || !(q[0] > 0)) return; NurbsSurface n; s.build(n); surf1(n); });
	for (int e = -60; e <= 60; e++) for (int w = 0; w < 3; w++) c.test([=] { return S() << "magnitude 2^" << e << (w == 0 ? " net" : w == 1 ? " weights" : " one weight"); }, [&, e, w] { SurfSpec s = make_surf(2, 1, { 1 }, {}, 1, 4); double z = std::ldexp(1.1, e); if (w == 0) for (auto& q : s.pt) q = q * z; else if (w == 1) for (double& q : s.w) q *= z; else s.w[2] *= z; NurbsSurface n; s.build(n); surf1(n); });
	c.section("primitives", "sphere, torus, disk, cylinder, box, quad and triangle surfaces and solids of several sizes, also after knot insertion and elevation");
	for (int k = 0; k < 9; k++) for (double z : { 1.,0.125,33.3,1e-6,12345.678 }) for (int ed = 0; ed < 3; ed++) c.test([=] { return S() << "primitive " << k << " size " << z << " edit " << ed; }, [&, k, z, ed] {
		NurbsSolid n; NurbsSurface s; switch (k) { case 0: NurbsFactory::create_sphere(z, n); break; case 1: NurbsFactory::create_torus(z, z / 3, n); break; case 2: NurbsFactory::create_cylinder(z, 2 * z, n); break; case 3: NurbsFactory::create_box(z, 2 * z, 3 * z, n); break; case 4: NurbsFactory::create_disk(z, s); break; case 5: NurbsFactory::create_quad(Point3(0, 0, 0), Point3(z, 0, 0), Point3(z, z, 0), Point3(0, z, z), s); break; case 6: NurbsFactory::create_triangle(Point3(0, 0, 0), Point3(z, 0, 0), Point3(z, z, 0), s); break; case 7: NurbsFactory::create_sphere(z, s); break; default: NurbsFactory::create_torus(z, z / 7, s); }
		if (k >= 4) n.add_surface(s); for (auto& q : n.surfaces()) { if (ed == 1) { q.insert_knot_u(0.4); q.insert_knot_v(0.7); q.insert_knot_v(0.7 / 3); } if (ed == 2) { q.degree_elevation_u(); q.degree_elevation_v(); } }
		::unlink(f.c_str()); { StepWriter w; w.open(f); w.write(n); } c.step(); std::vector<Want> want; for (auto& q : n.surfaces()) want.push_back(spec(q)); verify(c, slurp(f), want);
	});
	c.section("magnitudes", "control points, weights and knot ranges of every power of two from 2^-60 to 2^60, and points of very different magnitudes in one net");
	for (int e = -60; e <= 60; e += c.bound(3, 1)) for (int k = 0; k < 4; k++) for (int g = 0; g < 2; g++) c.test([=] { return S() << "2^" << e << " on " << (k == 0 ? "points" : k == 1 ? "weights" : k == 2 ? "knots" : "one point") << (g ? " negative" : ""); }, [&, e, k, g] {
		SurfSpec s = make_surf(2, 3, { 1,1 }, { 1,2 }, 1, 4); double z = std::ldexp(k == 0 && g ? -1.1 : 1.1, e); if (k == 0) for (auto& q : s.pt) q = q * z; if (k == 1) for (auto& q : s.w) q *= z; if (k == 2) for (auto& q : g ? s.W_ : s.U) q *= z; if (k == 3) s.pt[4] = { z,-z,g ? 0 : z }; NurbsSurface n; s.build(n); surf1(n);
	});
	c.section("locales", "the writer built, opened and used under every locale of the program: surfaces of several sizes and of more than a thousand points");
	for (int a = 0; a < NB_LOCALES; a++) for (int b = 0; b < NB_LOCALES; b++) for (int d = 0; d < NB_LOCALES; d++) for (int k = 0; k < 3; k++) c.test([=] { return (S() << "locales " << a << " (construction) " << b << " (opening) " << d << " (writing), surface " << k).str(); }, [&, a, b, d, k] {
		SurfSpec s = k == 2 ? make_surf(1, 2, std::vector<int>(28, 1), std::vector<int>(37, 1), 0, 4) : make_surf(2, 3, { 1,1 }, { 1,2 }, 1, 4); if (k == 1) for (auto& q : s.pt) q = q * 12345.678; NurbsSurface n; s.build(n); ::unlink(f.c_str());
		{ std::unique_ptr<StepWriter> w; { Loc o(a); w.reset(new StepWriter); } { Loc o(b); w->open(f); } { Loc o(d); w->write(n); w->write(n); if (a % 2) w->close(); w.reset(); } } c.step(3); verify(c, slurp(f), { spec(n),spec(n) });
	});
	c.section("large", "nets of one side beside every power of two, of more than 65536 points, and solids of many surfaces");
	for (int k = 8; k <= c.bound(256, 1024); k *= 2) for (int dl = -1; dl <= 1; dl++) for (int t = 0; t < 2; t++) for (int d = 1; d <= 3; d++) c.test([=] { return S() << "net of " << k + dl << (t ? " columns" : " rows") << " degree " << d; }, [&, k, dl, t, d] { std::vector<int> m(k + dl - d - 1, 1), s1(1, 1); NurbsSurface n; (t ? make_surf(1, d, s1, m, 0, 4) : make_surf(d, 1, m, s1, 0, 4)).build(n); surf1(n); });
	for (int k : { 90,129,257,c.bound(258, 300) }) c.test([=] { return S() << "net " << k << "x" << k - 1; }, [&, k] { NurbsSurface n; make_surf(2, 3, std::vector<int>(k - 3, 1), std::vector<int>(k - 5, 1), 0, 4).build(n); surf1(n); });
	for (int k : { 1,9,10,11,99,100,127,128,129,255,256,257,1000,c.bound(1001, 5000) }) for (int t = 0; t < 2; t++) c.test([=] { return S() << k << (t ? " surfaces" : " surfaces of a solid"); }, [&, k, t] {
		NurbsSolid n; std::vector<Want> want; ::unlink(f.c_str()); { StepWriter w; w.open(f); for (int i = 0; i < k; i++) { NurbsSurface s; make_surf(1 + i % 2, 1, std::vector<int>(i % 3, 1), {}, 0, i % NB_WEIGHT_PATTERNS).build(s); if (t) w.write(s); else n.add_surface(s); want.push_back(spec(s)); } if (!t) w.write(n); } c.step(k); verify(c, slurp(f), want);
	});
	int D = c.bound(4, 5); c.section("histories", S() << "every sequence of " << D << " operations: write three kinds of surfaces, a solid, an empty solid, close and reopen the same or another file");
	sequences(7, D, [&](const std::vector<int>& h) { c.test([&, h] { S s; s << "operations (0-2 surface, 3 solid, 4 empty solid, 5 close+open same, 6 close+open other)"; for (int x : h) s << " " << x; return s.str(); }, [&, h] {
		std::string g = c.scratch + "/t.stp"; ::unlink(f.c_str()); ::unlink(g.c_str()); std::string cur = f; std::vector<Want> want; NurbsSurface s[3]; make_surf(2, 1, { 2 }, { 1 }, 1, 4).build(s[0]); make_surf(1, 3, { 1,1,1 }, {}, 0, 0).build(s[1]); s[1].set_closed_v(true); NurbsFactory::create_disk(2, s[2]); NurbsSolid box, none; NurbsFactory::create_cylinder(1, 2, box);
		auto w = std::unique_ptr<StepWriter>(new StepWriter); w->open(cur); for (int x : h) { c.step(); if (x < 3) { w->write(s[x]); want.push_back(spec(s[x])); } else if (x == 3) { w->write(box); for (auto& q : box.surfaces()) want.push_back(spec(q)); } else if (x == 4) w->write(none); else { w->close(); MC_CHECK(c, !w->is_open(), "open", "open after close"); verify(c, slurp(cur), want); if (c.failed_current()) return; want.clear(); if (x == 6) cur = cur == f ? g : f; w->open(cur); MC_CHECK(c, w->is_open(), "open", "cannot be reopened"); } }
		if (h[0] % 2) w->close(); w.reset(); verify(c, slurp(cur), want); c.obs((int)want.size());
	}); });
}
