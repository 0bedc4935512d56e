// C11: surface evaluation is the tensor product and survives refinement.
#include "spline.h"
#include "NurbsFactory.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a surface (degrees 1 to 6, non-square grids, any clamped knots, positive weights) built in a fresh or used object, evaluated in random order against the tensor-product definition in long double, then refined 0 to 8 times in both directions and compared again with the original definition; non-trivial = always, distinct by content";

static ld tol1(const SurfDef& d) { return 1e-12L * ext(d) * wratio(d.w) + 1e-300L; }
static void against(Ctx& c, const NurbsSurface& s, const SurfDef& d, int n, ld tol, const std::string& what, const char* key) {
	Gen& g = c.g;
	struct Q { double u, v; };
	std::vector<Q> q;
	for (int k = 0; k < n; k++) q.push_back({gen_param(g, d.ku), gen_param(g, d.kv)});
	for (int k = 0; k < 2; k++) q.push_back({(double)g.i(0, 1), g.b() ? (double)g.i(0, 1) : gen_param(g, d.kv)});
	g.shuffle(q);
	std::vector<Point3> first;
	for (auto& x : q) {
		Point3 p = g.anypt();
		s.evaluate(x.u, x.v, p);
		V w = eval(d, x.u, x.v);
		VP_CHECK(absmax(V(p) - w) <= tol, key, "degrees %d,%d, %dx%d points at (%.17g,%.17g)%s: %s instead of %s", d.du, d.dv, d.nu, d.nv, x.u, x.v, what.c_str(), str(p).c_str(), str(w).c_str());
		first.push_back(p);
		c.count("evaluations");
	}
	int k = g.i(0, (int)q.size() - 1);
	Point3 again; s.evaluate(q[k].u, q[k].v, again);
	VP_CHECK(same_bits(again, first[k]), "order", "evaluating (%.17g,%.17g) again gives another point", q[k].u, q[k].v);
}
static void knots_ok(const std::vector<double>& got, const std::vector<double>& want, const char* key, const char* what, double tol = 1e-15) {
	VP_CHECK(got.size() == want.size(), key, "%zu %s knots instead of %zu", got.size(), what, want.size());
	for (size_t k = 0; k < want.size(); k++) VP_CHECK(std::fabs(got[k] - want[k]) <= tol, key, "%s knot %zu is %.17g instead of %.17g", what, k, got[k], want[k]);
}
static std::vector<double> uniform(int deg, int n) {
	std::vector<double> k(deg + 1, 0.);
	for (int i = 1; i < n - deg; i++) k.push_back((double)i / (n - deg));
	for (int i = 0; i <= deg; i++) k.push_back(1.);
	return k;
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	SurfDef d;
	bool refine = g.b(0.6);
	bool tight = !refine && g.b(0.3); // knots very close to each other
	if (tight) c.count("very close knots");
	d = gen_surface(g, refine ? g.i(1, 4) : 6, g.b(0.05) ? 16 : 8, tight ? 1e-9 : 1e-5, 300);
	NurbsSurface s;
	bool used = g.b(0.4);
	if (used) { dirty(g, s); if (g.b()) s.clear(); }
	set(s, d, &g);
	bool uu = g.b(0.15), uv = g.b(0.15), eq = g.b(0.15);
	if (uu) { s.set_uniform_u(); d.ku = uniform(d.du, d.nu); }
	if (uv) { s.set_uniform_v(); d.kv = uniform(d.dv, d.nv); }
	if (eq) { s.set_equals_weights(); d.w.assign(d.p.size(), 1.); }
	c.mix(hash(d)); c.nontrivial = true;
	SurfDef h = def(s);
	knots_ok(h.ku, norm_knots(d.ku), "knots", "u");
	knots_ok(h.kv, norm_knots(d.kv), "knots", "v");
	{ SurfDef x = d; x.ku = h.ku; x.kv = h.kv; std::string df = diff(h, x); VP_CHECK(df.empty(), "stored", "%s", df.c_str()); }
	against(c, s, h, g.i(2, 10), tol1(h), "", "definition");
	if (d.nu != d.nv) c.count("non-square grids");
	if (d.du != d.dv) c.count("unequal degrees");
	// borders
	{
		bool alongU = g.b(), end = g.b();
		CurveDef b;
		b.degree = alongU ? h.du : h.dv; b.knots = alongU ? h.ku : h.kv;
		for (int k = 0; k < (alongU ? h.nu : h.nv); k++) {
			int i = alongU ? k + h.nu * (end ? h.nv - 1 : 0) : (end ? h.nu - 1 : 0) + h.nu * k;
			b.p.push_back(h.p[i]); b.w.push_back(h.w[i]);
		}
		NurbsCurve nb; set(nb, b);
		double t = gen_param(g, b.knots);
		Point3 p, q; nb.evaluate(t, p);
		if (alongU) s.evaluate(t, end, q); else s.evaluate(end, t, q);
		VP_CHECK(absmax(V(p) - V(q)) <= 2 * tol1(h), "border", "border point %s, curve of the border points %s", str(q).c_str(), str(p).c_str());
		c.count("borders");
	}
	std::string ops;
	if (refine) {
		SurfDef cur = h;
		for (int k = g.i(1, 8); k > 0; k--) {
			bool dirU = g.b();
			int& deg = dirU ? cur.du : cur.dv;
			std::vector<double>& kn = dirU ? cur.ku : cur.kv;
			int& cnt = dirU ? cur.nu : cur.nv;
			if (g.b(0.35)) {
				bool ok = dirU ? s.degree_elevation_u() : s.degree_elevation_v();
				ops += dirU ? " elevateU" : " elevateV";
				VP_CHECK(ok == (deg < 3), "elevation-result", "elevating degree %d answers %d", deg, ok);
				if (!ok) { SurfDef n = def(s); VP_CHECK(same(n, cur), "elevation-refused", "a refused elevation changed the surface: %s", diff(n, cur).c_str()); c.count("refused elevations"); continue; }
				std::vector<double> want; int spans = 0;
				for (size_t q = 0; q < kn.size(); q++) { want.push_back(kn[q]); if (q + 1 == kn.size() || kn[q + 1] != kn[q]) { want.push_back(kn[q]); spans++; } }
				deg++; cnt += spans - 1; kn = want;
				c.count(dirU ? "elevations u" : "elevations v");
			} else {
				double u = -1;
				for (int t = 0; t < 20 && u < 0; t++) {
					double x = g.b(0.35) ? kn[g.i(0, (int)kn.size() - 1)] : g.param();
					if (!(x > 1e-6 && x < 1 - 1e-6) || std::count(kn.begin(), kn.end(), x) >= deg) continue;
					bool nearK = false;
					for (double q : kn) if (q != x && std::fabs(q - x) < 1e-6) nearK = true;
					if (!nearK) u = x;
				}
				if (u < 0) continue;
				if (std::count(kn.begin(), kn.end(), u)) c.count("insertions at an existing knot");
				if (dirU) s.insert_knot_u(u); else s.insert_knot_v(u);
				ops += fmt(" insert%s(%.9g)", dirU ? "U" : "V", u);
				kn.insert(std::upper_bound(kn.begin(), kn.end(), u), u);
				cnt++;
				c.count(dirU ? "insertions u" : "insertions v");
			}
			SurfDef n = def(s);
			VP_CHECK(n.du == cur.du && n.dv == cur.dv, "refined-degree", "degrees %d,%d instead of %d,%d after%s", n.du, n.dv, cur.du, cur.dv, ops.c_str());
			VP_CHECK(n.nu == cur.nu && n.nv == cur.nv && n.p.size() == (size_t)n.nu * n.nv && n.w.size() == n.p.size(), "refined-size", "%dx%d points (%zu, %zu weights) instead of %dx%d after%s", n.nu, n.nv, n.p.size(), n.w.size(), cur.nu, cur.nv, ops.c_str());
			VP_CHECK(n.cu == cur.cu && n.cv == cur.cv, "refined-closed", "closed flags changed after%s", ops.c_str());
			knots_ok(n.ku, cur.ku, "refined-knots", "u"); knots_ok(n.kv, cur.kv, "refined-knots", "v");
			cur = n;
			for (int q = 0; q < 4; q++) {
				double u = g.b() ? gen_param(g, cur.ku) : gen_param(g, h.ku), v = g.b() ? gen_param(g, cur.kv) : gen_param(g, h.kv);
				Point3 p; s.evaluate(u, v, p);
				V w = eval(h, u, v);
				VP_CHECK(absmax(V(p) - w) <= 30 * tol1(h), "shape", "(%.17g,%.17g) moved from %s to %s after%s", u, v, str(w).c_str(), str(p).c_str(), ops.c_str());
			}
		}
	} else if (g.b(0.3)) {
		SurfDef x = gen_surface(g, 4, 6);
		set(s, x, &g);
		x = def(s);
		against(c, s, x, 3, tol1(x), " (reused object)", "reused");
		c.count("reused objects");
	} else if (g.b(0.3)) { // accessors give the live points and weights
		for (auto& p : s.points()) if (g.b()) p += g.pt(1.);
		for (auto& w : s.weights()) if (g.b()) w *= g.u(0.5, 2.);
		SurfDef x = def(s);
		against(c, s, x, 3, tol1(x), " (edited)", "edited");
	}
	c.desc("degrees %d,%d, %dx%d points%s%s", d.du, d.dv, d.nu, d.nv, used ? ", used object" : "", ops.substr(0, 160).c_str());
}
}
