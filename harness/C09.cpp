// C09: curve evaluation equals the rational B-spline definition.
#include "spline.h"
#include "NurbsFactory.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a curve (degree 1 to 7, clamped knots of any spacing, multiplicity and range, positive weights, any points) built in a fresh or used object, evaluated at up to 30 parameters in random order; compared with the Cox-de Boor definition in long double; non-trivial = at least one parameter strictly inside";

static void against(Ctx& c, const NurbsCurve& nc, const CurveDef& d, int n, const char* key) {
	Gen& g = c.g;
	ld tol = 1e-12L * ext(d) * wratio(d.w) + 1e-300L;
	std::vector<double> us = {0., 1.};
	for (int k = 0; k < n; k++) us.push_back(gen_param(g, d.knots));
	g.shuffle(us);
	std::vector<Point3> first;
	for (double u : us) {
		Point3 p = g.anypt(); // the former content must not matter
		nc.evaluate(u, p);
		V w = eval(d, u);
		VP_CHECK(absmax(V(p) - w) <= tol, key, "degree %d, %zu points, u=%.17g: %s instead of %s", d.degree, d.p.size(), u, str(p).c_str(), str(w).c_str());
		first.push_back(p);
		c.count("evaluations");
	}
	size_t k = g.i(0, (int)us.size() - 1);
	Point3 again; nc.evaluate(us[k], again);
	VP_CHECK(same_bits(again, first[k]), "order", "evaluating u=%.17g again gives another point", us[k]);
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	bool tight = g.b(0.2); // knots very close to each other
	CurveDef d = gen_curve(g, c.thorough ? 9 : 7, g.b(0.05) ? 60 : 16, tight ? 1e-9 : 1e-5, 1100);
	NurbsCurve nc;
	bool used = g.b(0.4);
	if (used) { dirty(g, nc); if (g.b()) nc.clear(); }
	bool uniform = g.b(0.15), equal = g.b(0.15), factory = g.b(0.1);
	if (factory) {
		NurbsFactory::create_curve_from_points(d.p, d.degree, nc);
		uniform = equal = true;
	} else {
		set(nc, d, &g);
		if (uniform) nc.set_uniform();
		if (equal) nc.set_equals_weights();
	}
	if (uniform) {
		int n = (int)d.p.size();
		d.knots.assign(d.degree + 1, 0.);
		for (int i = 1; i < n - d.degree; i++) d.knots.push_back(i);
		for (int i = 0; i <= d.degree; i++) d.knots.push_back(n - d.degree);
	}
	if (equal) d.w.assign(d.p.size(), 1.);
	c.mix(hash(d));
	c.nontrivial = true;
	c.desc("degree %d, %zu points, %s%s%s%s", d.degree, d.p.size(), d.rational() ? "rational" : "polynomial", uniform ? ", uniform" : "", factory ? ", from points" : "", used ? ", used object" : "");
	if (d.rational()) c.count("rational curves"); else c.count("polynomial curves");
	// what is stored
	CurveDef h = def(nc);
	VP_CHECK(h.degree == d.degree, "stored", "degree %d instead of %d", h.degree, d.degree);
	{ CurveDef x = d; x.knots = h.knots; std::string df = diff(h, x); VP_CHECK(df.empty(), "stored", "%s", df.c_str()); }
	auto nk = norm_knots(d.knots);
	VP_CHECK(h.knots.size() == nk.size(), "knots", "%zu knots instead of %zu", h.knots.size(), nk.size());
	bool rep = false;
	for (size_t k = 0; k < nk.size(); k++) {
		VP_CHECK(std::fabs(h.knots[k] - nk[k]) <= 1e-15, "knots", "knot %zu is %.17g instead of %.17g", k, h.knots[k], nk[k]);
		if (k) VP_CHECK((h.knots[k] == h.knots[k - 1]) == (d.knots[k] == d.knots[k - 1]) && h.knots[k] >= h.knots[k - 1], "knots", "multiplicity of knot %zu changed", k);
		if (k > (size_t)d.degree + 1 && k < nk.size() - d.degree - 1 && d.knots[k] == d.knots[k - 1]) rep = true;
	}
	VP_CHECK(h.knots[0] == 0. && h.knots.back() == 1., "knots", "the knots do not go from 0 to 1");
	if (rep) c.count("curves with repeated interior knots");
	against(c, nc, h, g.i(3, 28), "definition");
	CurveDef after = def(nc);
	VP_CHECK(same(after, h), "changed", "evaluating changed the curve: %s", diff(after, h).c_str());
	// spans
	for (int k = 0; k < 3; k++) {
		double u = gen_param(g, h.knots);
		int s = NurbsCurve::find_knot_span(h.knots, u);
		bool ok = s >= 0 && s + 1 < (int)h.knots.size() && (u < 1. ? h.knots[s] <= u && u < h.knots[s + 1] : h.knots[s] < 1. && h.knots[s + 1] == 1.);
		VP_CHECK(ok, "span", "span %d for u=%.17g", s, u);
	}
	// polyline
	if (g.b(0.4)) {
		std::vector<Point3> pl(g.i(0, 5));
		nc.to_polyline(pl);
		ld tol = 1e-11L * ext(h) * wratio(h.w) + 1e-300L;
		VP_CHECK(pl.size() >= 2, "polyline", "%zu points", pl.size());
		for (size_t k = 0; k < pl.size(); k++) {
			V w = eval(h, (ld)k / (pl.size() - 1));
			// the parameter is a rounded fraction: the curve moves at most this much
			CurveDef& q = h;
			ld move = 0;
			{ ld e = 4e-16L, x = (ld)k / (pl.size() - 1); move = absmax(eval(q, std::min(1.L, x + e)) - eval(q, std::max(0.L, x - e))); }
			VP_CHECK(absmax(V(pl[k]) - w) <= tol + move, "polyline", "point %zu of %zu is %s instead of %s", k, pl.size(), str(pl[k]).c_str(), str(w).c_str());
		}
		VP_CHECK(absmax(V(pl[0]) - V(h.p[0])) <= tol && absmax(V(pl.back()) - V(h.p.back())) <= tol, "polyline", "the polyline goes from %s to %s, the curve from %s to %s", str(pl[0]).c_str(), str(pl.back()).c_str(), str(h.p[0]).c_str(), str(h.p.back()).c_str());
		c.count("polylines");
	}
	// closedness
	{
		ld gap = (V(h.p[0]) - V(h.p.back())).n();
		double tol = g.b() ? 1e-6 : g.mag(1e-9, 1e3);
		bool df = tol == 1e-6 && g.b();
		if (fabsl(gap - tol) > 1e-9L * tol) {
			bool is = df ? nc.is_closed() : nc.is_closed(tol);
			VP_CHECK(is == (gap < tol), "closed", "ends at %Lg, tolerance %g: is_closed %d", gap, tol, is);
			c.count(is ? "closed curves" : "open curves");
		}
		if (g.b(0.05)) { NurbsCurve e; VP_CHECK(!e.is_closed(), "closed", "an empty curve is closed"); std::vector<Point3> pl(3); e.to_polyline(pl); VP_CHECK(pl.empty(), "polyline", "an empty curve has a polyline"); }
	}
	// invariances
	if (tight) { c.count("very close knots"); if (!uniform) return; } // other operations are ill conditioned there
	int inv = g.i(0, 4);
	CurveDef e = h;
	if (inv == 0) { double k = g.mag(1e-3, 1e3); for (double& w : e.w) w *= k; }
	if (inv == 1) { double k = g.mag(1e-2, 1e2), o = g.u(-50, 50); for (double& x : e.knots) x = x * k + o; bool ok = true; for (size_t q = 1; q < e.knots.size(); q++) if ((e.knots[q] == e.knots[q - 1]) != (h.knots[q] == h.knots[q - 1])) ok = false; if (!ok) e.knots = h.knots; }
	if (inv == 2) { std::reverse(e.p.begin(), e.p.end()); std::reverse(e.w.begin(), e.w.end()); std::reverse(e.knots.begin(), e.knots.end()); for (double& x : e.knots) x = -x; }
	if (inv <= 2) {
		NurbsCurve n2; set(n2, e, &g);
		ld tol = 1e-10L * ext(h) * wratio(h.w) + 1e-300L;
		CurveDef e2 = def(n2);
		for (int k = 0; k < 4; k++) {
			double u = g.u01();
			bool near = false; // a parameter next to a knot may fall on the other side after rounding; curves may even be discontinuous in slope only, so this is for speed of variation
			for (double x : h.knots) if (std::fabs(x - u) < 1e-9) near = true;
			if (near) continue;
			Point3 a, b; nc.evaluate(u, a); n2.evaluate(inv == 2 ? 1. - u : u, b);
			ld mv = absmax(eval(h, std::min(1.L, u + 1e-13L)) - eval(h, std::max(0.L, u - 1e-13L)));
			VP_CHECK(absmax(V(a) - V(b)) <= tol + 10 * mv, "invariance", "%s changes the curve at %.17g: %s / %s", inv == 0 ? "scaling the weights" : inv == 1 ? "scaling the knots" : "reversing", u, str(a).c_str(), str(b).c_str());
		}
		c.count("invariances");
	}
	if (inv == 3) { // the same object takes another definition
		CurveDef x = gen_curve(g);
		set(nc, x, &g);
		x = def(nc);
		against(c, nc, x, 5, "reused");
		c.count("reused objects");
	}
	if (inv == 4) { // editing the points in place
		for (auto& p : nc.points()) if (g.b(0.5)) p += g.pt(1.);
		against(c, nc, def(nc), 5, "edited");
	}
}
}
