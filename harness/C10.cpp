// C10: refining a curve never changes its shape.
#include "spline.h"
#include "NurbsFactory.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a sequence of 1 to 12 knot insertions (new, near by as little as 1e-12, or existing parameters up to full multiplicity) and degree elevations on one curve, checked after each step against the original definition in long double; non-trivial = at least one refinement succeeded";

static int mult(const std::vector<double>& k, double u) { return (int)std::count(k.begin(), k.end(), u); }

void run_case(Ctx& c) {
	Gen& g = c.g;
	CurveDef d;
	NurbsCurve nc;
	int src = g.i(0, 9);
	if (src == 0) { NurbsFactory::create_circle(g.mag(0.1, 100), nc); d = def(nc); }
	else {
		bool tight = g.b(0.2);
		if (tight) c.count("very close knots");
		d = gen_curve(g, src == 1 ? 7 : g.i(1, 3), g.b(0.1) ? 40 : 10, tight ? 1e-11 : 1e-5, 600);
		if (g.b(0.3)) dirty(g, nc);
		set(nc, d, &g);
		d = def(nc);
	}
	c.mix(hash(d));
	ld tol = 1e-11L * ext(d) * wratio(d.w) + 1e-300L;
	// the points to keep
	std::vector<double> us = {0., 1.};
	for (int k = 0; k < 12; k++) us.push_back(gen_param(g, d.knots));
	std::vector<V> ref;
	for (double u : us) ref.push_back(eval(d, u));
	std::string ops;
	CurveDef cur = d;
	int steps = g.i(1, 12);
	for (int s = 0; s < steps; s++) {
		if (g.b(0.3)) {
			bool ok = nc.degree_elevation();
			CurveDef n = def(nc);
			ops += " elevate";
			VP_CHECK(ok == (cur.degree < 3), "elevation-result", "elevating degree %d answers %d", cur.degree, ok);
			if (!ok) {
				VP_CHECK(same(n, cur), "elevation-refused", "a refused elevation changed the curve: %s", diff(n, cur).c_str());
				c.count("refused elevations");
				continue;
			}
			VP_CHECK(n.degree == cur.degree + 1, "elevation-degree", "degree %d after elevating %d", n.degree, cur.degree);
			std::vector<double> want;
			for (size_t k = 0; k < cur.knots.size(); k++) { want.push_back(cur.knots[k]); if (k + 1 == cur.knots.size() || cur.knots[k + 1] != cur.knots[k]) want.push_back(cur.knots[k]); }
			VP_CHECK(n.knots.size() == want.size(), "elevation-knots", "%zu knots instead of %zu", n.knots.size(), want.size());
			for (size_t k = 0; k < want.size(); k++) VP_CHECK(std::fabs(n.knots[k] - want[k]) <= 1e-15, "elevation-knots", "knot %zu is %.17g instead of %.17g", k, n.knots[k], want[k]);
			c.count("elevations");
			bool rep = false;
			for (size_t k = cur.degree + 2; k + cur.degree + 1 < cur.knots.size(); k++) if (cur.knots[k] == cur.knots[k - 1]) rep = true;
			if (rep) c.count("elevations with repeated interior knots");
		} else {
			double u = -1;
			bool exist = g.b(0.35);
			for (int t = 0; t < 20 && u < 0; t++) {
				double x = exist ? cur.knots[g.i(0, (int)cur.knots.size() - 1)] : g.b(0.2) ? cur.knots[g.i(0, (int)cur.knots.size() - 1)] + g.sgn() * g.logu(g.b(0.3) ? 1e-14 : 1e-6, 1e-2) : g.param();
				if (!(x > 1e-15 && x < 1 - 1e-15) || mult(cur.knots, x) >= cur.degree) continue;
				bool tooNear = false;
				for (double k : cur.knots) if (k != x && std::fabs(k - x) < (k == 0. || k == 1. ? 1e-15 : 1e-12)) tooNear = true;
				if (!tooNear) u = x;
			}
			if (u < 0) continue;
			int before = mult(cur.knots, u);
			nc.insert_knot(u);
			CurveDef n = def(nc);
			ops += fmt(" insert(%.17g)", u);
			VP_CHECK(n.degree == cur.degree, "insertion-degree", "degree %d after inserting in degree %d", n.degree, cur.degree);
			VP_CHECK(n.p.size() == cur.p.size() + 1 && n.w.size() == n.p.size(), "insertion-points", "%zu points, %zu weights after inserting in %zu", n.p.size(), n.w.size(), cur.p.size());
			std::vector<double> want = cur.knots;
			want.insert(std::upper_bound(want.begin(), want.end(), u), u);
			VP_CHECK(n.knots.size() == want.size(), "insertion-knots", "%zu knots instead of %zu", n.knots.size(), want.size());
			for (size_t k = 0; k < want.size(); k++) VP_CHECK(std::fabs(n.knots[k] - want[k]) <= 1e-15, "insertion-knots", "knot %zu is %.17g instead of %.17g", k, n.knots[k], want[k]);
			c.count(before ? "insertions at an existing knot" : "insertions at a new parameter");
			for (double k : cur.knots) if (k != u && std::fabs(k - u) < 1e-7) { c.count("insertions very close to a knot"); break; }
			if (before + 1 == cur.degree) c.count("insertions to full multiplicity");
		}
		cur = def(nc);
		c.nontrivial = true;
		VP_CHECK(cur.p.size() == cur.w.size() && cur.knots.size() == cur.p.size() + cur.degree + 1, "sizes", "%zu points, %zu weights, %zu knots, degree %d after%s", cur.p.size(), cur.w.size(), cur.knots.size(), cur.degree, ops.c_str());
		for (size_t k = 0; k < us.size(); k++) {
			// by the library and by the definition, so that it is the curve that is right
			Point3 p; nc.evaluate(us[k], p);
			VP_CHECK(absmax(V(p) - ref[k]) <= tol * (s + 1), "shape", "the point at %.17g moved from %s to %s after%s", us[k], str(ref[k]).c_str(), str(p).c_str(), ops.c_str());
			VP_CHECK(absmax(eval(cur, us[k]) - ref[k]) <= tol * (s + 1), "shape", "the defined point at %.17g moved from %s to %s after%s", us[k], str(ref[k]).c_str(), str(eval(cur, us[k])).c_str(), ops.c_str());
		}
		// new parameters, next to the refined places
		for (int k = 0; k < 3; k++) {
			double u = gen_param(g, cur.knots);
			Point3 p; nc.evaluate(u, p);
			VP_CHECK(absmax(V(p) - eval(d, u)) <= tol * (s + 1), "shape", "the point at %.17g moved from %s to %s after%s", u, str(eval(d, u)).c_str(), str(p).c_str(), ops.c_str());
		}
		for (double w : cur.w) VP_CHECK(w > 0, "weights", "weight %g after%s", w, ops.c_str());
		if (c.verbose) printf("%s\n", ops.c_str());
	}
	c.desc("degree %d, %zu points:%s", d.degree, d.p.size(), ops.substr(0, 160).c_str());
}
}
