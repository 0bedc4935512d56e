// C12: extruded, ruled and revolved surfaces are exact.
#include "spline.h"
#include "NurbsFactory.h"
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
#include "NurbsRevolve.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a profile curve (any degree, knots, weights; open, closed, touching or lying on the axis) extruded, ruled with a compatible curve or revolved into a fresh or used surface, compared at up to 20 parameter pairs with the definition in long double; non-trivial = always, distinct by profile";

static ld angle_of(ld u) { // of the nine-point circle, in turns
	ld q = u * 4; int k = std::min(3, (int)q); ld t = q - k;
	ld w = 1 / sqrtl(2.L), b0 = (1 - t) * (1 - t), b1 = 2 * t * (1 - t) * w, b2 = t * t;
	return (k + atan2l(b1 + b2, b0 + b1) / (acosl(-1.L) / 2)) / 4;
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	CurveDef d = gen_curve(g, 6, g.b(0.05) ? 40 : 12, 1e-5, 600);
	if (g.b(0.15)) d.p.back() = d.p[0] + g.dir() * g.b() * 1e-8; // closed
	NurbsCurve nc; 
	if (g.b(0.15)) { NurbsFactory::create_circle(g.mag(0.1, 50), nc); if (g.b()) for (auto& p : nc.points()) p += Point3(3, 2, 1); }
	else set(nc, d, &g);
	d = def(nc);
	c.mix(hash(d)); c.nontrivial = true;
	bool closed = nc.is_closed();
	ld gap = (V(d.p[0]) - V(d.p.back())).n();
	VP_CHECK(fabsl(gap - 1e-6L) < 1e-9L || closed == (gap < 1e-6L), "closed", "profile ends at %Lg, is_closed %d", gap, closed);
	NurbsSurface s;
	bool used = g.b();
	if (used) dirty(g, s);
	int kind = g.i(0, 2);
	ld wr = wratio(d.w), e = ext(d);
	c.desc("%s of degree %d, %zu points%s%s", kind == 0 ? "extrusion" : kind == 1 ? "ruled" : "revolution", d.degree, d.p.size(), closed ? ", closed" : "", used ? ", used output" : "");
	SurfDef r;
	const std::vector<double> lin = {0., 0., 1., 1.};
	if (closed) c.count("closed profiles");
	if (kind == 0) {
		Point3 dir = g.b(0.1) ? Point3(0, 0, 0) : g.spt(g.mag(0.01, 100));
		VP_CHECK(NurbsExtrude().extrude(nc, dir, s), "result", "extrusion fails");
		r = def(s);
		VP_CHECK(r.du == d.degree && r.dv == 1 && r.nu == (int)d.p.size() && r.nv == 2 && r.ku == d.knots && r.kv == lin && r.w.size() == r.p.size() && r.p.size() == 2 * d.p.size(), "structure", "extrusion has degrees %d,%d and %dx%d points", r.du, r.dv, r.nu, r.nv);
		VP_CHECK(r.cu == closed && !r.cv, "closed-flags", "extrusion of a %s curve has flags %d,%d", closed ? "closed" : "open", r.cu, r.cv);
		for (int k = 0; k < 12; k++) {
			double u = gen_param(g, d.knots), v = g.param();
			Point3 p; s.evaluate(u, v, p);
			V w = eval(d, u) + V(dir) * v;
			VP_CHECK(absmax(V(p) - w) <= 1e-12L * wr * (e + absmax(V(dir))), "extrusion", "(%.17g,%.17g) is %s instead of %s", u, v, str(p).c_str(), str(w).c_str());
		}
		c.count("extrusions");
	} else if (kind == 1) {
		CurveDef b = d;
		for (auto& p : b.p) p = g.spt((double)std::max(e, 0.01L));
		bool eqw = g.b();
		if (!eqw) { b.w = gen_weights(g, (int)b.p.size()); }
		if (g.b(0.4)) b.p.back() = b.p[0];
		NurbsCurve nb; set(nb, b, &g); b = def(nb); b.knots = d.knots;
		bool self = g.b(0.05);
		if (self) { nb = nc; b = d; eqw = true; c.count("ruled with itself"); } // degenerate but defined
		VP_CHECK(NurbsRuled().create_ruled(nc, self && g.b() ? nc : nb, s), "result", "ruled surface fails");
		r = def(s);
		VP_CHECK(r.du == d.degree && r.dv == 1 && r.nu == (int)d.p.size() && r.nv == 2 && r.ku == d.knots && r.kv == lin && r.w.size() == r.p.size() && r.p.size() == 2 * d.p.size(), "structure", "ruled surface has degrees %d,%d and %dx%d points", r.du, r.dv, r.nu, r.nv);
		bool cl = closed && nb.is_closed();
		VP_CHECK(r.cu == cl && !r.cv, "closed-flags", "ruled surface of %d and %d closed curves has flags %d,%d", closed, nb.is_closed(), r.cu, r.cv);
		ld wr2 = std::max((ld)*std::max_element(d.w.begin(), d.w.end()), (ld)*std::max_element(b.w.begin(), b.w.end())) / std::min((ld)*std::min_element(d.w.begin(), d.w.end()), (ld)*std::min_element(b.w.begin(), b.w.end()));
		for (int k = 0; k < 12; k++) {
			double u = gen_param(g, d.knots), v = g.param();
			Point3 p; s.evaluate(u, v, p);
			auto n = basis(d.knots, d.degree, u);
			H h;
			for (size_t i = 0; i < d.p.size(); i++) { h.add(d.p[i], d.w[i], n[i] * (1 - (ld)v)); h.add(b.p[i], b.w[i], n[i] * v); }
			V w = eqw ? eval(d, u) * (1 - (ld)v) + eval(b, u) * v : h.get();
			VP_CHECK(absmax(V(p) - w) <= 1e-12L * wr2 * std::max(e, ext(b)), "ruled", "(%.17g,%.17g) is %s instead of %s", u, v, str(p).c_str(), str(w).c_str());
		}
		VP_CHECK(same(def(nb), [&] { CurveDef x = b; x.knots = def(nb).knots; return x; }()), "input", "the second curve changed");
		c.count(eqw ? "ruled surfaces with equal weights" : "ruled surfaces with different weights");
	} else {
		VP_CHECK(NurbsRevolve().revolve(nc, s), "result", "revolution fails");
		r = def(s);
		VP_CHECK(r.du == 2 && r.dv == d.degree && r.nv == (int)d.p.size() && r.kv == d.knots && r.p.size() == (size_t)r.nu * r.nv && r.w.size() == r.p.size(), "structure", "revolution has degrees %d,%d and %dx%d points", r.du, r.dv, r.nu, r.nv);
		VP_CHECK(r.cu && r.cv == closed, "closed-flags", "revolution of a %s curve has flags %d,%d", closed ? "closed" : "open", r.cu, r.cv);
		// the surface turns like the nine-point circle, one way or the other, by the same angle for each profile point
		int dirn = 0;
		ld tol = 4e-12L * wr * e;
		for (int k = 0; k < 20; k++) {
			double v = gen_param(g, d.knots), u = k < 2 ? (double)k : g.b(0.3) ? g.i(0, 16) / 16. : g.u01();
			Point3 p; s.evaluate(u, v, p);
			V q = eval(d, v);
			VP_CHECK(fabsl(p._z - q.z) <= tol, "revolution-height", "(%.17g,%.17g) is at height %.17g instead of %.17Lg", u, v, p._z, q.z);
			VP_CHECK(fabsl(hypotl(p._x, p._y) - hypotl(q.x, q.y)) <= tol, "revolution-radius", "(%.17g,%.17g) is at radius %.17Lg instead of %.17Lg", u, v, hypotl(p._x, p._y), hypotl(q.x, q.y));
			ld t = angle_of(u) * 2 * acosl(-1.L);
			bool ok = false;
			for (int sg : {1, -1}) {
				if (dirn && sg != dirn) continue;
				ld x = q.x * cosl(t) - sg * q.y * sinl(t), y = q.y * cosl(t) + sg * q.x * sinl(t);
				if (fabsl(p._x - x) <= tol && fabsl(p._y - y) <= tol) {
					ok = true;
					ld x2 = q.x * cosl(t) + sg * q.y * sinl(t), y2 = q.y * cosl(t) - sg * q.x * sinl(t);
					if (fabsl(x - x2) + fabsl(y - y2) > 10 * tol) dirn = sg;
					break;
				}
			}
			VP_CHECK(ok, "revolution-angle", "(%.17g,%.17g) is %s, not the profile point %s turned by %Lg degrees", u, v, str(p).c_str(), str(q).c_str(), angle_of(u) * 360);
		}
		c.count("revolutions");
	}
	VP_CHECK(same(def(nc), d), "input", "the profile curve changed: %s", diff(def(nc), d).c_str());
	// structure, not the former content, decides
	NurbsSurface s2;
	(void)s2;
	if (g.b(0.3)) { // used as output again
		NurbsCurve k2; CurveDef d2 = gen_curve(g, 3, 6); set(k2, d2);
		if (g.b()) NurbsExtrude().extrude(k2, Point3(1, 2, 3), s); else NurbsRevolve().revolve(k2, s);
		SurfDef x = def(s);
		Point3 p; double v = g.param();
		s.evaluate(g.param(), v, p);
		VP_CHECK(finite(p) && x.p.size() == (size_t)x.nu * x.nv && x.w.size() == x.p.size(), "reuse", "reusing the surface leaves %zu points for %dx%d", x.p.size(), x.nu, x.nv);
		c.count("outputs reused");
	}
}
}
