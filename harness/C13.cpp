// C13: spline primitives are analytically exact.
#include "spline.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
using namespace vp;
namespace vp {
const char* kRule = "case = one spline primitive (circle, disk, sphere, torus, cylinder, box, quad, triangle, curve from points, height field, mesh) of random size built into a fresh or used object, judged by the implicit equation, coverage, orientation, borders and enclosed volume; distinct = kind and sizes";

static const ld PI = acosl(-1.L);
static V evs(const NurbsSurface& s, double u, double v) { Point3 p; s.evaluate(u, v, p); return V(p); }
static V normal(const SurfDef& d, ld u, ld v) { // not normalised, S_u x S_v
	const ld h = 1e-6L;
	return ((eval(d, u + h, v) - eval(d, u - h, v)) / (2 * h)).cross((eval(d, u, v + h) - eval(d, u, v - h)) / (2 * h));
}
// volume enclosed (flux of p/3) and area by Gauss quadrature on each knot span
static void integrate(const SurfDef& d, ld& vol, ld& area) {
	static const ld X[6] = {-0.932469514203152L, -0.661209386466265L, -0.238619186083197L, 0.238619186083197L, 0.661209386466265L, 0.932469514203152L};
	static const ld W[6] = {0.171324492379170L, 0.360761573048139L, 0.467913934572691L, 0.467913934572691L, 0.360761573048139L, 0.171324492379170L};
	for (size_t a = 0; a + 1 < d.ku.size(); a++) if (d.ku[a] < d.ku[a + 1]) for (size_t b = 0; b + 1 < d.kv.size(); b++) if (d.kv[b] < d.kv[b + 1]) {
		ld hu = ((ld)d.ku[a + 1] - d.ku[a]) / 2, hv = ((ld)d.kv[b + 1] - d.kv[b]) / 2;
		for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
			ld u = d.ku[a] + hu * (1 + X[i]), v = d.kv[b] + hv * (1 + X[j]);
			V n = normal(d, u, v);
			vol += eval(d, u, v).dot(n) / 3 * hu * hv * W[i] * W[j];
			area += n.n() * hu * hv * W[i] * W[j];
		}
	}
}
static void check_total(const NurbsSolid& s, ld vol, ld area, const char* key) {
	ld gv = 0, ga = 0;
	for (auto& f : s.surfaces()) integrate(def(f), gv, ga);
	VP_CHECK(fabsl(gv - vol) <= 2e-4L * fabsl(vol), key, "enclosed volume %.12Lg instead of %.12Lg", gv, vol);
	VP_CHECK(fabsl(ga - area) <= 2e-4L * area, key, "area %.12Lg instead of %.12Lg", ga, area);
}
// angle of the points met while u goes from 0 to 1: monotone, in total turns
static ld turns(Ctx& c, const std::function<V(double)>& f, const char* key) {
	int n = c.g.i(9, 40);
	ld total = 0; int sg = 0;
	V last = f(0);
	for (int k = 1; k <= n; k++) {
		V p = f((double)k / n);
		ld a = atan2l(last.x * p.y - last.y * p.x, last.x * p.x + last.y * p.y);
		VP_CHECK(a != 0 && (sg == 0 || (a > 0) == (sg > 0)), key, "the angle goes back or stops at u=%g", (double)k / n);
		sg = a > 0 ? 1 : -1;
		total += a; last = p;
	}
	return total / (2 * PI);
}
static void one_turn(Ctx& c, const std::function<V(double)>& f, const char* key) {
	ld t = turns(c, f, key);
	VP_CHECK(fabsl(fabsl(t) - 1) < 1e-9L, key, "%Lg turns instead of one", t);
}
static void outward(Ctx& c, const NurbsSurface& s, const std::function<V(const V&)>& n, const char* key) {
	SurfDef d = def(s);
	for (int k = 0; k < 6; k++) {
		ld u = c.g.u(0.01, 0.99), v = c.g.u(0.01, 0.99);
		V q = normal(d, u, v), w = n(eval(d, u, v));
		VP_CHECK(q.dot(w) > 0.99L * q.n() * w.n(), key, "the normal at (%Lg,%Lg) is %s, outside is %s", u, v, str(q / q.n()).c_str(), str(w / w.n()).c_str());
	}
}
static double R(Gen& g) { return g.mag(1e-5, 1e5); }

static void sphere(Ctx& c, const NurbsSurface& s, double r) {
	Gen& g = c.g;
	for (int k = 0; k < 15; k++) {
		double u = g.param(), v = g.param();
		V p = evs(s, u, v);
		VP_CHECK(fabsl(p.n() - r) <= 1e-12L * r, "sphere", "(%.17g,%.17g) is at %.17Lg of the centre, radius %.17g", u, v, p.n(), r);
	}
	double vm = g.u(0.05, 0.95), um = g.param();
	one_turn(c, [&](double u) { return evs(s, u, vm); }, "sphere-coverage");
	ld last = evs(s, um, 0).z;
	VP_CHECK(fabsl(fabsl(last) - r) <= 1e-12L * r && fabsl(evs(s, um, 1).z + last) <= 1e-12L * r, "sphere-coverage", "v does not go from pole to pole");
	ld dirn = -last;
	for (int k = 1; k <= 12; k++) { ld z = evs(s, um, k / 12.).z; VP_CHECK((z - last) * dirn > 0, "sphere-coverage", "the latitude goes back at v=%g", k / 12.); last = z; }
}
static void torus(Ctx& c, const NurbsSurface& s, double a, double b) {
	Gen& g = c.g;
	for (int k = 0; k < 15; k++) {
		double u = g.param(), v = g.param();
		V p = evs(s, u, v);
		ld q = hypotl(hypotl(p.x, p.y) - a, p.z), q2 = hypotl(-hypotl(p.x, p.y) - a, p.z); // the tube may cross the axis
		if (b > a && fabsl(q2 - b) < fabsl(q - b)) q = q2;
		VP_CHECK(fabsl(q - b) <= 1e-11L * (a + b), "torus", "(%.17g,%.17g) is at %.17Lg of the ring, minor radius %.17g", u, v, q, b);
	}
	double um = g.param(), vm = g.param();
	V out; // direction of the half plane of um
	for (int k = 0; k < 16; k++) { V p = evs(s, um, k / 16.); p.z = 0; if (p.n() > out.n()) out = p; }
	out = out / out.n();
	V pm = evs(s, um, vm);
	if (hypotl(pm.x, pm.y) > 1e-3L * (a + b)) one_turn(c, [&](double u) { return evs(s, u, vm); }, "torus-coverage");
	one_turn(c, [&](double v) { V p = evs(s, um, v); return V(p.dot(out) - a, p.z, 0); }, "torus-coverage");
}
void run_case(Ctx& c) {
	Gen& g = c.g;
	c.nontrivial = true;
	int kind = g.i(0, 12);
	NurbsCurve nc; NurbsSurface s; NurbsSolid so;
	bool used = g.b();
	if (used) { dirty(g, nc); dirty(g, s); dirty(g, so); }
	bool heavy = g.b(c.thorough ? 0.5 : 0.15);
	c.mix(kind);
	switch (kind) {
	case 0: {
		double r = R(g); c.mixd(r); c.desc("circle of radius %g", r); c.count("circles");
		NurbsFactory::create_circle(r, nc);
		auto f = [&](double u) { Point3 p; nc.evaluate(u, p); return V(p); };
		for (int k = 0; k < 20; k++) { double u = g.param(); V p = f(u); VP_CHECK(p.z == 0 && fabsl(p.n() - r) <= 1e-14L * r * 20, "circle", "u=%.17g is %s, radius %.17g", u, str(p).c_str(), r); }
		one_turn(c, f, "circle-coverage");
		VP_CHECK((f(0) - f(1)).n() <= 1e-13L * r, "circle", "the circle does not close");
		break;
	}
	case 1: {
		double r = R(g); c.mixd(r); c.desc("disk of radius %g", r); c.count("disks");
		NurbsFactory::create_disk(r, s);
		double vm = g.u(0.1, 1.);
		for (int k = 0; k < 15; k++) { double u = g.param(), v = g.param(); V p = evs(s, u, v); VP_CHECK(p.z == 0 && p.n() <= r * (1 + 1e-12L), "disk", "(%g,%g) is %s, radius %g", u, v, str(p).c_str(), r); }
		for (int k = 0; k < 5; k++) { double u = g.param(); VP_CHECK(fabsl(evs(s, u, 1).n() - r) <= 1e-12L * r && evs(s, u, 0).n() <= 1e-12L * r, "disk", "the rim or the centre is wrong at u=%g", u); }
		one_turn(c, [&](double u) { return evs(s, u, vm); }, "disk-coverage");
		{ double u = g.param(); ld last = -1; for (int k = 0; k <= 10; k++) { ld q = evs(s, u, k / 10.).n(); VP_CHECK(q > last, "disk-coverage", "the radius goes back"); last = q; } }
		if (heavy) { ld v = 0, a = 0; integrate(def(s), v, a); VP_CHECK(fabsl(a - PI * r * r) <= 1e-5L * a, "disk-area", "area %Lg instead of %Lg", a, PI * r * r); }
		break;
	}
	case 2: case 3: {
		double r = R(g); c.mixd(r); c.desc("sphere of radius %g", r); c.count("spheres");
		if (kind == 2) NurbsFactory::create_sphere(r, s);
		else {
			NurbsFactory::create_sphere(r, so);
			VP_CHECK(so.surfaces().size() == 1, "faces", "the sphere has %zu faces", so.surfaces().size());
			s = so.surfaces()[0];
			outward(c, s, [&](const V& p) { return p; }, "sphere-orientation");
			if (heavy) check_total(so, 4 * PI / 3 * r * (ld)r * r, 4 * PI * r * (ld)r, "sphere-volume");
		}
		sphere(c, s, r);
		break;
	}
	case 4: case 5: {
		bool spindle = kind == 4 && g.b(0.2);
		double a = R(g), b = kind == 4 && g.b(0.1) ? a : a * (spindle ? g.logu(1.01, 100) : g.u(0.01, 0.99)); if (spindle) c.count("tori crossing their axis"); c.mixd(a); c.mixd(b); c.desc("torus of radii %g, %g", a, b); c.count("tori");
		if (kind == 4) NurbsFactory::create_torus(a, b, s);
		else {
			NurbsFactory::create_torus(a, b, so);
			VP_CHECK(so.surfaces().size() == 1, "faces", "the torus has %zu faces", so.surfaces().size());
			s = so.surfaces()[0];
			outward(c, s, [&](const V& p) { ld q = hypotl(p.x, p.y); return p - V(p.x / q * a, p.y / q * a, 0); }, "torus-orientation");
			if (heavy) check_total(so, 2 * PI * PI * a * (ld)b * b, 4 * PI * PI * a * (ld)b, "torus-volume");
		}
		torus(c, s, a, b);
		break;
	}
	case 6: {
		double r = R(g), h = R(g); c.mixd(r); c.mixd(h); c.desc("cylinder %g x %g", r, h); c.count("cylinders");
		NurbsFactory::create_cylinder(r, h, so);
		VP_CHECK(so.surfaces().size() == 3, "faces", "the cylinder has %zu faces", so.surfaces().size());
		ld tol = 1e-12L * (r + h);
		int bottom = 0, top = 0, side = 0;
		for (auto& f : so.surfaces()) {
			bool cap = true; ld z0 = evs(f, 0.3, 0.3).z;
			for (int k = 0; k < 8; k++) if (fabsl(evs(f, g.u01(), g.u01()).z - z0) > tol) cap = false;
			if (cap) {
				VP_CHECK(fabsl(fabsl(z0) - h / 2) <= tol, "cylinder", "a cap is at z=%Lg, height %g", z0, h);
				(z0 > 0 ? top : bottom)++;
				for (int k = 0; k < 8; k++) { double u = g.param(), v = g.param(); V p = evs(f, u, v); VP_CHECK(hypotl(p.x, p.y) <= r + tol && fabsl(p.z - z0) <= tol, "cylinder", "cap point %s", str(p).c_str()); p = evs(f, u, 1); VP_CHECK(fabsl(hypotl(p.x, p.y) - r) <= tol, "cylinder", "cap rim %s", str(p).c_str()); p = evs(f, u, 0); VP_CHECK(hypotl(p.x, p.y) <= tol, "cylinder", "cap centre %s", str(p).c_str()); }
				one_turn(c, [&](double u) { return evs(f, u, 0.7); }, "cylinder-coverage");
				outward(c, f, [&](const V&) { return V(0, 0, z0 > 0 ? 1 : -1); }, "cylinder-orientation");
			} else {
				side++;
				for (int k = 0; k < 10; k++) { double u = g.param(), v = g.param(); V p = evs(f, u, v); VP_CHECK(fabsl(hypotl(p.x, p.y) - r) <= tol && fabsl(p.z) <= h / 2 + tol, "cylinder", "side point %s", str(p).c_str()); }
				for (int k = 0; k < 2; k++) VP_CHECK(fabsl(fabsl(evs(f, g.param(), k).z) - h / 2) <= tol && evs(f, 0.2, 0).z * evs(f, 0.2, 1).z < 0, "cylinder", "the side does not reach the caps");
				one_turn(c, [&](double u) { return evs(f, u, 0.4); }, "cylinder-coverage");
				outward(c, f, [&](const V& p) { return V(p.x, p.y, 0); }, "cylinder-orientation");
			}
		}
		VP_CHECK(bottom == 1 && top == 1 && side == 1, "faces", "%d bottoms, %d tops, %d sides", bottom, top, side);
		if (heavy) check_total(so, PI * r * (ld)r * h, 2 * PI * r * ((ld)r + h), "cylinder-volume");
		break;
	}
	case 7: {
		double z[3] = {R(g), R(g), R(g)}; c.mixd(z[0]); c.mixd(z[1]); c.mixd(z[2]); c.desc("box %g x %g x %g", z[0], z[1], z[2]); c.count("boxes");
		NurbsFactory::create_box(z[0], z[1], z[2], so);
		VP_CHECK(so.surfaces().size() == 6, "faces", "the box has %zu faces", so.surfaces().size());
		std::set<std::pair<int, int>> edges, faces;
		for (auto& f : so.surfaces()) {
			double uv[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
			int id[4]; V q[4];
			for (int k = 0; k < 4; k++) {
				V p = evs(f, uv[k][0], uv[k][1]); q[k] = p;
				VP_CHECK(fabsl(fabsl(p.x) - z[0] / 2) <= 1e-14L * z[0] && fabsl(fabsl(p.y) - z[1] / 2) <= 1e-14L * z[1] && fabsl(fabsl(p.z) - z[2] / 2) <= 1e-14L * z[2], "box", "corner %s", str(p).c_str());
				id[k] = (p.x > 0) + 2 * (p.y > 0) + 4 * (p.z > 0);
			}
			int axis = -1;
			for (int b = 0; b < 3; b++) if (((id[0] ^ id[1]) | (id[0] ^ id[2]) | (id[0] ^ id[3])) == (7 ^ (1 << b))) axis = b;
			VP_CHECK(axis >= 0, "box", "a face has corners %d %d %d %d", id[0], id[1], id[2], id[3]);
			faces.insert({axis, (id[0] >> axis) & 1});
			for (int k = 0; k < 4; k++) VP_CHECK(edges.insert({id[k], id[(k + 1) % 4]}).second, "box-orientation", "an edge is used twice in the same direction");
			V o = (q[0] + q[1] + q[2] + q[3]) / 4, n = (q[1] - q[0]).cross(q[3] - q[0]);
			VP_CHECK(o.dot(n) > 0, "box-orientation", "a face looks inside");
			for (int k = 0; k < 6; k++) { double u = g.param(), v = g.param(); V w = (q[0] * (1 - u) + q[1] * u) * (1 - v) + (q[3] * (1 - u) + q[2] * u) * v; VP_CHECK(absmax(evs(f, u, v) - w) <= 1e-13L * (z[0] + z[1] + z[2]), "box", "a face is not the flat rectangle of its corners"); }
		}
		for (auto& e : edges) VP_CHECK(edges.count({e.second, e.first}), "box-borders", "an edge of a face meets no other face");
		VP_CHECK(faces.size() == 6 && edges.size() == 24, "box-borders", "%zu sides, %zu edges", faces.size(), edges.size());
		break;
	}
	case 8: case 9: {
		double m = R(g);
		Point3 p[4]; for (auto& q : p) { q = g.pt(m); c.mixd(q._x); }
		bool tri = kind == 9;
		c.desc("%s of magnitude %g", tri ? "triangle" : "quad", m); c.count(tri ? "triangles" : "quads");
		if (tri) { NurbsFactory::create_triangle(p[0], p[1], p[2], s); p[3] = p[2]; }
		else NurbsFactory::create_quad(p[0], p[1], p[2], p[3], s);
		for (int k = 0; k < 12; k++) {
			double u = k < 4 ? (k == 1 || k == 2) : g.param(), v = k < 4 ? k >= 2 : g.param();
			V w = (V(p[0]) * (1 - (ld)u) + V(p[1]) * u) * (1 - (ld)v) + (V(p[3]) * (1 - (ld)u) + V(p[2]) * u) * v;
			VP_CHECK(absmax(evs(s, u, v) - w) <= 1e-14L * m * 10, tri ? "triangle" : "quad", "(%g,%g) is %s instead of %s", u, v, str(evs(s, u, v)).c_str(), str(w).c_str());
		}
		SurfDef d = def(s);
		bool large = true; // else its sides are closed curves, to the tolerance
		for (int k = 0; k < 4; k++) if (!(tri && k == 2) && (V(p[k]) - V(p[(k + 1) % 4])).n() < 1.01e-6L) large = false;
		if (large) VP_CHECK(!d.cu && !d.cv, "flags", "a quad is flagged closed");
		break;
	}
	case 10: {
		CurveDef d = gen_curve(g, 5, 20, 1e-5, 1100); c.mix(hash(d)); c.desc("curve from %zu points, degree %d", d.p.size(), d.degree); c.count("curves from points");
		NurbsFactory::create_curve_from_points(d.p, d.degree, nc);
		CurveDef h = def(nc);
		VP_CHECK(h.degree == d.degree && h.p.size() == d.p.size() && h.w.size() == d.p.size() && h.knots.size() == d.p.size() + d.degree + 1, "from-points", "degree %d, %zu points, %zu weights, %zu knots", h.degree, h.p.size(), h.w.size(), h.knots.size());
		for (size_t k = 0; k < d.p.size(); k++) VP_CHECK(same_bits(h.p[k], d.p[k]) && h.w[k] == 1., "from-points", "point %zu changed", k);
		int n = (int)d.p.size() - d.degree;
		for (int k = 0; k < (int)h.knots.size(); k++) { double w = (double)std::min(std::max(k - d.degree, 0), n) / n; VP_CHECK(std::fabs(h.knots[k] - w) <= 1e-15, "from-points", "knot %d is %.17g instead of %.17g", k, h.knots[k], w); }
		for (int k = 0; k < 4; k++) { double u = g.param(); Point3 p; nc.evaluate(u, p); VP_CHECK(absmax(V(p) - eval(h, u)) <= 1e-12L * ext(h), "from-points", "wrong point at %g", u); }
		break;
	}
	case 11: {
		int deg = g.i(1, 4), nx = std::max(deg + 1, g.size(deg + 1, 20, 300)), ny = std::max(deg + 1, g.size(deg + 1, 20, nx > 20 ? 0 : 300));
		std::vector<double> z; double m = R(g);
		for (int k = 0; k < nx * ny; k++) z.push_back(g.u(-m, m));
		c.mixd(z[0]); c.desc("height field %dx%d, degree %d", nx, ny, deg); c.count("height fields");
		if (nx != ny) c.count("non-square height fields");
		NurbsUtil::create_from_z(z, nx, ny, deg, s);
		SurfDef d = def(s);
		VP_CHECK(d.du == deg && d.dv == deg && d.nu == nx && d.nv == ny && d.p.size() == z.size() && d.w.size() == z.size() && !d.cu && !d.cv, "height-field", "degrees %d,%d, %dx%d, %zu points, flags %d,%d", d.du, d.dv, d.nu, d.nv, d.p.size(), d.cu, d.cv);
		for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) { Point3 p = d.p[x + nx * y]; VP_CHECK(p._x == x && p._y == y && same_bits(p._z, z[x + nx * y]) && d.w[x + nx * y] == 1., "height-field", "sample (%d,%d) is %s instead of height %g", x, y, str(p).c_str(), z[x + nx * y]); }
		for (int k = 0; k < 6; k++) { // corners always, every sample at degree 1
			int x = k < 4 ? (k & 1) * (nx - 1) : g.i(0, nx - 1), y = k < 4 ? (k >> 1) * (ny - 1) : g.i(0, ny - 1);
			if (k >= 4 && deg > 1) break;
			V p = evs(s, (double)x / (nx - 1), (double)y / (ny - 1));
			VP_CHECK(fabsl(p.x - x) <= 1e-11L && fabsl(p.y - y) <= 1e-11L && fabsl(p.z - z[x + nx * y]) <= 1e-11L * m, "height-field", "the surface passes at %s instead of sample (%d,%d) of height %g", str(p).c_str(), x, y, z[x + nx * y]);
		}
		break;
	}
	default: {
		Mesh m; int n = g.size(3, 30, 1100); double mm = R(g);
		for (int k = 0; k < n; k++) m.add_vertex(g.spt(mm));
		for (int k = g.size(0, 30, 1100); k > 0; k--) m.add_triangle(g.i(0, n - 1), g.i(0, n - 1), g.i(0, n - 1));
		for (int k = 0; k < m.nb_triangles(); k++) if (g.b(0.3)) { m.unlink_triangle(k); c.count("removed triangles"); }
		Snap b = snap(m); c.mix(hash_snap(b)); c.desc("mesh of %zu triangles, %zu removed", b.t.size(), b.t.size() - b.nb_live()); c.count("meshes");
		NurbsUtil::create_from_mesh(m, so);
		expect_same(snap(m), b, "mesh-changed", "create_from_mesh");
		auto live = b.live();
		VP_CHECK(so.surfaces().size() == live.size(), "from-mesh", "%zu faces for %zu triangles", so.surfaces().size(), live.size());
		for (size_t k = 0; k < live.size(); k++) {
			auto& f = so.surfaces()[k];
			V q[3] = {V(b.v[live[k][0]]), V(b.v[live[k][1]]), V(b.v[live[k][2]])};
			for (int r = 0; r < 6; r++) {
				double u = r < 4 ? (r == 1 || r == 2) : g.param(), v = r < 4 ? r >= 2 : g.param();
				V w = (q[0] * (1 - (ld)u) + q[1] * u) * (1 - (ld)v) + q[2] * v;
				VP_CHECK(absmax(evs(f, u, v) - w) <= 1e-13L * mm, "from-mesh", "face %zu at (%g,%g) is %s instead of %s", k, u, v, str(evs(f, u, v)).c_str(), str(w).c_str());
			}
		}
	}
	}
}
}
