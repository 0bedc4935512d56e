// C16: Bezier patches, smooth meshes, their factories, Bernstein polynomials, point-normal triangles.
#include "spline.h"
#include "SmoothMeshFactory.h"
#include "BezierUtil.h"
#include "CubicBezierTriangles.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a rational quadratic patch evaluated and meshed (1 to 40 segments, into a fresh or used mesh), a history of 3 to 40 smooth-mesh operations over several objects (copies, assignments, appends, to itself too), a smooth primitive of random size, Bernstein values, or a point-normal triangle, each compared with its definition; non-trivial = always";

static ld ptol(const PatchDef& d) { return 1e-13L * d.ext() * d.wratio() + 1e-300L; }

// the triangles t0.. of the mesh tile the parameter triangle, on vertices v0.. that are its lattice
static void check_tiling(const Snap& a, size_t v0, size_t t0, int n) {
	std::vector<std::array<int, 2>> lat;
	for (int s = 0; s <= n; s++) for (int u = 0; u <= n - s; u++) lat.push_back({s, u});
	VP_CHECK(a.t.size() - t0 == (size_t)n * n, "patch-triangles", "%zu triangles instead of %d", a.t.size() - t0, n * n);
	std::vector<Tri> ts;
	for (size_t k = t0; k < a.t.size(); k++) {
		VP_CHECK(!a.dead[k], "patch-triangles", "triangle %zu is removed", k);
		Tri t = a.t[k];
		for (int& x : t) {
			x -= (int)v0;
			VP_CHECK(x >= 0 && x < (int)lat.size(), "patch-indices", "triangle %zu refers to vertex %d out of the patch", k, x + (int)v0);
		}
		int d = (lat[t[1]][0] - lat[t[0]][0]) * (lat[t[2]][1] - lat[t[0]][1]) - (lat[t[2]][0] - lat[t[0]][0]) * (lat[t[1]][1] - lat[t[0]][1]);
		VP_CHECK(d == 1, "patch-orientation", "triangle %zu covers %d lattice cells instead of +1", k, d);
		ts.push_back(t);
	}
	auto bd = border(ts);
	long m = 0;
	for (auto& e : bd) {
		if (!e.second) continue;
		m++;
		auto p = lat[e.first.first], q = lat[e.first.second];
		bool side = (p[0] == 0 && q[0] == 0) || (p[1] == 0 && q[1] == 0) || (p[0] + p[1] == n && q[0] + q[1] == n);
		VP_CHECK(side && abs(e.second) == 1, "patch-hole", "border edge (%d,%d)-(%d,%d) inside the patch", p[0], p[1], q[0], q[1]);
	}
	VP_CHECK(m == 3L * n, "patch-hole", "%ld border edges instead of %d", m, 3 * n);
}

static void patch(Ctx& c) {
	Gen& g = c.g;
	PatchDef d = gen_patch(g);
	bool flat = g.b(0.25);
	if (flat) { d.C12 = (d.P1 + d.P2) * 0.5; d.C13 = (d.P1 + d.P3) * 0.5; d.C23 = (d.P2 + d.P3) * 0.5; d.w1 = d.w2 = d.w3 = d.w12 = d.w13 = d.w23 = 1.; }
	QuadBezierTriangle p;
	if (flat) p.set_points(d.P1, d.P2, d.P3); else p = d.make();
	ld tol = ptol(d);
	for (int k = 0; k < 12; k++) {
		double s = g.param(), u = g.param() * (1. - s), v = 1. - s - u;
		Point3 q = g.b() ? p.eval(s, u) : p.eval(s, u, v);
		V w = d.eval(s, u, v);
		VP_CHECK(absmax(V(q) - w) <= tol, "patch-eval", "eval(%.17g,%.17g) is %s instead of %s", s, u, str(q).c_str(), str(w).c_str());
		if (flat) {
			V l = V(d.P1) * s + V(d.P2) * u + V(d.P3) * v;
			VP_CHECK(absmax(V(q) - l) <= tol, "flat-eval", "flat patch is %s instead of %s", str(q).c_str(), str(l).c_str());
		}
		c.count("patch evaluations");
	}
	VP_CHECK(absmax(V(p.eval(1, 0)) - V(d.P1)) <= tol && absmax(V(p.eval(0, 1)) - V(d.P2)) <= tol && absmax(V(p.eval(0, 0)) - V(d.P3)) <= tol, "patch-corner", "corners not interpolated");
	int n = g.size(1, 40, 370);
	Mesh m;
	if (g.b(0.7)) dirty(g, m);
	Snap b = snap(m);
	p.add_to_mesh(m, n);
	Snap a = snap(m);
	size_t nv = (size_t)(n + 1) * (n + 2) / 2;
	VP_CHECK(a.v.size() == b.v.size() + nv, "patch-vertices", "%zu vertices instead of %zu", a.v.size() - b.v.size(), nv);
	VP_CHECK(a.t.size() >= b.t.size(), "patch-append", "triangles lost");
	Snap h = a; h.v.resize(b.v.size()); h.t.resize(b.t.size()); h.dead.resize(b.dead.size());
	expect_same(h, b, "patch-append", "former content");
	size_t k = b.v.size();
	for (int s = 0; s <= n; s++) for (int u = 0; u <= n - s; u++, k++) {
		V w = d.eval((ld)s / n, (ld)u / n, (ld)(n - s - u) / n);
		VP_CHECK(absmax(V(a.v[k]) - w) <= tol, "patch-lattice", "lattice point (%d,%d)/%d is %s instead of %s", s, u, n, str(a.v[k]).c_str(), str(w).c_str());
	}
	check_tiling(a, b.v.size(), b.t.size(), n);
	c.count(flat ? "flat patches" : "curved patches");
	c.mix(n); c.mixd(d.P1._x); c.mixd(d.w12);
	c.desc("patch meshed with %d segments", n);
}

static bool same_patch(const QuadBezierTriangle& q, const PatchDef& d, ld tol, std::string& why) {
	static const double S[][2] = {{1, 0}, {0, 1}, {0, 0}, {0.5, 0.5}, {0.5, 0}, {0, 0.5}, {0.25, 0.5}, {0.2, 0.1}};
	for (auto& x : S) {
		V w = d.eval(x[0], x[1], 1. - x[0] - x[1]);
		Point3 p = q.eval(x[0], x[1]);
		if (!(absmax(V(p) - w) <= tol)) { why = fmt("at (%g,%g) %s instead of %s", x[0], x[1], str(p).c_str(), str(w).c_str()); return false; }
	}
	return true;
}

struct MD : PatchDef { ld err = 0; MD() {} MD(const PatchDef& p) : PatchDef(p) {} }; // err = accumulated rounding of the transforms
struct Model { SmoothMesh m; std::vector<MD> d; };
static void flat(MD& d, const Point3& a, const Point3& b, const Point3& c) {
	d = MD(); d.P1 = a; d.P2 = b; d.P3 = c;
	d.C12 = (a + b) * 0.5; d.C13 = (a + c) * 0.5; d.C23 = (b + c) * 0.5;
}
// points of a flat face: any size, any proportions, a repeated or degenerate one now and then
static void flat_pts(Gen& g, Point3* p, int n) {
	double m = g.b(0.4) ? 5. : g.mag(1e-12, 1e12);
	double s[3] = {m, m, m};
	if (g.b(0.3)) for (auto& x : s) x *= g.logu(1e-6, 1.);
	for (int k = 0; k < n; k++) p[k] = Point3(g.u(-1, 1) * s[0], g.u(-1, 1) * s[1], g.u(-1, 1) * s[2]);
	if (g.b(0.15)) p[g.i(1, n - 1)] = p[0];
	if (g.b(0.15)) { int a = g.i(0, n - 1), b = g.i(0, n - 1); p[a] = p[b] + g.pt(m) * g.logu(1e-13, 1e-2); }
}
static void check_model(const Model& x, ld mult, const char* what) {
	VP_CHECK(x.m.nb_triangles() == (int)x.d.size(), "smooth-count", "after %s: %d patches instead of %zu", what, x.m.nb_triangles(), x.d.size());
	std::string why;
	for (size_t k = 0; k < x.d.size(); k++)
		VP_CHECK(same_patch(x.m.triangle((int)k), x.d[k], (mult * x.d[k].ext() + x.d[k].err) * x.d[k].wratio() + 1e-200L, why), "smooth-content", "after %s: patch %zu %s", what, k, why.c_str());
}
static void history(Ctx& c) {
	Gen& g = c.g;
	std::vector<std::unique_ptr<Model>> pool;
	for (int k = g.i(2, 3); k > 0; k--) pool.emplace_back(new Model);
	int n = g.size(3, 40);
	const size_t cap = g.b(0.01) ? g.size(121, 700, 4200) : 120; // patches of one mesh
	if (cap > 120) for (auto& z : pool) for (int k = g.i((int)cap / 4, (int)cap / 2 + 1); k > 0; k--) { MD d = gen_patch(g); z->m.add_triangle(d.make()); z->d.push_back(d); }
	if (cap > 120) c.count("large smooth meshes");
	for (int k = 0; k < n; k++) {
		Model& x = *pool[g.i(0, (int)pool.size() - 1)];
		Model& y = *pool[g.i(0, (int)pool.size() - 1)];
		const char* what = "";
		int op = g.i(0, 10);
		c.mix(op);
		if (op >= 8 && x.d.size() > cap / 2) op = 0;
		switch (op) {
		case 0: if (g.b(0.3)) { x.m.clear(); x.d.clear(); } what = "clear"; break;
		case 1: x.m = y.m; x.d = std::vector<MD>(y.d); what = &x == &y ? "self-assignment" : "assignment"; c.count(what); break;
		case 2: if (x.d.size() + y.d.size() > cap) break;
			x.m.add_mesh(y.m); { auto z = y.d; x.d.insert(x.d.end(), z.begin(), z.end()); } what = &x == &y ? "self-append" : "append"; c.count(what); break;
		case 3: { SmoothMesh z(y.m); x.d = std::vector<MD>(y.d); if (&x != &y) y.m.clear(), y.d.clear(); x.m = z; what = "copy"; c.count(what); break; }
		case 4: { if (x.d.size() && g.b()) break;
			MD d = gen_patch(g); x.m.add_triangle(d.make()); x.d.push_back(d); what = "add_triangle"; break; }
		case 5: { // a patch of a mesh added to a mesh, itself too
			if (y.d.empty()) break;
			int i = g.i(0, (int)y.d.size() - 1); MD d = y.d[i]; x.m.add_triangle(y.m.triangle(i)); x.d.push_back(d); what = "add_triangle of a patch"; c.count(what); break; }
		case 6: { Affine a; std::string name; auto t = gen_transform(g, a, name);
			{ bool huge = false; for (auto& d : x.d) huge = huge || d.ext() > 1e60; if (huge) break; }
			x.m.apply_transform(*t);
			for (auto& d : x.d) d.err = 4 * d.err * a.norm() + 1e-10L * (d.ext() * (1 + a.norm()) + absmax(a.b));
			for (auto& d : x.d) for (Point3* p : {&d.P1, &d.P2, &d.P3, &d.C12, &d.C13, &d.C23}) *p = a(V(*p)).p();
			what = "apply_transform"; c.count("transforms"); break; }
		case 7: { Mesh m; int s = cap > 120 ? g.i(1, 2) : g.size(1, 5, 40); x.m.add_to_mesh(m, s); Snap a = snap(m); what = "add_to_mesh";
			size_t nv = (size_t)(s + 1) * (s + 2) / 2;
			VP_CHECK(a.v.size() == nv * x.d.size() && a.t.size() == (size_t)s * s * x.d.size(), "smooth-mesh", "%zu vertices, %zu triangles for %zu patches, %d segments", a.v.size(), a.t.size(), x.d.size(), s);
			for (size_t q = 0; q < x.d.size(); q++) {
				size_t i = q * nv;
				for (int e = 0; e <= s; e++) for (int u = 0; u <= s - e; u++, i++) {
					V w = x.d[q].eval((ld)e / s, (ld)u / s, (ld)(s - e - u) / s);
					VP_CHECK(absmax(V(a.v[i]) - w) <= (1e-12L * x.d[q].ext() + x.d[q].err) * x.d[q].wratio() + 1e-200L, "smooth-mesh", "patch %zu point (%d,%d): %s instead of %s", q, e, u, str(a.v[i]).c_str(), str(w).c_str());
				}
				Snap z; z.v.assign(a.v.begin() + q * nv, a.v.begin() + (q + 1) * nv);
				for (int r = 0; r < s * s; r++) { Tri t = a.t[q * s * s + r]; for (int& v : t) v -= (int)(q * nv); z.t.push_back(t); z.dead.push_back(0); }
				check_tiling(z, 0, 0, s);
			}
			c.count("smooth meshes meshed"); break; }
		case 8: { Point3 p[3]; flat_pts(g, p, 3); x.m.add_flat_triangle(p[0], p[1], p[2]); MD d; flat(d, p[0], p[1], p[2]); x.d.push_back(d); what = "add_flat_triangle"; c.count("flat triangles"); break; }
		case 9: { Point3 p[4]; flat_pts(g, p, 4); x.m.add_flat_quad(p[0], p[1], p[2], p[3]); MD d; flat(d, p[0], p[1], p[2]); x.d.push_back(d); flat(d, p[0], p[2], p[3]); x.d.push_back(d); what = "add_flat_quad"; c.count("flat quads"); break; }
		case 10: { Point3 p[5]; flat_pts(g, p, 5); x.m.add_flat_pentagon(p[0], p[1], p[2], p[3], p[4]); MD d; flat(d, p[0], p[1], p[2]); x.d.push_back(d); flat(d, p[2], p[3], p[4]); x.d.push_back(d); flat(d, p[0], p[2], p[4]); x.d.push_back(d); what = "add_flat_pentagon"; c.count("flat pentagons"); break; }
		}
		for (auto& z : pool) check_model(*z, 1e-12L, what);
	}
	c.mixd(g.u01());
	c.desc("%d smooth-mesh operations over %zu objects", n, pool.size());
}

static void primitive(Ctx& c) {
	Gen& g = c.g;
	static const char* names[] = {"smooth tetrahedron", "smooth box", "smooth octahedron", "smooth dodecahedron", "smooth icosahedron", "smooth sphere"};
	int kind = g.i(0, 5);
	double s = g.b(0.3) ? g.mag(1e-40, 1e40) : g.mag(1e-6, 1e6), y = s * g.logu(0.1, 10), z = s * g.logu(0.1, 10);
	SmoothMesh m;
	if (g.b(0.6)) dirty(g, m);
	switch (kind) {
	case 0: SmoothMeshFactory::create_tetrahedron(s, m); break;
	case 1: SmoothMeshFactory::create_box(s, y, z, m); break;
	case 2: SmoothMeshFactory::create_octahedron(s, m); break;
	case 3: SmoothMeshFactory::create_dodecahedron(s, m); break;
	case 4: SmoothMeshFactory::create_icosahedron(s, m); break;
	case 5: SmoothMeshFactory::create_sphere(s, m); break;
	}
	int n = g.size(1, 12, 140);
	Mesh out;
	m.add_to_mesh(out, n);
	Snap a = snap(out);
	ld sz = extent(a.v);
	std::vector<int> w = weld(a.v, (double)(1e-9L * sz));
	std::vector<Tri> ts;
	for (auto t : a.t) { for (int& x : t) x = w[x]; ts.push_back(t); }
	c.mix(kind); c.mix(n); c.mixd(s);
	c.desc("%s of size %g, %d segments", names[kind], s, n);
	std::string why = why_not_closed(ts);
	VP_CHECK(why.empty(), fmt("%s-open", names[kind]).c_str(), "%s, %d segments: %s", names[kind], n, why.c_str());
	std::set<int> used(w.begin(), w.end());
	long chi = (long)used.size() - (long)ts.size() * 3 / 2 + (long)ts.size();
	VP_CHECK(chi == 2, "primitive-topology", "%s: Euler characteristic %ld", names[kind], chi);
	ld vol = volume(a.v, ts), ar = area(a.v, ts);
	VP_CHECK(vol > 0, "primitive-orientation", "%s: volume %.9Lg", names[kind], vol);
	ld p5 = sqrtl(5.L), phi = (1 + p5) / 2, S = s, wv = 0, wa = 0;
	int faces[] = {4, 12, 8, 36, 20, 8};
	VP_CHECK(m.nb_triangles() == faces[kind], "primitive-faces", "%s has %d patches", names[kind], m.nb_triangles());
	ld e;
	switch (kind) {
	case 0: e = 2 * sqrtl(2) * S; wv = e * e * e / (6 * sqrtl(2)); wa = sqrtl(3) * e * e; break;
	case 1: wv = (ld)s * y * z; wa = 2 * ((ld)s * y + (ld)y * z + (ld)z * s); break;
	case 2: wv = 4.L / 3 * S * S * S; wa = 4 * sqrtl(3) * S * S; break;
	case 3: e = 2 * S / phi; wv = (15 + 7 * p5) / 4 * e * e * e; wa = 3 * sqrtl(25 + 10 * p5) * e * e; break;
	case 4: e = 2 * S / phi; wv = 5 * (3 + p5) / 12 * e * e * e; wa = 5 * sqrtl(3) * e * e; break;
	}
	if (kind < 5) {
		VP_CHECK(fabsl(vol - wv) <= 1e-9L * wv, "primitive-volume", "%s: volume %.15Lg instead of %.15Lg", names[kind], vol, wv);
		VP_CHECK(fabsl(ar - wa) <= 1e-9L * wa, "primitive-area", "%s: area %.15Lg instead of %.15Lg", names[kind], ar, wa);
		ld lo[3], hi[3];
		for (int k = 0; k < 3; k++) { lo[k] = 1e300L; hi[k] = -1e300L; }
		for (auto& p : a.v) { V q(p); ld x[3] = {q.x, q.y, q.z}; for (int k = 0; k < 3; k++) lo[k] = std::min(lo[k], x[k]), hi[k] = std::max(hi[k], x[k]); }
		ld h[3] = {S, S, S};
		if (kind == 1) { h[0] = s / 2; h[1] = y / 2; h[2] = z / 2; }
		if (kind == 3) for (auto& x : h) x = S * phi;
		for (int k = 0; k < 3; k++) VP_CHECK(fabsl(lo[k] + h[k]) <= 1e-9L * sz && fabsl(hi[k] - h[k]) <= 1e-9L * sz, "primitive-placement", "%s: axis %d from %.12Lg to %.12Lg instead of +-%.12Lg", names[kind], k, lo[k], hi[k], h[k]);
	} else {
		// star-shaped around the centre, touching the six axis points
		for (int ax = 0; ax < 3; ax++) for (int sg = -1; sg <= 1; sg += 2) {
			V q(ax == 0 ? sg * S : 0, ax == 1 ? sg * S : 0, ax == 2 ? sg * S : 0);
			bool hit = false;
			for (auto& p : a.v) hit = hit || absmax(V(p) - q) <= 1e-12L * S;
			VP_CHECK(hit, "sphere-poles", "no vertex at %s", str(q).c_str());
		}
		for (auto& p : a.v) { ld r = V(p).n(); VP_CHECK(r >= S * 0.9L && r <= S * 1.2L, "sphere-radius", "vertex %s at %.9Lg of the radius", str(p).c_str(), r / S); }
		for (auto& t : ts) { V A(a.v[t[0]]), B(a.v[t[1]]), C(a.v[t[2]]); VP_CHECK((B - A).cross(C - A).dot(A + B + C) > 0, "sphere-orientation", "a triangle faces inwards"); }
		// the eight octants are images of each other
		for (auto& p : a.v) for (int k = 0; k < 3; k++) {
			if (!g.b(30. / (double)a.v.size())) continue;
			V q(p); (k == 0 ? q.x : k == 1 ? q.y : q.z) *= -1;
			bool hit = false;
			for (auto& o : a.v) hit = hit || absmax(V(o) - q) <= 1e-9L * S;
			VP_CHECK(hit, "sphere-symmetry", "no mirror image of %s", str(p).c_str());
		}
	}
	c.count(names[kind]);
}

struct Cubic : CubicBezierTriangles {
	std::vector<Point3> all() const { return {_P1, _P2, _P3, _controlP1P2, _controlP2P1, _controlP1P3, _controlP3P1, _controlP2P3, _controlP3P2, _controlCenter}; }
};
static void formulas(Ctx& c) {
	Gen& g = c.g;
	using namespace BezierUtil;
	double u = g.param();
	ld U = u, W = 1 - U;
	struct { const char* n; double v; ld w; } f[] = {
		{"B01", Bernstein01(u), W}, {"B11", Bernstein11(u), U},
		{"B02", Bernstein02(u), W * W}, {"B12", Bernstein12(u), 2 * U * W}, {"B22", Bernstein22(u), U * U},
		{"B03", Bernstein03(u), W * W * W}, {"B13", Bernstein13(u), 3 * U * W * W}, {"B23", Bernstein23(u), 3 * U * U * W}, {"B33", Bernstein33(u), U * U * U}};
	for (auto& x : f) VP_CHECK(x.v >= 0 && fabsl(x.v - x.w) <= 1e-15L, "bernstein", "%s(%.17g) = %.17g instead of %.17Lg", x.n, u, x.v, x.w);
	VP_CHECK(fabs(f[0].v + f[1].v - 1) <= 1e-15 && fabs(f[2].v + f[3].v + f[4].v - 1) <= 1e-15 && fabs(f[5].v + f[6].v + f[7].v + f[8].v - 1) <= 1e-15, "bernstein-sum", "Bernstein polynomials at %.17g do not sum to 1", u);
	c.count("Bernstein parameters");

	Cubic q;
	Point3 p[3], n[3];
	double m = g.mag();
	for (auto& x : p) x = g.pt(m);
	if (g.b(0.2)) p[1] = p[0];
	for (auto& x : n) x = g.dir();
	q.set_points(p[0], p[1], p[2]);
	if (g.b(0.3)) { q.set_control_center(g.pt(m)); q.set_control_points(g.pt(m), g.pt(m), g.pt(m), g.pt(m), g.pt(m), g.pt(m)); }
	q.set_normals(n[0], n[1], n[2]);
	auto a = q.all();
	auto ctl = [&](int i, int j) { V d = V(p[j]) - V(p[i]); return (V(p[i]) * 2 + V(p[j]) - V(n[i]) * d.dot(V(n[i]))) / 3; };
	V w[10] = {V(p[0]), V(p[1]), V(p[2]), ctl(0, 1), ctl(1, 0), ctl(0, 2), ctl(2, 0), ctl(1, 2), ctl(2, 1), V()};
	V E; for (int k = 3; k < 9; k++) E = E + w[k] / 6;
	V C = (w[0] + w[1] + w[2]) / 3;
	w[9] = E + (E - C) / 2;
	for (int k = 0; k < 10; k++) VP_CHECK(absmax(V(a[k]) - w[k]) <= 1e-14L * m, "point-normal", "control point %d is %s instead of %s", k, str(a[k]).c_str(), str(w[k]).c_str());
	c.count("point-normal triangles");
	c.mixd(u); c.mixd(m);
	c.desc("formulas at %g", u);
}

void run_case(Ctx& c) {
	c.nontrivial = true;
	switch (c.g.i(0, 9)) {
	case 0: case 1: case 2: patch(c); break;
	case 3: case 4: case 5: history(c); break;
	case 6: case 7: case 8: primitive(c); break;
	default: formulas(c);
	}
}
} // namespace vp
