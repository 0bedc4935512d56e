// C14: meshing a spline surface samples it faithfully.
#include "spline.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
#include "NurbsRevolve.h"
#include "NurbsExtrude.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a surface or solid (random, or a primitive) meshed with 1 to 12 segments into a fresh or used mesh, replacing or appending; vertices compared with the surface definition, triangles matched cell by cell; non-trivial = at least one cell";

static void surface(Ctx& c) {
	Gen& g = c.g;
	NurbsSurface s;
	int kind = g.i(0, 6);
	if (kind == 0) NurbsFactory::create_torus(g.u(2, 4), g.u(0.2, 1.9), s);
	else if (kind == 1) NurbsFactory::create_sphere(g.mag(0.1, 10), s);
	else if (kind == 2) { NurbsCurve k; set(k, gen_curve(g, 3, 5)); NurbsRevolve().revolve(k, s); }
	else set(s, gen_surface(g, 4, kind == 3 ? 9 : 5, 1e-5, kind == 3 ? 700 : 0), &g);
	SurfDef d = def(s);
	int n = g.b(0.1) ? 5 : g.b(0.1) ? g.size(1, 12, 300) : g.i(1, 4);
	if ((long)n * n * d.nu * d.nv > 3000 && (n <= 12 || (long)n * n * d.nu * d.nv > 400000)) n = 1;
	bool append = g.b(0.4);
	Mesh m;
	if (g.b(0.7)) dirty(g, m);
	Snap before = snap(m);
	bool deflt = !append && n == 5 && g.b();
	if (append) NurbsUtil::to_mesh(s, m, n, false);
	else if (deflt) NurbsUtil::to_mesh(s, m);
	else if (g.b()) NurbsUtil::to_mesh(s, m, n);
	else NurbsUtil::to_mesh(s, m, n, true);
	Snap a = snap(m);
	c.mix(hash(d)); c.mix(n);
	c.desc("surface of degrees %d,%d, %dx%d points, closed %d,%d, %d segments%s", d.du, d.dv, d.nu, d.nv, d.cu, d.cv, n, append ? ", appended" : "");
	VP_CHECK(same(def(s), d), "surface-changed", "meshing changed the surface: %s", diff(def(s), d).c_str());
	size_t v0 = append ? before.v.size() : 0, t0 = append ? before.t.size() : 0;
	int nu = n * d.nu, nv = n * d.nv;
	VP_CHECK(a.v.size() == v0 + (size_t)(nu + 1) * (nv + 1), "vertices", "%zu vertices instead of %zu (+%zu former)", a.v.size(), (size_t)(nu + 1) * (nv + 1), v0);
	VP_CHECK(a.t.size() == t0 + 2 * (size_t)nu * nv, "triangles", "%zu triangles instead of %d (+%zu former)", a.t.size(), 2 * nu * nv, t0);
	if (append) {
		Snap h = a; h.v.resize(v0); h.t.resize(t0); h.dead.resize(t0);
		expect_same(h, before, "append", "former content");
		c.count("appended meshes");
	} else c.count("replaced meshes");
	ld tol = 1e-12L * ext(d) * wratio(d.w) + 1e-300L;
	for (int j = 0; j <= nv; j++) {
		auto bv = basis(d.kv, d.dv, (double)j / nv);
		for (int i = 0; i <= nu; i++) {
			if (nu * nv > 400 && !g.b(400. / (nu * nv)) && i != nu && j != nv && i && j) continue;
			const Point3& p = a.v[v0 + i + (size_t)(nu + 1) * j];
			V w = eval(d, (double)i / nu, (double)j / nv);
			VP_CHECK(absmax(V(p) - w) <= tol, "sample", "vertex (%d,%d) of %dx%d is %s instead of %s", i, j, nu, nv, str(p).c_str(), str(w).c_str());
			c.count("vertices compared");
		}
	}
	std::multiset<Tri> ts;
	for (size_t k = t0; k < a.t.size(); k++) { VP_CHECK(!a.dead[k], "removed", "triangle %zu is removed", k); ts.insert(canon(a.t[k])); }
	auto tri = [](int x, int y, int z) { return canon(Tri{x, y, z}); };
	for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) {
		int i2 = d.cu && i == nu - 1 ? 0 : i + 1, j2 = d.cv && j == nv - 1 ? 0 : j + 1;
		auto id = [&](int x, int y) { return (int)v0 + x + (nu + 1) * y; };
		VP_CHECK(take(ts, id(i, j), id(i2, j), id(i2, j2), id(i, j2), tri), "cell", "cell (%d,%d) of %dx%d (closed %d,%d) is not covered by two triangles of the surface orientation", i, j, nu, nv, d.cu, d.cv);
		c.nontrivial = true;
	}
	if (d.cu) c.count("closed in u");
	if (d.cv) c.count("closed in v");
}
static void solid(Ctx& c) {
	Gen& g = c.g;
	NurbsSolid so;
	if (g.b(0.3)) dirty(g, so);
	double size = g.mag(0.01, 100), a = size * g.u(0.3, 3), b = size * g.u(0.3, 3);
	int kind = g.i(0, 4), n = g.size(1, 6, 70);
	ld vol = 0, area = 0;
	const ld PI = acosl(-1.L);
	const char* nm[] = {"box", "cylinder", "sphere", "torus", "random faces"};
	switch (kind) {
	case 0: NurbsFactory::create_box(size, a, b, so); vol = (ld)size * a * b; break;
	case 1: NurbsFactory::create_cylinder(size, a, so); vol = PI * size * size * a; break;
	case 2: NurbsFactory::create_sphere(size, so); vol = PI * 4 / 3 * size * size * size; break;
	case 3: { double minor = std::min(a / 4, size * 0.7); NurbsFactory::create_torus(size, minor, so); vol = 2 * PI * PI * size * minor * (ld)minor; break; }
	default: so.clear(); for (int k = g.size(0, 4, 300); k > 0; k--) { NurbsSurface s; set(s, gen_surface(g, 3, 4), &g); so.add_surface(s); } n = g.i(1, 3);
	}
	c.mix(kind); c.mix(n); c.mixd(size); c.mixd(a);
	c.desc("%s meshed with %d segments", nm[kind], n);
	std::vector<SurfDef> ds; for (auto& f : so.surfaces()) ds.push_back(def(f));
	Mesh m; if (g.b(0.6)) dirty(g, m);
	if (n == 5 && g.b()) NurbsUtil::to_mesh(so, m); else NurbsUtil::to_mesh(so, m, n);
	Snap s = snap(m);
	Snap want; want.color = s.color;
	for (auto& f : so.surfaces()) {
		Mesh one; NurbsUtil::to_mesh(f, one, n);
		Snap o = snap(one);
		int off = (int)want.v.size();
		want.v.insert(want.v.end(), o.v.begin(), o.v.end());
		for (size_t k = 0; k < o.t.size(); k++) { Tri t = o.t[k]; for (int& x : t) x += off; want.t.push_back(t); want.dead.push_back(o.dead[k]); }
	}
	expect_same(s, want, "solid", "mesh of a solid");
	for (size_t k = 0; k < ds.size(); k++) VP_CHECK(same(def(so.surfaces()[k]), ds[k]), "solid-changed", "meshing changed face %zu", k);
	c.count("solids meshed");
	c.nontrivial = !ds.empty();
	if (kind < 4) {
		auto rep = weld(s.v, 1e-7 * size);
		std::vector<Tri> t;
		for (auto q : s.live()) { for (int& x : q) x = rep[x]; if (q[0] != q[1] && q[1] != q[2] && q[2] != q[0]) t.push_back(q); }
		std::string why = why_not_closed(t);
		VP_CHECK(why.empty(), "solid-closed", "the %s meshed with %d segments is not closed: %s", nm[kind], n, why.c_str());
		ld v = volume(s.v, t);
		VP_CHECK(v > 0.55L * vol && v < vol * (1 + 1e-9L), "solid-volume", "the %s meshed with %d segments has volume %Lg, ideal %Lg", nm[kind], n, v, vol);
		if (kind == 0) VP_CHECK(fabsl(v - vol) < 1e-10L * vol, "solid-volume", "the box has volume %Lg instead of %Lg", v, vol);
		c.count("closed solids");
	}
}
static void net(Ctx& c) {
	Gen& g = c.g;
	SurfDef d = gen_surface(g, 4, 9, 1e-5, 1100);
	for (auto& p : d.p) p = g.pt(10);
	if (g.b(0.2)) { // a line of points repeated: flat quads are in the net too
		if (g.b()) { int k = g.i(1, d.nv - 1); for (int i = 0; i < d.nu; i++) d.p[i + d.nu * k] = d.p[i + d.nu * (k - 1)]; }
		else { int k = g.i(1, d.nu - 1); for (int j = 0; j < d.nv; j++) d.p[k + d.nu * j] = d.p[k - 1 + d.nu * j]; }
		c.count("control nets with repeated lines");
	}
	NurbsSurface s; set(s, d, &g); d = def(s);
	Mesh m; if (g.b(0.6)) dirty(g, m);
	NurbsUtil::to_controlpoints_mesh(s, m);
	c.mix(hash(d)); c.desc("control net %dx%d", d.nu, d.nv);
	VP_CHECK(same(def(s), d), "surface-changed", "the control net changed the surface");
	Snap a = snap(m);
	VP_CHECK(a.nb_live() == 2 * (size_t)(d.nu - 1) * (d.nv - 1) && a.nb_live() == a.t.size(), "net", "%zu triangles for a net of %dx%d", a.nb_live(), d.nu, d.nv);
	typedef std::array<std::array<double, 3>, 3> PT;
	auto ptri = [](const Point3& x, const Point3& y, const Point3& z) {
		PT t = {{{x._x, x._y, x._z}, {y._x, y._y, y._z}, {z._x, z._y, z._z}}};
		return std::min(t, std::min(PT{t[1], t[2], t[0]}, PT{t[2], t[0], t[1]}));
	};
	std::multiset<PT> ts;
	for (auto& t : a.t) ts.insert(ptri(a.v[t[0]], a.v[t[1]], a.v[t[2]]));
	auto tri = [&](int x, int y, int z) { return ptri(d.p[x], d.p[y], d.p[z]); };
	for (int j = 0; j + 1 < d.nv; j++) for (int i = 0; i + 1 < d.nu; i++) {
		int k = i + d.nu * j;
		VP_CHECK(take(ts, k, k + 1, k + 1 + d.nu, k + d.nu, tri), "net", "quad (%d,%d) of the control net is missing", i, j);
	}
	c.count("control nets"); c.nontrivial = true;
}
// so many points along u that their square does not fit in an int
static void thin(Ctx& c) {
	int nu = c.index ? 2 : 5800, nv = c.index ? 5800 : 2, n = 8; // 46400 segments in one direction
	std::vector<Point3> p; std::vector<double> w((size_t)nu * nv, 1.);
	for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) p.push_back(Point3(i, j, (i * 7 + j) % 5));
	NurbsSurface s; s.set_degree(1, 1); s.set_points(p, nu, nv); s.set_uniform_u(); s.set_uniform_v(); s.set_weights(w);
	Mesh m; NurbsUtil::to_mesh(s, m, n);
	long U = (long)nu * n, W = (long)nv * n;
	VP_CHECK(m.nb_vertices() == (U + 1) * (W + 1) && m.nb_triangles() == 2 * U * W, "long", "%d vertices and %d triangles for %ldx%ld segments", m.nb_vertices(), m.nb_triangles(), U, W);
	for (int q = 0; q < 3000; q++) {
		long i = c.g.i(0, (int)U), j = c.g.i(0, (int)W);
		Point3 a; m.get_vertex((int)(i + (U + 1) * j), a);
		double x = (double)i / U * (nu - 1), y = (double)j / W * (nv - 1);
		VP_CHECK(std::fabs(a._x - x) < 1e-7 && std::fabs(a._y - y) < 1e-7, "long", "vertex (%ld,%ld) of %ldx%ld is %s", i, j, U, W, str(a).c_str());
	}
	c.count("long surfaces"); c.mix(1000 + c.index); c.nontrivial = true; c.desc("long surface %dx%d, %d segments", nu, nv, n);
}
long fixed_cases() { return 2; }
void run_case(Ctx& c) {
	if (c.index < 2) { thin(c); return; }
	int k = c.g.i(0, 9);
	if (k < 5) surface(c); else if (k < 8) solid(c); else net(c);
}
}
