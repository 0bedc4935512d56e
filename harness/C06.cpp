// C06: mesh measurements agree with geometry and its symmetries.
// Monitor: measures against an independent long double computation and
// against themselves on transformed variants of the same mesh.
#include "vp.h"
#include "MeshFactory.h"
#include "MeshMeasurements.h"
#include "MeshUtil.h"
#include "Transform.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh (closed primitive, punctured, flipped, mirrored, or random soup with removed and degenerate triangles) at any position and scale, measured with all its variants (renumbered, permuted, rotated corners, appended, moved, turned, scaled, flipped, mirrored); non-trivial = at least two linked triangles with non-zero area";

static Mesh from(const Snap& s) {
	Mesh m;
	for (auto& p : s.v) m.add_vertex(p);
	for (size_t k = 0; k < s.t.size(); k++) { m.add_triangle(s.t[k][0], s.t[k][1], s.t[k][2]); if (s.dead[k]) m.unlink_triangle((int)k); }
	m.set_color(s.color);
	return m;
}
struct Meas { double v, s; };
static Meas measure(const Mesh& m, Ctx& c) {
	Snap a = snap(m);
	Meas r{MeshMeasurements::volume(m), MeshMeasurements::surface(m)};
	bool o = MeshMeasurements::is_oriented_outside(m), d = MeshMeasurements::has_no_degenerated_triangles(m);
	bool cl = MeshMeasurements::is_closed(m), clean = MeshMeasurements::is_clean(m);
	MeshMeasurements::has_no_self_intersections(m); MeshMeasurements::has_no_isolated_vertices(m);
	MeshMeasurements::has_no_duplicated_vertices(m); MeshMeasurements::has_no_short_edges(m);
	expect_same(snap(m), a, "measuring-changed", "a measured mesh");
	auto t = a.live();
	ld e = extent(a.v) + 1e-300L, n = t.size() + 1;
	ld v = volume(a.v, t), s = area(a.v, t);
	VP_CHECK(fabsl(r.v - v) <= 1e-13L * e * e * e * n, "volume", "volume %.17g instead of %.17Lg", r.v, v);
	VP_CHECK(fabsl(r.s - s) <= 1e-13L * e * e * n, "surface", "surface %.17g instead of %.17Lg", r.s, s);
	if (fabsl(v) > 1e-12L * e * e * e * n) VP_CHECK(o == (v > 0), "orientation", "is_oriented_outside=%d for volume %Lg", o, v);
	bool zero = false, tiny = false;
	for (auto& q : t) {
		V p1(a.v[q[0]]), p2(a.v[q[1]]), p3(a.v[q[2]]);
		// exactly computable: integer coordinates or repeated corners
		bool integer = true;
		for (int k : q) for (double x : {a.v[k]._x, a.v[k]._y, a.v[k]._z}) if (x != std::floor(x) || fabs(x) > 1e6) integer = false;
		bool same2 = q[0] == q[1] || q[1] == q[2] || q[0] == q[2];
		ld ar = (p2 - p1).cross(p3 - p1).n();
		if (same2 || (integer && ar == 0)) zero = true;
		if (ar < 1e-9L * e * e) tiny = true;
	}
	if (zero) VP_CHECK(!d, "degenerate-missed", "a triangle of area 0 is not reported as degenerated");
	if (!zero && !tiny) VP_CHECK(d, "degenerate-invented", "no degenerated triangle, but one is reported");
	bool open = !why_not_closed(t).empty();
	bool missing = !border(t).empty();
	if (missing) {
		VP_CHECK(!cl, "open-reported-closed", "a mesh with missing triangles is reported closed");
		VP_CHECK(!clean, "open-reported-clean", "a mesh with missing triangles is reported clean");
		c.count("open meshes");
	}
	if (!open && !t.empty()) {
		c.count("closed meshes");
		if (zero || (v < -1e-12L * e * e * e * n)) VP_CHECK(!clean, "bad-reported-clean", "a degenerated or inside-out mesh is reported clean");
	}
	c.count("measurements");
	return r;
}

long fixed_cases() { return 2; }
void run_case(Ctx& c) {
	Gen& g = c.g;
	Mesh base;
	int kind = c.index < fixed_cases() ? 9 : g.i(0, 9);
	double s = g.mag(1e-4, 1e4);
	bool prim = kind <= 5;
	switch (kind) {
	case 0: MeshFactory::create_tetrahedron(s, base); break;
	case 1: MeshFactory::create_box(s, g.mag(), g.mag(), base); break;
	case 2: MeshFactory::create_icosahedron(s, base); break;
	case 3: MeshFactory::create_torus(3 * s, s, g.size(1, 3, 12), base); break;
	case 4: MeshFactory::create_sphere_uv(s, g.size(1, 4, 12), base); break;
	case 5: MeshFactory::create_dodecahedron(s, base); break;
	default: {
		int nv = g.size(1, 30, 3000), nt = g.size(0, 40, 3000);
		if (c.index < fixed_cases()) { nv = 30000; nt = c.index == 0 ? 70000 : 140000; c.count("large meshes"); }
		bool integer = c.index >= fixed_cases() && g.b();
		for (int k = 0; k < nv; k++) base.add_vertex(integer ? Point3(g.i(-3, 3), g.i(-3, 3), g.i(-3, 3)) : g.pt(s));
		int only = nv < 4 || integer ? -2 : c.index < fixed_cases() ? nt - 2 : g.b() ? g.i(-1, nt - 1) : -2; // one degenerated triangle at most
		for (int k = 0; k < nt; k++) {
			int p1 = g.i(0, nv - 1), p2 = g.i(0, nv - 1), p3 = g.i(0, nv - 1);
			if (only >= -1) { p2 = (p1 + g.i(1, nv - 1)) % nv; while (p3 == p1 || p3 == p2) p3 = (p3 + 1) % nv; if (k == only) (g.b() ? p2 : p1) = p3; }
			base.add_triangle(p1, p2, p3);
		}
		if (only >= 0) c.count("one degenerated triangle");
	}
	}
	if (prim && c.index % 50 == 3) {
		// the closedness predicate on a closed mesh (see known_findings.txt)
		Mesh t; MeshFactory::create_tetrahedron(1., t);
		c.count("closedness of a closed mesh");
		VP_CHECK(MeshMeasurements::is_closed(t), "closed-mesh-reported-open", "is_closed is false for a tetrahedron");
	}
	Snap a = snap(base);
	if (g.b(0.4)) for (size_t k = 0; k < a.t.size(); k++) if (g.b(0.2)) { a.dead[k] = 1; prim = false; }
	if (g.b(0.3)) for (auto& q : a.t) if (g.b(0.5)) { std::swap(q[0], q[1]); }
	else if (g.b(0.3)) { for (auto& q : a.t) std::swap(q[0], q[1]); }
	a.color = g.i(0, 0xffffff);
	Mesh m = from(a);
	auto live = a.live();
	ld e = extent(a.v) + 1e-300L, n = live.size() + 1;
	c.desc("%zu triangles, %zu linked, extent %Lg", a.t.size(), live.size(), e);
	c.mix(hash_snap(a));
	int good = 0; for (auto& q : live) good += area(a.v, {q}) > 1e-9L * e * e;
	c.nontrivial = good >= 2;
	Meas r = measure(m, c);
	const double tv = (double)(1e-12L * e * e * e * n), ts = (double)(1e-12L * e * e * n);
	bool cl = border(live).empty();
	auto eq = [&](Meas x, double v, double sf, double kv, double ks, const char* key) {
		VP_CHECK(fabs(x.v - v) <= tv * kv, key, "%s: volume %.17g instead of %.17g", key, x.v, v);
		VP_CHECK(fabs(x.s - sf) <= ts * ks, key, "%s: surface %.17g instead of %.17g", key, x.s, sf);
	};
	{ // permuted triangles, rotated corners, without the removed ones, renumbered vertices
		Snap p;
		std::vector<int> perm(a.v.size()); for (size_t k = 0; k < perm.size(); k++) perm[k] = (int)k;
		g.shuffle(perm);
		p.v.resize(a.v.size());
		for (size_t k = 0; k < perm.size(); k++) p.v[perm[k]] = a.v[k];
		for (auto q : live) { int k = g.i(0, 2); p.t.push_back(Tri{perm[q[k]], perm[q[(k + 1) % 3]], perm[q[(k + 2) % 3]]}); }
		g.shuffle(p.t);
		p.dead.assign(p.t.size(), 0);
		// extra removed triangles anywhere
		if (!p.v.empty()) for (int k = g.i(0, 3); k > 0; k--) { p.t.insert(p.t.begin() + g.i(0, (int)p.t.size()), Tri{g.i(0, (int)p.v.size() - 1), g.i(0, (int)p.v.size() - 1), g.i(0, (int)p.v.size() - 1)}); p.dead.clear(); }
		Snap w;
		if (p.dead.empty() && !p.t.empty()) { // rebuild flags: unlink those that are not in the live list
			std::multiset<Tri> L; for (auto q : live) L.insert(canon(Tri{perm[q[0]], perm[q[1]], perm[q[2]]}));
			for (auto& q : p.t) { auto it = L.find(canon(q)); if (it != L.end()) { L.erase(it); p.dead.push_back(0); } else p.dead.push_back(1); }
		}
		eq(measure(from(p), c), r.v, r.s, 1, 1, "renumbered");
	}
	{ // additive
		Mesh o; dirty(g, o);
		double ov = MeshMeasurements::volume(o), os = MeshMeasurements::surface(o);
		Snap so = snap(o);
		ld eo = extent(so.v), no = so.t.size() + 1;
		o.add_mesh(m);
		Meas x = measure(o, c);
		VP_CHECK(fabsl(x.v - (ov + r.v)) <= tv + 1e-12L * eo * eo * eo * no, "additive", "volume of an append %.17g instead of %.17g", x.v, ov + r.v);
		VP_CHECK(fabsl(x.s - (os + r.s)) <= ts + 1e-12L * eo * eo * no, "additive", "surface of an append %.17g instead of %.17g", x.s, os + r.s);
	}
	{ // flipped, mirrored
		Mesh f(m); int k0 = f.nb_triangles();
		for (int k = 0; k < k0; k++) f.flip_triangle(k);
		eq(measure(f, c), -r.v, r.s, 1, 1, "flipped");
		Mesh q(m);
		int ax = g.i(0, 2);
		q.apply_transform(Scale(ax == 0 ? -1. : 1., ax == 1 ? -1. : 1., ax == 2 ? -1. : 1.));
		eq(measure(q, c), -r.v, r.s, 1, 1, "mirrored");
	}
	{ // moved
		Mesh t(m);
		double k = g.mag(1e-2, 10.);
		t.apply_transform(Translation(g.pt((double)e * k)));
		Meas x = measure(t, c);
		double f = (1 + k) * (1 + k) * (1 + k) * 4;
		eq(x, cl ? r.v : x.v, r.s, f, f, "moved");
		if (cl) c.count("moved closed meshes");
	}
	{ // turned (about the origin) and scaled
		Mesh t(m);
		t.apply_transform(RotationAngleAxis(g.u(-720, 720), g.dir()));
		eq(measure(t, c), r.v, r.s, 10, 10, "turned");
		Mesh q(m);
		double k = g.mag(1e-3, 1e3);
		q.apply_transform(Scale(k, k, k));
		eq(measure(q, c), r.v * k * k * k, r.s * k * k, k * k * k, k * k, "scaled");
	}
}
}
