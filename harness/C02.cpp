// C02: local topology edits keep the surface, its volume and its border.
// Monitor: before/after snapshots of every edit; the named triangles are
// removed, the others untouched, the appended ones are exactly the expected
// ones up to corner rotation; border (uncancelled directed edges), area,
// enclosed volume are conserved.
#include "vp.h"
#include "MeshFactory.h"
#include "MeshBoolean.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh (closed primitive, grid, or random soup; corners rotated at random) and 1..40 local edits (triangle split at point or vertex, edge split, flip, quad, pentagon, triangle-triangle split), or a mesh-mesh split of two overlapping meshes, or of two triangles each split by the other; non-trivial = at least one edit replaced triangles";

static std::vector<Tri> sorted_canon(std::vector<Tri> t) { for (auto& q : t) q = canon(q); std::sort(t.begin(), t.end()); return t; }

struct Edit { // checks one edit from snapshots
	Snap a, b;
	std::vector<int> gone;      // named triangles
	int newVertices = 0;
	void common(const char* what) {
		VP_CHECK(b.v.size() == a.v.size() + newVertices, "vertices", "%s: %zu vertices became %zu (expected %d more)", what, a.v.size(), b.v.size(), newVertices);
		for (size_t k = 0; k < a.v.size(); k++) VP_CHECK(same_bits(a.v[k], b.v[k]), "moved", "%s: vertex %zu moved", what, k);
		VP_CHECK(b.t.size() >= a.t.size(), "lost", "%s: triangle ids vanished", what);
		for (size_t k = 0; k < a.t.size(); k++) {
			VP_CHECK(a.t[k] == b.t[k] || std::count(gone.begin(), gone.end(), (int)k), "other-changed", "%s: triangle %zu changed", what, k);
			bool named = std::count(gone.begin(), gone.end(), (int)k);
			VP_CHECK(b.dead[k] == (named ? 1 : a.dead[k]), "other-removed", "%s: triangle %zu removed=%d (named=%d, was %d)", what, k, b.dead[k], named, a.dead[k]);
		}
		for (size_t k = a.t.size(); k < b.t.size(); k++) VP_CHECK(!b.dead[k], "new-removed", "%s: new triangle %zu is removed", what, k);
		VP_CHECK(a.color == b.color, "color", "%s: colour changed", what);
	}
	std::vector<Tri> added() const { return std::vector<Tri>(b.t.begin() + a.t.size(), b.t.end()); }
	void expect_added(std::vector<Tri> want, const char* what) {
		auto g = sorted_canon(added()), w = sorted_canon(want);
		VP_CHECK(g == w, "wrong-triangles", "%s: the new triangles are not the expected ones: %s", what, dump(g, w).c_str());
	}
	static std::string dump(const std::vector<Tri>& g, const std::vector<Tri>& w) {
		std::string s = "got";
		for (auto& q : g) s += fmt(" (%d,%d,%d)", q[0], q[1], q[2]);
		s += " wanted";
		for (auto& q : w) s += fmt(" (%d,%d,%d)", q[0], q[1], q[2]);
		return s;
	}
	void border_kept(const char* what) { VP_CHECK(border(a.live()) == border(b.live()), "border", "%s: the oriented border changed", what); }
	void surface_kept(const char* what) {
		ld e = std::max(extent(a.v), extent(b.v)) + 1e-300L, n = a.nb_live() + 4;
		ld da = area(a.v, a.live()) - area(b.v, b.live());
		VP_CHECK(fabsl(da) <= 1e-9L * e * e * n, "area", "%s: area changed by %Lg", what, da);
		ld dv = volume(a.v, a.live()) - volume(b.v, b.live());
		VP_CHECK(fabsl(dv) <= 1e-9L * e * e * e * n, "volume", "%s: volume changed by %Lg", what, dv);
	}
};

static bool make_mesh(Ctx& c, Mesh& m, bool integer) { // true for a closed primitive
	Gen& g = c.g;
	int kind = g.i(0, 7);
	double s = integer ? g.i(1, 4) * 2 : g.mag();
	Mesh t;
	switch (kind) {
	case 0: MeshFactory::create_tetrahedron(s, t); break;
	case 1: MeshFactory::create_box(s, integer ? g.i(1, 4) * 2 : g.mag(), integer ? g.i(1, 4) * 2 : g.mag(), t); break;
	case 2: MeshFactory::create_icosahedron(s, t); break;
	case 3: MeshFactory::create_torus(s * 3, s, g.i(3, 7), t); break;
	case 4: MeshFactory::create_octahedron(s, t); break;
	default: {
		int n = g.size(3, 24);
		for (int k = 0; k < n; k++) t.add_vertex(integer ? Point3(g.i(-4, 4), g.i(-4, 4), g.i(-4, 4)) : g.pt(s));
		int nt = g.size(1, 24);
		for (int k = 0; k < nt; k++) {
			int a = g.i(0, n - 1), b = g.i(0, n - 1), d = g.i(0, n - 1);
			if (a == b || b == d || a == d) continue;
			t.add_triangle(a, b, d);
		}
	}
	}
	// rotate the corners and shift
	Point3 off = integer ? Point3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)) : g.pt(s * 2);
	Snap q = snap(t);
	for (auto& p : q.v) m.add_vertex(p + off);
	for (auto& x : q.t) { int r = g.i(0, 2); m.add_triangle(x[r], x[(r + 1) % 3], x[(r + 2) % 3]); }
	if (kind > 4 && g.b(0.3)) for (int k = 0; k < m.nb_triangles(); k++) if (g.b(0.2)) m.unlink_triangle(k);
	m.set_color(g.i(0, 0xffffff));
	return kind <= 4;
}

// two triangles sharing an edge in opposite directions
static bool find_edge(Gen& g, const Snap& s, int& t1, int& t2, int& v1, int& v2) {
	if (s.t.empty()) return false;
	int st = g.i(0, (int)s.t.size() - 1);
	for (size_t k = 0; k < s.t.size(); k++) {
		size_t i = (st + k) % s.t.size();
		if (s.dead[i]) continue;
		int r0 = g.i(0, 2);
		for (int r = 0; r < 3; r++) {
			int a = s.t[i][(r0 + r) % 3], b = s.t[i][(r0 + r + 1) % 3];
			if (a == b) continue;
			for (size_t j = 0; j < s.t.size(); j++) {
				if (s.dead[j] || j == i) continue;
				for (int q = 0; q < 3; q++)
					if (s.t[j][q] == b && s.t[j][(q + 1) % 3] == a) { t1 = (int)i; t2 = (int)j; v1 = a; v2 = b; return true; }
			}
		}
	}
	return false;
}

static int pick_live(Gen& g, const Snap& s) {
	for (int k = 0; k < 20 && !s.t.empty(); k++) { int i = g.i(0, (int)s.t.size() - 1); if (!s.dead[i]) return i; }
	return -1;
}

static void edit(Ctx& c, Mesh& m, bool& closed) {
	Gen& g = c.g;
	Edit e;
	e.a = snap(m);
	int op = g.i(0, 8);
	c.mix(op);
	if (op <= 1) { // split triangle with a point of it
		int k = pick_live(g, e.a); if (k < 0) return;
		Tri q = e.a.t[k];
		double u = g.u01(), v = g.u01(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
		if (g.b(0.3)) { u = v = 1. / 3; }
		Point3 p = e.a.v[q[0]] * (1 - u - v) + e.a.v[q[1]] * u + e.a.v[q[2]] * v;
		bool byIndex = g.b();
		int nv = (int)e.a.v.size();
		if (byIndex) { m.add_vertex(p); m.split_triangle_with_vertex(k, nv); }
		else m.split_triangle_with_vertex(k, p);
		e.b = snap(m); e.gone = {k}; e.newVertices = 1;
		e.common("split_triangle_with_vertex");
		VP_CHECK(same_bits(e.b.v[nv], p), "position", "the split vertex is %s instead of %s", str(e.b.v[nv]).c_str(), str(p).c_str());
		e.expect_added({{q[0], q[1], nv}, {q[1], q[2], nv}, {q[2], q[0], nv}}, "split_triangle_with_vertex");
		e.border_kept("split_triangle_with_vertex"); e.surface_kept("split_triangle_with_vertex");
		c.count("triangle splits"); c.nontrivial = true;
	} else if (op == 2) { // split triangle with any existing vertex: only topology is kept
		int k = pick_live(g, e.a); if (k < 0) return;
		Tri q = e.a.t[k];
		int v = g.i(0, (int)e.a.v.size() - 1);
		if (g.b(0.15)) v = q[g.i(0, 2)];
		if (v == q[0] || v == q[1] || v == q[2]) { // at its own corner: whatever the pieces, the surface stays
			Mesh x(m); e.a = snap(x);
			int id = -1; for (size_t j = 0; j < e.a.t.size(); j++) if (e.a.t[j] == q) id = (int)j;
			if (id < 0) return;
			x.split_triangle_with_vertex(id, v);
			e.b = snap(x);
			for (size_t j = 0; j < e.a.t.size(); j++) if ((int)j != id) VP_CHECK(j < e.b.t.size() && e.b.t[j] == e.a.t[j] && e.b.dead[j] == e.a.dead[j], "other-changed", "split at a corner: triangle %zu changed", j);
			e.border_kept("split at a corner"); e.surface_kept("split at a corner");
			c.count("splits at a corner");
			return;
		}
		m.split_triangle_with_vertex(k, v);
		e.b = snap(m); e.gone = {k};
		e.common("split_triangle_with_vertex(index)");
		e.expect_added({{q[0], q[1], v}, {q[1], q[2], v}, {q[2], q[0], v}}, "split_triangle_with_vertex(index)");
		e.border_kept("split_triangle_with_vertex(index)");
		closed = false; // closed as a chain, but edges may now be shared by more than two triangles
		c.count("triangle splits at an existing vertex"); c.nontrivial = true;
	} else if (op <= 5) { // split edge
		int t1, t2, v1, v2;
		if (!find_edge(g, e.a, t1, t2, v1, v2)) return;
		double u = g.b(0.3) ? 0.5 : g.u(0.01, 0.99);
		bool on = g.b(0.7);
		Point3 p = e.a.v[v1] * (1 - u) + e.a.v[v2] * u;
		if (!on) p = p + g.pt(1.);
		int nv = m.add_vertex(p);
		m.split_edge_with_vertex(t1, t2, v1, v2, nv);
		e.b = snap(m); e.gone = {t1, t2}; e.newVertices = 1;
		e.common("split_edge_with_vertex");
		auto third = [&](Tri q) { for (int x : q) if (x != v1 && x != v2) return x; return -1; };
		int c1 = third(e.a.t[t1]), c2 = third(e.a.t[t2]);
		e.expect_added({{v1, nv, c1}, {nv, v2, c1}, {v2, nv, c2}, {nv, v1, c2}}, "split_edge_with_vertex");
		e.border_kept("split_edge_with_vertex");
		if (on) e.surface_kept("split_edge_with_vertex");
		c.count("edge splits"); c.nontrivial = true;
	} else if (op == 6) {
		int k = pick_live(g, e.a); if (k < 0) return;
		Tri q = e.a.t[k];
		m.flip_triangle(k);
		e.b = snap(m); e.gone = {k};
		e.common("flip_triangle");
		e.expect_added({{q[0], q[2], q[1]}}, "flip_triangle");
		c.count("flips"); c.nontrivial = true;
		if (closed) { // flip it back to stay closed
			e.a = e.b;
			m.flip_triangle((int)e.a.t.size() - 1);
			e.b = snap(m); e.gone = {(int)e.a.t.size() - 1};
			e.common("second flip_triangle");
			e.expect_added({q}, "second flip_triangle");
		}
	} else if (op == 7) { // quads and pentagons, on new vertices so that a closed mesh stays separate
		closed = false;
		int n = g.b() ? 4 : 5;
		bool planar = g.b(0.5), convex = planar && g.b(0.7);
		double R = g.mag();
		V ex(g.dir()), ey = ex.cross(V(g.dir())); if (ey.n() < 0.05) return; ey = ey / ey.n();
		std::vector<Point3> pts;
		double ph = g.u(0, 6.28);
		int sense = g.b() ? 1 : -1;
		for (int k = 0; k < n; k++) {
			double an = ph + sense * 6.283185307179586 * (k + (n == 4 ? g.u(-0.2, 0.2) : 0.)) / n, r = convex ? R : R * g.u(0.2, 1.);
			V p = ex * (r * cos(an)) + ey * (r * sin(an));
			if (!planar) p = p + V(g.pt(R * 0.5));
			pts.push_back(p.p());
		}
		std::vector<int> id;
		bool points = n == 4 && g.b(), optim = g.b();
		int base = (int)e.a.v.size();
		if (points) {
			if (optim && g.b()) m.add_quad(pts[0], pts[1], pts[2], pts[3]);
			else m.add_quad(pts[0], pts[1], pts[2], pts[3], optim);
			e.newVertices = 4;
		} else {
			for (auto& p : pts) m.add_vertex(p);
			e.newVertices = n;
			if (n == 4) m.add_quad(base, base + 1, base + 2, base + 3);
			else m.add_pentagon(base, base + 1, base + 2, base + 3, base + 4);
		}
		const char* what = n == 5 ? "add_pentagon" : points ? "add_quad(points)" : "add_quad(indices)";
		e.b = snap(m);
		e.common(what);
		auto add = e.added();
		VP_CHECK((int)add.size() == n - 2, "polygon-count", "%s added %zu triangles", what, add.size());
		for (int k = 0; k < n; k++) VP_CHECK(same_bits(e.b.v[base + k], pts[k]), "position", "%s: vertex %d is %s instead of %s", what, k, str(e.b.v[base + k]).c_str(), str(pts[k]).c_str());
		std::vector<Tri> poly;
		for (int k = 1; k + 1 < n; k++) poly.push_back(Tri{base, base + k, base + k + 1});
		VP_CHECK(border(add) == border(poly), "polygon-border", "%s does not cover the polygon in its orientation: %s", what, Edit::dump(sorted_canon(add), sorted_canon(poly)).c_str());
		ld A = area(e.b.v, add), Ap = area(e.b.v, poly);
		if (convex) VP_CHECK(fabsl(A - Ap) <= 1e-9L * (Ap + (ld)R * R), "polygon-area", "%s covers area %Lg instead of %Lg", what, A, Ap);
		if (points && optim) {
			ld A2 = area(e.b.v, {{base + 1, base + 2, base + 3}, {base + 1, base + 3, base}});
			VP_CHECK(A <= std::min(Ap, A2) + 1e-9L * (Ap + A2), "diagonal", "add_quad kept the diagonal of area %Lg, the other one is %Lg", A, std::min(Ap, A2));
			c.count("optimised quads");
		}
		c.count(n == 4 ? "quads" : "pentagons"); c.nontrivial = true;
	} else { // against another triangle
		int k = pick_live(g, e.a); if (k < 0) return;
		Tri q = e.a.t[k];
		Triangle3 sp;
		V a(e.a.v[q[0]]), b(e.a.v[q[1]]), d(e.a.v[q[2]]);
		ld sz = (b - a).n() + (d - a).n();
		if (g.b(0.6)) {
			// cross the triangle through one of its points, one corner of the splitter on its plane
			ld u = g.u(-0.3, 1.3), v = g.u(-0.3, 1.3);
			V p = a + (b - a) * u + (d - a) * v, n = (b - a).cross(d - a);
			if (n.n() == 0) return;
			n = n * (sz / n.n()) + (b - a) * g.u(-0.3, 0.3);
			ld k1 = g.u(0.5, 2);
			V s1 = p + n * k1, s2 = p - n * k1, s3 = a + (b - a) * g.u(-2, 2) + (d - a) * g.u(-2, 2);
			Point3 P[3] = {s1.p(), s2.p(), s3.p()};
			int r = g.i(0, 2);
			sp = g.b() ? Triangle3(P[r], P[(r + 1) % 3], P[(r + 2) % 3]) : Triangle3(P[r], P[(r + 2) % 3], P[(r + 1) % 3]);
		} else sp = Triangle3((a + V(g.pt((double)sz))).p(), (a + V(g.pt((double)sz))).p(), (a + V(g.pt((double)sz))).p());
		m.split_triangle(k, sp);
		e.b = snap(m);
		if (e.b.t.size() != e.a.t.size() || e.b.dead != e.a.dead) {
			e.gone = {k}; e.newVertices = (int)e.b.v.size() - (int)e.a.v.size();
			VP_CHECK(e.newVertices >= 0, "vertices", "split_triangle lost vertices");
			e.common("split_triangle");
			e.surface_kept("split_triangle");
			e.border_kept("split_triangle");
			c.count("triangle-triangle splits"); c.nontrivial = true;
		} else {
			e.newVertices = 0;
			expect_same(e.b, e.a, "split-changed", "split_triangle without effect");
			c.count("triangle-triangle misses");
		}
	}
}

// exact configuration: integer coordinates, the splitter has one corner on the
// plane of the triangle and its opposite edge crosses the interior
static void exact_split(Ctx& c) {
	Gen& g = c.g;
	int ax = g.i(0, 2), ay = (ax + 1) % 3, az = (ax + 2) % 3; // triangle in the plane of coordinate az = h
	int h = g.i(-5, 5);
	auto mk = [&](double x, double y, double z) { double q[3]; q[ax] = x; q[ay] = y; q[az] = z; return Point3(q[0], q[1], q[2]); };
	int x0 = g.i(-20, 20), y0 = g.i(-20, 20);
	double L = 8 << g.i(0, 3);
	Point3 T[3] = {mk(x0, y0, h), mk(x0 + L, y0, h), mk(x0, y0 + L, h)};
	// interior point
	double px = x0 + L / 8 * g.i(1, 3), py = y0 + L / 8 * g.i(1, 3);
	double hz = 1 << g.i(0, 4);
	double kx = g.i(-3, 3), ky = g.i(-3, 3);
	Point3 S1 = mk(px + kx, py + ky, h + hz), S2 = mk(px - kx, py - ky, h - hz);
	// third corner on the plane, such that the splitter's plane cuts the triangle
	double qx = px + g.i(-30, 30), qy = py + g.i(-30, 30);
	if (qx == px && qy == py) qx += 5;
	Point3 S3 = mk(qx, qy, h);
	Mesh m;
	int extra = g.i(0, 3);
	for (int k = 0; k < extra; k++) m.add_triangle(g.pt(50), g.pt(50), g.pt(50));
	int r = g.i(0, 2), sg = g.b() ? 1 : 2;
	int id = m.add_triangle(T[r], T[(r + sg) % 3], T[(r + 2 * sg) % 3]);
	for (int k = g.i(0, 2); k > 0; k--) m.add_triangle(g.pt(50), g.pt(50), g.pt(50));
	int o = g.i(0, 2), og = g.b() ? 1 : 2;
	Point3 S[3] = {S1, S2, S3};
	Triangle3 sp(S[o], S[(o + og) % 3], S[(o + 2 * og) % 3]);
	Edit e; e.a = snap(m);
	m.split_triangle(id, sp);
	e.b = snap(m);
	e.gone = {id}; e.newVertices = 1;
	e.common("split_triangle at a single point");
	Tri q = e.a.t[id]; int nv = (int)e.a.v.size();
	e.expect_added({{q[0], q[1], nv}, {q[1], q[2], nv}, {q[2], q[0], nv}}, "split_triangle at a single point");
	V d = V(e.b.v[nv]) - V(mk(px, py, h));
	VP_CHECK(d.n() <= 1e-6L * L, "split-position", "split_triangle put its vertex at %s instead of %s", str(e.b.v[nv]).c_str(), str(mk(px, py, h)).c_str());
	e.border_kept("split_triangle"); e.surface_kept("split_triangle");
	c.count("exact triangle-triangle splits"); c.nontrivial = true;
	c.mixd(px); c.mixd(py); c.mixd(qx); c.mixd(qy); c.mix(id);
}

static void booleans(Ctx& c) {
	Gen& g = c.g;
	Mesh A, B;
	bool integer = g.b(0.8);
	if (g.b(0.35)) { // triangles of two crossing planes having their tips on the common line: many split each other
		int ax = g.i(0, 2), ay = (ax + 1) % 3, az = (ax + 2) % 3;
		for (int q = 0; q < 2; q++) {
			Mesh& m = q ? B : A;
			for (int n = g.size(1, 20, 60); n > 0; n--) {
				double tip = g.i(-20, 20), far = tip + (q ? -4 : 4) * g.i(1, 6), k = g.i(-2, 2), w = g.i(1, 30);
				double p[3][3];
				p[0][ax] = tip; p[0][ay] = p[0][az] = 0;
				for (int r = 1; r < 3; r++) { double sg = r == 1 ? 1 : -1; p[r][ax] = far + sg * k; p[r][q ? az : ay] = sg * w; p[r][q ? ay : az] = 0; }
				int r = g.i(0, 2), d = g.b() ? 1 : 2;
				auto P = [&](int i) { return Point3(p[i % 3][0], p[i % 3][1], p[i % 3][2]); };
				m.add_triangle(P(r), P(r + d), P(r + 2 * d));
			}
		}
	} else { make_mesh(c, A, integer); make_mesh(c, B, integer); }
	if (g.b(0.5)) { // remove some triangles
		Mesh& m = g.b() ? A : B;
		for (int k = 0; k < m.nb_triangles(); k++) if (g.b(0.3)) m.unlink_triangle(k);
	}
	Snap a = snap(A), b = snap(B);
	Mesh o[4];
	for (auto& m : o) if (g.b(0.4)) dirty(g, m);
	MeshBoolean().split_meshes(A, B, o[0], o[1], o[2], o[3]);
	expect_same(snap(A), a, "input-changed", "first input of split_meshes");
	expect_same(snap(B), b, "input-changed", "second input of split_meshes");
	for (int w = 0; w < 2; w++) {
		const Snap& in = w ? b : a;
		Snap out = snap(o[w]);
		auto live = in.live();
		VP_CHECK(out.t.size() >= live.size() && out.v.size() >= in.v.size(), "boolean-lost", "split_meshes: output %d has fewer elements than its input", w);
		VP_CHECK(out.color == in.color, "boolean-color", "split_meshes: colour of output %d", w);
		for (size_t k = 0; k < in.v.size(); k++) VP_CHECK(same_bits(in.v[k], out.v[k]), "boolean-vertex", "split_meshes: vertex %zu of output %d differs", k, w);
		for (size_t k = 0; k < live.size(); k++) VP_CHECK(out.t[k] == live[k], "boolean-triangle", "split_meshes: triangle %zu of output %d differs", k, w);
		VP_CHECK(border(live) == border(out.live()), "boolean-border", "split_meshes: border of output %d changed", w);
		ld e = extent(out.v) + 1e-300L, n = out.t.size() + 4;
		ld da = area(in.v, live) - area(out.v, out.live()), dv = volume(in.v, live) - volume(out.v, out.live());
		VP_CHECK(fabsl(da) <= 1e-8L * e * e * n, "boolean-area", "split_meshes: area of output %d changed by %Lg", w, da);
		VP_CHECK(fabsl(dv) <= 1e-8L * e * e * e * n, "boolean-volume", "split_meshes: volume of output %d changed by %Lg", w, dv);
		if (out.t.size() != live.size()) { c.count("mesh-mesh splits with effect"); c.nontrivial = true; }
	}
	{ // a triangle is replaced if one of the other mesh splits it, whatever happened to the others, and is kept otherwise
		std::vector<Triangle3> T[2]; std::vector<BoundingBox3> bx[2];
		for (int w = 0; w < 2; w++) {
			const Snap& in = w ? b : a;
			for (const Tri& t : in.live()) { T[w].push_back(Triangle3(in.v[t[0]], in.v[t[1]], in.v[t[2]])); bx[w].push_back(BoundingBox3(T[w].back())); }
		}
		if (T[0].size() * T[1].size() <= 40000) for (int w = 0; w < 2; w++) {
			Snap out = snap(o[w]);
			size_t nsplit = 0;
			for (size_t i = 0; i < T[w].size(); i++) {
				bool must = false; size_t by = 0;
				for (size_t j = 0; j < T[!w].size() && !must; j++) {
					bool near = bx[w][i].intersect_with(bx[!w][j]);
					if (!near) continue;
					Mesh one; one.add_triangle(T[w][i].p1(), T[w][i].p2(), T[w][i].p3());
					one.split_triangle(0, T[!w][j]);
					if (one.is_triangle_unlinked(0)) { must = true; by = j; }
				}
				nsplit += must;
				VP_CHECK(!must || out.dead[i], "boolean-missed", "split_meshes: triangle %zu of mesh %d is split by triangle %zu of the other one, and is still there", i, w, by);
				VP_CHECK(must || !out.dead[i], "boolean-extra", "split_meshes: triangle %zu of mesh %d is replaced, and no triangle of the other one splits it", i, w);
			}
			if (nsplit > 1) c.count("meshes with several triangles split");
		}
	}
	c.mix(hash_snap(a)); c.mix(hash_snap(b));
	c.count("mesh-mesh splits");
	{ // two single triangles: the split of each by the other
		Mesh t[2], s[2], u[4]; Triangle3 T[2];
		bool cross = g.b(0.7);
		for (int w = 0; w < 2; w++) {
			for (int k = 0; k < 3; k++) t[w].add_vertex(cross ? Point3(g.i(-4, 4), g.i(-4, 4), g.i(-4, 4)) : g.pt(3));
			t[w].add_triangle(0, 1, 2); t[w].get_triangle(0, T[w]); s[w] = t[w];
		}
		s[0].split_triangle(0, T[1]); s[1].split_triangle(0, T[0]);
		BoundingBox3 b0(T[0]), b1(T[1]);
		if (b0.intersect_with(b1)) {
			MeshBoolean().split_meshes(t[0], t[1], u[0], u[1], u[2], u[3]);
			for (int w = 0; w < 2; w++) expect_same(snap(u[w]), snap(s[w]), "boolean-single", w ? "second of two triangles split against each other" : "first of two triangles split against each other");
			if (s[0].nb_triangles() > 1 || s[1].nb_triangles() > 1) c.count("single triangles split against each other");
		}
	}
	{ // one triangle of each mesh has a corner on the plane of the other one and its opposite edge crosses it: both are split
		int ax = g.i(0, 2), ay = (ax + 1) % 3, az = (ax + 2) % 3;
		double x0 = g.i(-9, 9), y0 = g.i(-9, 9), z0 = g.i(-9, 9), dir = g.sgn();
		auto mk = [&](double x, double y, double z) { double q[3]; q[ax] = x0 + dir * x; q[ay] = y0 + y; q[az] = z0 + z; return Point3(q[0], q[1], q[2]); };
		double a1 = 4 * g.i(2, 4), b1 = g.i(1, (int)a1 - 1), b0 = a1 + g.i(1, 9), k = g.i(-1, 1), w = g.i(20, 40), k2 = g.i(-1, 1), w2 = g.i(20, 40);
		Point3 P[2][3] = {{mk(0, 0, 0), mk(a1 + k, w, 0), mk(a1 - k, -w, 0)}, {mk(b0, 0, 0), mk(b1 + k2, 0, w2), mk(b1 - k2, 0, -w2)}};
		Mesh t[2], s[2], u[4]; int at[2]; Triangle3 T[2];
		for (int q = 0; q < 2; q++) {
			auto filler = [&]() { // far from everything of the other mesh, or removed
				double f = (q ? 1000. : -1000.) + g.u(0, 100);
				if (g.b(0.4)) t[q].unlink_triangle(t[q].add_triangle(g.pt(20), g.pt(20), g.pt(20)));
				else { t[q].add_triangle(Point3(f, 0, 0) + g.pt(5), Point3(f, 0, 0) + g.pt(5), Point3(f, 0, 0) + g.pt(5)); return 1; }
				return 0;
			};
			at[q] = 0;
			int n1 = g.i(0, 4), n2 = g.i(0, 4);
			if (g.b(0.01)) { (g.b() ? n1 : n2) = g.i(200, 1200); c.count("large meshes split against each other"); }
			for (int n = n1; n > 0; n--) at[q] += filler();
			int r = g.i(0, 2), sg = g.b() ? 1 : 2;
			int id = t[q].add_triangle(P[q][r], P[q][(r + sg) % 3], P[q][(r + 2 * sg) % 3]);
			t[q].get_triangle(id, T[q]);
			for (int n = n2; n > 0; n--) filler();
			s[q] = t[q];
		}
		int before[2] = {s[0].nb_triangles(), s[1].nb_triangles()};
		s[0].split_triangle(at[0], T[1]); s[1].split_triangle(at[1], T[0]);
		MeshBoolean().split_meshes(t[0], t[1], u[0], u[1], u[2], u[3]);
		for (int q = 0; q < 2; q++) expect_same(snap(u[q]), snap(s[q]), "boolean-mutual", q ? "second of two meshes split against each other" : "first of two meshes split against each other");
		if (s[0].nb_triangles() == before[0] + 3 && s[1].nb_triangles() == before[1] + 3) c.count("triangles split by each other");
	}
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	int kind = g.i(0, 9);
	if (kind == 0) { c.desc("mesh-mesh split"); booleans(c); return; }
	if (kind == 1) { c.desc("exact split"); exact_split(c); return; }
	Mesh m;
	bool closed = make_mesh(c, m, g.b(0.3));
	Snap s0 = snap(m);
	closed = closed && why_not_closed(s0.live()).empty();
	int n = c.thorough ? g.i(1, 200) : g.i(1, 40);
	c.desc("%zu triangles, closed=%d, %d edits", s0.t.size(), closed, n);
	for (int k = 0; k < n; k++) {
		edit(c, m, closed);
		if (closed) {
			std::string w = why_not_closed(snap(m).live());
			VP_CHECK(w.empty(), "opened", "the closed mesh is not closed any more: %s", w.c_str());
			c.count("closedness checks");
		}
	}
	c.mix(hash_snap(snap(m)));
}
}
