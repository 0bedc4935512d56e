// C01: a mesh is exactly the record of its edit history.
// Monitor: a list-based model is updated with every operation; every answer of
// the mesh is compared with the model's (bit for bit), all live objects are
// compared in full at quiescent points.
#include "vp.h"
#include <memory>
using namespace vp;
namespace vp {
const char* kRule = "case = random history of 5..400 operations (the first cases: meshes of up to 300 000 vertices and triangles) (add/move vertices, add/remove/query triangles, append, self-append, copy, assign, self-assign, colour, clear, destroy) over 1..5 live meshes, every answer compared with a list model; non-trivial = at least one triangle removed or one copy/assign/append made on a non-empty mesh";

struct Obj { std::unique_ptr<Mesh> m; Snap s; };

static void full(const Obj& o, Ctx& c) {
	expect_same(snap(*o.m), o.s, "record-differs", "mesh against the record of its history");
	VP_CHECK(o.m->empty() == o.s.t.empty(), "empty", "empty() is %d with %zu triangles", o.m->empty(), o.s.t.size());
	c.count("full comparisons");
}

static Snap copied(const Snap& s) {
	Snap r; r.v = s.v; r.color = s.color;
	r.t = s.live(); r.dead.assign(r.t.size(), 0);
	return r;
}
static void append(Snap& d, const Snap& f0) {
	Snap f = f0;
	int n = (int)d.v.size();
	d.v.insert(d.v.end(), f.v.begin(), f.v.end());
	for (auto q : f.live()) { d.t.push_back(Tri{q[0] + n, q[1] + n, q[2] + n}); d.dead.push_back(0); }
	d.color = f.color;
}

static void query(Obj& o, Ctx& c) {
	Gen& g = c.g;
	const Mesh& m = *o.m;
	const Snap& s = o.s;
	VP_CHECK(m.nb_vertices() == (int)s.v.size(), "nb_vertices", "%d vertices instead of %zu", m.nb_vertices(), s.v.size());
	VP_CHECK(m.nb_triangles() == (int)s.t.size(), "nb_triangles", "%d triangles instead of %zu", m.nb_triangles(), s.t.size());
	VP_CHECK(m.get_color() == s.color, "color", "colour %d instead of %d", m.get_color(), s.color);
	VP_CHECK(m.empty() == s.t.empty(), "empty", "empty() is %d with %zu triangles", m.empty(), s.t.size());
	c.count("queries");
	if (!s.v.empty()) {
		int k = g.i(0, (int)s.v.size() - 1);
		Point3 p(1, 2, 3);
		m.get_vertex(k, p);
		VP_CHECK(same_bits(p, s.v[k]), "vertex", "vertex %d is %s instead of %s", k, str(p).c_str(), str(s.v[k]).c_str());
	}
	if (!s.t.empty()) {
		int k = g.i(0, (int)s.t.size() - 1);
		int a = -7, b = -7, d = -7;
		m.get_triangle_vertices(k, a, b, d);
		VP_CHECK((Tri{a, b, d}) == s.t[k], "triangle", "triangle %d is %d %d %d instead of %d %d %d", k, a, b, d, s.t[k][0], s.t[k][1], s.t[k][2]);
		VP_CHECK(m.is_triangle_unlinked(k) == (bool)s.dead[k], "removed", "triangle %d: removed is %d instead of %d", k, m.is_triangle_unlinked(k), s.dead[k]);
		Point3 p1, p2, p3;
		m.get_triangle_vertices(k, p1, p2, p3);
		Triangle3 t;
		m.get_triangle(k, t);
		for (int r = 0; r < 3; r++) {
			const Point3& w = s.v[s.t[k][r]];
			const Point3& q = r == 0 ? p1 : r == 1 ? p2 : p3;
			const Point3& u = r == 0 ? t.p1() : r == 1 ? t.p2() : t.p3();
			VP_CHECK(same_bits(q, w), "corner", "corner %d of triangle %d is %s instead of %s", r, k, str(q).c_str(), str(w).c_str());
			VP_CHECK(same_bits(u, w), "corner", "get_triangle(%d) corner %d is %s instead of %s", k, r, str(u).c_str(), str(w).c_str());
		}
		int n1 = -9, n2 = -9, n3 = -9;
		m.get_near_triangles(k, n1, n2, n3);
		for (int n : {n1, n2, n3}) VP_CHECK(n >= -1 && n < m.nb_triangles(), "near", "neighbour %d of triangle %d does not exist", n, k);
		c.count("triangle queries");
	}
}

// meshes of more vertices and triangles than 16 (or 17) bits can number
static void huge(Ctx& c) {
	Gen& g = c.g;
	Obj x, y; x.m.reset(new Mesh); y.m.reset(new Mesh);
	int nv = c.index == 0 ? 70000 : c.index == 1 ? 140000 : 33000, nt = c.index == 0 ? 140000 : c.index == 1 ? 70000 : 300000;
	auto grow = [&](Obj& o, int v, int t) {
		for (int k = 0; k < v; k++) { Point3 p(k, g.u01(), -k); int id = o.m->add_vertex(p); VP_CHECK(id == (int)o.s.v.size(), "vertex-id", "add_vertex returned %d instead of %zu", id, o.s.v.size()); o.s.v.push_back(p); }
		int n = (int)o.s.v.size();
		for (int k = 0; k < t; k++) { int a = g.i(0, n - 1), b = g.i(0, n - 1), d = n - 1 - k % n; int id = o.m->add_triangle(a, b, d); VP_CHECK(id == (int)o.s.t.size(), "triangle-id", "add_triangle returned %d instead of %zu", id, o.s.t.size()); o.s.t.push_back(Tri{a, b, d}); o.s.dead.push_back(0); }
	};
	auto cut = [&](Obj& o, int n) { for (int k = 0; k < n; k++) { int id = k * 7 < (int)o.s.t.size() && k < 5 ? (int)o.s.t.size() - 1 - k * 7 : g.i(0, (int)o.s.t.size() - 1); o.m->unlink_triangle(id); o.s.dead[id] = 1; c.count("removals"); } };
	auto move = [&](Obj& o, int n) { for (int k = 0; k < n; k++) { int id = k < 5 ? (int)o.s.v.size() - 1 - k : g.i(0, (int)o.s.v.size() - 1); Point3 p = g.anypt(); o.m->set_vertex(id, p); o.s.v[id] = p; } };
	grow(x, nv, nt); full(x, c);
	cut(x, 500); move(x, 500); full(x, c);
	grow(y, 5, 7); cut(y, 2);
	x.m->add_mesh(*y.m); append(x.s, y.s); full(x, c); full(y, c); c.count("appends");
	y.m->add_mesh(*x.m); append(y.s, x.s); full(y, c); full(x, c); c.count("appends");
	y.m->add_mesh(*y.m); { Snap w = y.s; append(y.s, w); } full(y, c); c.count("self-appends");
	cut(y, 100); move(y, 100);
	*x.m = *y.m; x.s = copied(y.s); full(x, c); c.count("assignments");
	move(x, 100); cut(x, 100); full(y, c); full(x, c);
	for (int k = 0; k < 200; k++) { query(x, c); query(y, c); }
	x.m->clear(); x.s.v.clear(); x.s.t.clear(); x.s.dead.clear(); full(x, c); full(y, c); c.count("clears");
	grow(x, 10, 20); full(x, c);
	c.desc("large meshes: %d vertices, %d triangles, appended, doubled, copied, cleared", nv, nt);
	c.mix(9000 + c.index); c.nontrivial = true; c.count("large meshes");
}
long fixed_cases() { return 3; }
void run_case(Ctx& c) {
	Gen& g = c.g;
	if (c.index < fixed_cases()) { huge(c); return; }
	int no = g.i(1, 5);
	std::vector<Obj> o(no);
	for (auto& x : o) x.m.reset(new Mesh);
	int nops = c.thorough ? g.size(5, 1500, 6000) : g.size(5, 400, 3000);
	bool big = g.b(0.04);
	size_t cap = big ? 70000 : 1500;
	int wild = g.b(0.2) ? 1 : g.b(0.1) ? 2 : 0; // any kind of coordinate, undefined and infinite ones included
	if (wild == 2) c.count("meshes with undefined coordinates");
	auto P = [&] { return wild == 2 ? Point3(g.wild(), g.wild(), g.wild()) : wild ? g.anypt() : g.pt(10.); };
	c.desc("%d meshes, %d operations", no, nops);
	for (int k = 0; k < nops; k++) {
		int ix = g.i(0, no - 1);
		Obj& x = o[ix];
		Snap& s = x.s;
		Mesh& m = *x.m;
		int op = g.i(0, 23);
		c.mix(op * 31 + ix);
		c.count("operations");
		if (op <= 4) {
			int n = big && g.b(0.1) ? g.size(1, 3000, 70000) : g.i(1, 4);
			for (int j = 0; j < n && s.v.size() < cap; j++) {
				Point3 p = P();
				if (!s.v.empty() && g.b(0.04)) p = g.b(0.7) ? s.v.back() : s.v[g.i(0, (int)s.v.size() - 1)]; // coincident, still a vertex of its own
				int id = g.b() ? m.add_vertex(p) : m.add_vertex(p._x, p._y, p._z);
				s.v.push_back(p);
				VP_CHECK(id == (int)s.v.size() - 1, "vertex-id", "add_vertex returned %d instead of %zu", id, s.v.size() - 1);
				p = Point3(9, 9, 9); // the mesh must have its own copy
			}
		} else if (op <= 6) {
			if (s.v.empty()) continue;
			int id = g.i(0, (int)s.v.size() - 1);
			Point3 p = P();
			if (g.b(0.15)) { // one that compares equal: the same one, or zeros of the other sign
				p = s.v[id];
				double* q[3] = {&p._x, &p._y, &p._z};
				for (double* z : q) if (*z == 0. && g.b(0.7)) *z = -*z;
			} else if (g.b(0.1)) { double* q[3] = {&p._x, &p._y, &p._z}; for (double* z : q) if (g.b()) *z = g.b() ? 0. : -0.; }
			m.set_vertex(id, p);
			s.v[id] = p;
		} else if (op <= 10) {
			if (s.v.empty()) continue;
			int n = big && g.b(0.1) ? g.size(1, 3000, 70000) : g.i(1, 3);
			for (int j = 0; j < n && s.t.size() < cap; j++) {
				int a = g.i(0, (int)s.v.size() - 1), b = g.i(0, (int)s.v.size() - 1), d = g.i(0, (int)s.v.size() - 1);
				int id = m.add_triangle(a, b, d);
				s.t.push_back(Tri{a, b, d}); s.dead.push_back(0);
				VP_CHECK(id == (int)s.t.size() - 1, "triangle-id", "add_triangle returned %d instead of %zu", id, s.t.size() - 1);
			}
		} else if (op == 11) {
			if (s.v.size() + 3 > cap) continue;
			Point3 p1 = P(), p2 = P(), p3 = P();
			int n = (int)s.v.size();
			int id = m.add_triangle(p1, p2, p3);
			s.v.push_back(p1); s.v.push_back(p2); s.v.push_back(p3);
			s.t.push_back(Tri{n, n + 1, n + 2}); s.dead.push_back(0);
			VP_CHECK(id == (int)s.t.size() - 1, "triangle-id", "add_triangle(points) returned %d instead of %zu", id, s.t.size() - 1);
		} else if (op <= 14) {
			if (s.t.empty()) continue;
			int n = g.i(1, 3);
			for (int j = 0; j < n; j++) { // also removes again already removed ones
				int id = g.i(0, (int)s.t.size() - 1);
				m.unlink_triangle(id);
				s.dead[id] = 1;
				c.nontrivial = true;
				c.count("removals");
			}
		} else if (op == 15) {
			s.color = g.b(0.2) ? -1 : g.b(0.15) ? (int)g.u64() : g.i(0, 0xffffff);
			m.set_color(s.color);
		} else if (op == 16) {
			if (g.b(0.6)) continue;
			m.clear();
			s.v.clear(); s.t.clear(); s.dead.clear();
			c.count("clears");
		} else if (op == 17) { // copy construction replaces another object
			int d = g.i(0, no - 1);
			std::unique_ptr<Mesh> n(new Mesh(m));
			Snap ns = copied(s);
			o[d].m = std::move(n);
			o[d].s = ns;
			c.nontrivial |= !ns.v.empty();
			c.count("copies");
			full(o[d], c);
		} else if (op == 18) { // assignment, possibly to itself
			int d = g.i(0, no - 1);
			Mesh& r = (*o[d].m = m);
			VP_CHECK(&r == o[d].m.get(), "assign-result", "operator= does not return the assigned object");
			if (d != ix) o[d].s = copied(s);
			c.nontrivial |= !s.v.empty();
			c.count(d == ix ? "self-assignments" : "assignments");
			full(o[d], c);
			full(x, c);
		} else if (op == 19) { // append, possibly to itself
			int d = g.i(0, no - 1);
			if (o[d].s.v.size() + s.v.size() > cap || o[d].s.t.size() + s.t.size() > cap) continue;
			o[d].m->add_mesh(m);
			append(o[d].s, s);
			c.nontrivial |= !s.v.empty();
			c.count(d == ix ? "self-appends" : "appends");
			full(o[d], c);
			if (d != ix) full(x, c);
		} else if (op == 20) {
			if (g.b(0.7)) continue;
			x.m.reset(new Mesh);
			s = Snap();
			c.count("destructions");
		} else if (op == 21) { // passed by value
			auto byval = [](Mesh q) { q.add_vertex(1, 2, 3); if (q.nb_triangles()) q.unlink_triangle(0); q.set_color(5); return q; };
			Mesh r = byval(m);
			Snap w = copied(s);
			w.v.push_back(Point3(1, 2, 3)); if (!w.t.empty()) w.dead[0] = 1; w.color = 5;
			w = copied(w);
			Snap got = snap(r);
			if (got.t.size() != w.t.size()) { // the copy may have been elided
				Snap w2 = copied(s); w2.v.push_back(Point3(1, 2, 3)); if (!w2.t.empty()) w2.dead[0] = 1; w2.color = 5;
				w = w2;
			}
			expect_same(got, w, "by-value", "mesh passed and returned by value");
			full(x, c);
		} else query(x, c);
		if (g.b(0.02)) for (auto& y : o) full(y, c);
	}
	for (auto& y : o) { full(y, c); for (int k = 0; k < 3; k++) query(y, c); }
	for (auto& y : o) c.mix(hash_snap(y.s));
	// destroy in random order, the others stay intact
	for (int k = 0; k < no; k++) {
		int d = g.i(0, no - 1);
		if (!o[d].m) continue;
		o[d].m.reset();
		for (auto& y : o) if (y.m) full(y, c);
	}
}
}
