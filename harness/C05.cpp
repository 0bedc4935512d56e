// C05: vertex merging and empty-triangle removal change nothing else.
#include "vp.h"
#include "MeshUtil.h"
#include "MeshFactory.h"
#include "MeshTessellate.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh with clusters, chains and duplicates of vertices around the tolerance (exactly at the tolerance on lattices, else away from it by more than rounding), removed and degenerate triangles, merged or cleaned with a random tolerance; non-trivial = at least one vertex merged or one triangle removed";

// distances used for decisions must not be within rounding of the tolerance
static bool ambiguous(const Snap& s, double tol) {
	for (size_t i = 0; i < s.v.size(); i++)
		for (size_t j = 0; j < i; j++) {
			ld d = (V(s.v[i]) - V(s.v[j])).n();
			if (fabsl(d - tol) < 1e-10L * tol) return true;
		}
	return false;
}

long fixed_cases() { return 2; }
void run_case(Ctx& c) {
	Gen& g = c.g;
	Mesh m;
	double tol = g.b(0.3) ? 1e-6 : g.b(0.1) ? g.mag(1e-60, 1e60) : g.mag(1e-9, 10.);
	bool deftol = tol == 1e-6 && g.b();
	int kind = g.i(0, 5);
	if (c.index < fixed_cases()) { // many vertices, near ones far from each other in the list
		int nv = c.index == 0 ? 5000 : 2600;
		tol = 0.25; deftol = false; kind = 2;
		for (int k = 0; k < nv; k++) {
			int cell = k < nv / 2 ? k : c.index == 0 ? nv - 1 - k : k - nv / 2;
			m.add_vertex(Point3(cell % 17, cell / 17 % 19, cell / 323) + g.dir() * g.u(0, 0.1));
		}
		for (int k = 0; k < 2 * nv; k++) { int b = k < nv ? k : g.i(0, nv - 1); m.add_triangle(g.i(0, nv - 1), b, g.b(0.1) ? b : g.b(0.1) ? (c.index == 0 ? nv - 1 - b : (b + nv / 2) % nv) : g.i(0, nv - 1)); }
		c.count("large meshes");
	} else if (kind == 0) {
		Mesh t; MeshFactory::create_icosahedron(g.mag(0.1, 10), t);
		MeshTessellate().compute(t, g.i(1, 3), m);
	} else {
		int nv = g.size(0, kind == 1 ? (c.thorough ? 600 : 150) : 60, 2100);
		std::vector<Point3> p;
		for (int k = 0; k < nv; k++) {
			double r = g.u01();
			if (p.empty() || r < 0.35) p.push_back(g.pt(tol * g.mag(1, 1000)));
			else if (r < 0.5) p.push_back(p[g.i(0, (int)p.size() - 1)]); // exact duplicate
			else if (r < 0.75) p.push_back(p[g.i(0, (int)p.size() - 1)] + g.dir() * (tol * g.u(0., 0.999)));
			else if (r < 0.8) p.push_back(p.back() + (g.b() ? g.dir() : Point3(g.sgn(), 0, 0)) * (tol * (1. + g.sgn() * g.logu(1e-8, 1e-2)))); // almost at the tolerance
			else if (r < 0.9) p.push_back(p.back() + g.dir() * (tol * g.u(0.5, 1.5))); // chain
			else p.push_back(p[g.i(0, (int)p.size() - 1)] + g.dir() * (tol * g.u(1.001, 3.)));
		}
		for (auto& q : p) m.add_vertex(q);
		int nt = nv ? g.size(0, 60, 4000) : 0;
		for (int k = 0; k < nt; k++) m.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
	}
	bool exact = c.index >= fixed_cases() && g.b(0.15);
	if (exact) { // lattice points: distances equal to the tolerance are exact
		Mesh e; double q = std::ldexp(1., g.i(-12, 4));
		int nv = g.size(1, 60);
		for (int k = 0; k < nv; k++) e.add_vertex(Point3(g.i(-4, 4), g.i(-4, 4), g.b() ? 0 : g.i(-2, 2)) * q);
		for (int k = g.size(0, 40); k > 0; k--) e.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
		m = e; tol = q * g.i(0, 5); deftol = false;
		if (tol == 0.) { // nothing is closer than zero
			for (int k = g.i(0, 5); k > 0; k--) { Point3 p; m.get_vertex(g.i(0, m.nb_vertices() - 1), p); m.add_vertex(p + g.dir() * g.mag(1e-19, 1e-14)); }
			c.count("zero tolerance");
		}
	}
	if (c.index >= fixed_cases() && m.nb_vertices() && g.b(0.08)) { // the distance to these vertices is never less than the tolerance
		static const double sp[] = {NAN, INFINITY, -INFINITY, -NAN};
		for (int k = g.i(1, 4); k > 0; k--) { int v = g.i(0, m.nb_vertices() - 1); Point3 p; m.get_vertex(v, p); (g.b() ? p._x : g.b() ? p._y : p._z) = sp[g.i(0, 3)]; m.set_vertex(v, p); if (g.b()) m.add_vertex(p); }
		c.count("undefined or infinite vertices");
	}
	if (g.b(0.5)) for (int k = 0; k < m.nb_triangles(); k++) if (g.b(0.25)) m.unlink_triangle(k);
	if (g.b(0.8)) m.set_color(g.i(0, 0xffffff));
	Snap a = snap(m);
	if (!exact && ambiguous(a, tol)) { c.desc("ambiguous distances"); return; }
	c.mix(hash_snap(a)); c.mixd(tol);
	c.desc("%zu vertices, %zu triangles, tolerance %g", a.v.size(), a.t.size(), tol);
	auto within = [&](int i, int j) { return (V(a.v[i]) - V(a.v[j])).n2() < (ld)tol * tol; };
	if (exact) for (size_t i = 0; i < a.v.size(); i++) for (size_t j = 0; j < i; j++) if ((V(a.v[i]) - V(a.v[j])).n2() == (ld)tol * tol) c.count("distances equal to the tolerance");

	if (c.index == 1 || (c.index != 0 && g.b(0.4))) { // remove_empty_triangles
		if (deftol) MeshUtil::remove_empty_triangles(m); else MeshUtil::remove_empty_triangles(m, tol);
		Snap b = snap(m), w = a;
		for (size_t k = 0; k < a.t.size(); k++) {
			if (a.dead[k]) continue;
			auto q = a.t[k];
			if (within(q[0], q[1]) || within(q[1], q[2]) || within(q[2], q[0])) { w.dead[k] = 1; c.nontrivial = true; c.count("empty triangles removed"); }
			else c.count("triangles kept");
		}
		expect_same(b, w, "remove-empty", "remove_empty_triangles");
		return;
	}
	if (deftol) MeshUtil::merge_vertices(m); else MeshUtil::merge_vertices(m, tol);
	Snap b = snap(m);
	// kept vertices, decided in order
	std::vector<int> kept;
	std::vector<char> isKept(a.v.size(), 0);
	for (size_t i = 0; i < a.v.size(); i++) {
		bool near = false;
		for (int j : kept) if (within((int)i, j)) { near = true; break; }
		if (!near) { kept.push_back((int)i); isKept[i] = 1; } else c.count("vertices merged");
	}
	c.nontrivial = kept.size() != a.v.size();
	VP_CHECK(b.v.size() == kept.size(), "kept", "%zu vertices kept instead of %zu (tolerance %.17g)", b.v.size(), kept.size(), tol);
	for (size_t k = 0; k < kept.size(); k++) VP_CHECK(same_bits(b.v[k], a.v[kept[k]]), "position", "kept vertex %zu is %s instead of %s", k, str(b.v[k]).c_str(), str(a.v[kept[k]]).c_str());
	auto live = a.live();
	VP_CHECK(b.t.size() == live.size(), "triangles", "%zu triangles instead of %zu", b.t.size(), live.size());
	VP_CHECK(b.color == a.color, "color", "colour %d instead of %d", b.color, a.color);
	for (size_t k = 0; k < live.size(); k++) {
		VP_CHECK(!b.dead[k], "removed", "triangle %zu is removed", k);
		for (int r = 0; r < 3; r++) {
			int old = live[k][r], nw = b.t[k][r];
			VP_CHECK(nw >= 0 && nw < (int)kept.size(), "index", "triangle %zu refers to vertex %d of %zu", k, nw, kept.size());
			if (isKept[old]) VP_CHECK(kept[nw] == old, "corner", "corner %d of triangle %zu was the kept vertex %d, is now %d", r, k, old, kept[nw]);
			else VP_CHECK(within(old, kept[nw]) && kept[nw] < old, "corner", "corner %d of triangle %zu moved from vertex %d to %d at %Lg (tolerance %g)", r, k, old, kept[nw], (V(a.v[old]) - V(a.v[kept[nw]])).n(), tol);
		}
	}
	// same alias for a vertex wherever it is used
	std::map<int, int> al;
	for (size_t k = 0; k < live.size(); k++) for (int r = 0; r < 3; r++) {
		auto it = al.emplace(live[k][r], b.t[k][r]).first;
		VP_CHECK(it->second == b.t[k][r], "split", "vertex %d was merged into two different vertices", live[k][r]);
	}
	Mesh m2(m);
	MeshUtil::merge_vertices(m2, tol);
	expect_same(snap(m2), b, "idempotent", "second merge");
	c.count("merges");
}
}
