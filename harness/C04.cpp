// C04: mesh subdivision covers the input surface exactly.
// Monitor: output triangles are grouped by input triangle; every output
// triangle is mapped back to integer lattice coordinates of its parent, each
// of the n*n lattice cells must be covered exactly once, in the orientation of
// the parent.
#include "vp.h"
#include "MeshFactory.h"
#include "MeshTessellate.h"
#include "MeshUtil.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh (closed primitive or random triangle soup with removed, thin, tiny and huge triangles) subdivided with 1..300 segments into a fresh or used mesh; non-trivial = at least one triangle and two segments";

long fixed_cases() { return 2; }
void run_case(Ctx& c) {
	Gen& g = c.g;
	Mesh in;
	bool fine = c.index < fixed_cases() || g.b(0.02);
	int kind = fine ? 5 : g.i(0, 5);
	bool closed = false;
	double s = g.mag();
	if (kind == 0) { MeshFactory::create_icosahedron(s, in); closed = true; }
	else if (kind == 1) { MeshFactory::create_box(s, g.mag(), g.mag(), in); closed = true; }
	else if (kind == 2) { MeshFactory::create_torus(3 * s, s, g.i(1, 2), in); closed = true; }
	else {
		bool large = !fine && g.b(0.01);
		int nt = fine ? g.i(1, 2) : large ? g.i(100, 2500) : g.size(0, 14);
		if (large) c.count("large meshes");
		int nv = g.size(3, 20);
		double sc = g.mag(1e-6, 1e6);
		for (int k = 0; k < nv; k++) in.add_vertex(g.b(0.2) ? Point3(g.i(-3, 3), g.i(-3, 3), g.i(-3, 3)) * sc : g.pt(sc));
		for (int k = 0; k < nt; k++) in.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
	}
	if (g.b(0.4)) for (int k = 0; k < in.nb_triangles(); k++) if (g.b(0.25)) { in.unlink_triangle(k); closed = false; }
	in.set_color(g.i(0, 0xffffff));
	int n = g.size(1, c.thorough ? 40 : 16);
	if (c.index < fixed_cases()) { n = c.index ? 300 : 257; c.count("very fine subdivisions"); }
	else if (fine) n = g.i(17, 128);
	else if (in.nb_triangles() * n * n > 20000) n = g.i(1, 3);
	Snap a = snap(in);
	auto tin = a.live();
	c.desc("%zu triangles (%zu removed), %d segments", tin.size(), a.t.size() - tin.size(), n);
	c.mix(hash_snap(a)); c.mix(n);
	c.nontrivial = !tin.empty() && n > 1;
	if (fine && !tin.empty()) c.count("fine subdivisions");
	Mesh out;
	if (g.b(0.4)) dirty(g, out);
	MeshTessellate mt;
	if (g.b(0.2)) { Mesh other, tmp; MeshFactory::create_tetrahedron(2, other); mt.compute(other, g.i(1, 4), tmp); } // used before
	mt.compute(in, n, out);
	expect_same(snap(in), a, "input-changed", "input of the subdivision");
	Snap o = snap(out);
	auto t = o.live();
	VP_CHECK(t.size() == o.t.size(), "removed", "the subdivided mesh has removed triangles");
	VP_CHECK(t.size() == tin.size() * (size_t)(n * n), "count", "%zu triangles subdivided with %d give %zu instead of %zu", tin.size(), n, t.size(), tin.size() * n * n);
	c.count("triangles produced", t.size());
	size_t at = 0;
	for (auto& q : tin) {
		V A(a.v[q[0]]), B(a.v[q[1]]), C(a.v[q[2]]);
		V N = (B - A).cross(C - A);
		ld size = std::max({absmax(A), absmax(B), absmax(C)}) + 1e-300L;
		ld l = std::max({(B - A).n(), (C - A).n(), (C - B).n()});
		bool flat = N.n() < 1e-7L * l * l || l < 1e-6L * size;
		std::set<std::array<int, 3>> seen;
		for (int k = 0; k < n * n; k++, at++) {
			auto& x = t[at];
			V P[3] = {V(o.v[x[0]]), V(o.v[x[1]]), V(o.v[x[2]])};
			if (flat) { // degenerate parent: corners must still be lattice points of it
				for (auto& p : P) {
					ld best = 1e300L;
					for (int i = 0; i <= n; i++) for (int j = 0; i + j <= n; j++) best = std::min(best, (p - (A + (B - A) * ((ld)i / n) + (C - A) * ((ld)j / n))).n());
					VP_CHECK(best <= 1e-12L * size * 8, "lattice", "a corner is %Lg away from the lattice of its parent", best);
				}
				if (n > 6) { at += n * n - k; break; }
				continue;
			}
			int L[3][2];
			for (int r = 0; r < 3; r++) {
				V d = P[r] - A;
				ld u = d.cross(C - A).dot(N) / N.n2(), v = (B - A).cross(d).dot(N) / N.n2();
				L[r][0] = (int)lrintl(u * n); L[r][1] = (int)lrintl(v * n);
				V w = A + (B - A) * ((ld)L[r][0] / n) + (C - A) * ((ld)L[r][1] / n);
				VP_CHECK((w - P[r]).n() <= 1e-13L * size * 16, "lattice", "corner %s of parent triangle (%d,%d,%d) is %Lg away from the lattice", str(P[r]).c_str(), q[0], q[1], q[2], (w - P[r]).n());
				VP_CHECK(L[r][0] >= 0 && L[r][1] >= 0 && L[r][0] + L[r][1] <= n, "outside", "lattice point (%d,%d) is out of the parent", L[r][0], L[r][1]);
			}
			int det = (L[1][0] - L[0][0]) * (L[2][1] - L[0][1]) - (L[1][1] - L[0][1]) * (L[2][0] - L[0][0]);
			VP_CHECK(det == 1, "orientation", "a sub-triangle has lattice area %d/2 instead of 1/2", det);
			// unit lattice triangle: congruent iff its edges are among the three lattice directions
			for (int r = 0; r < 3; r++) {
				int du = L[(r + 1) % 3][0] - L[r][0], dv = L[(r + 1) % 3][1] - L[r][1];
				bool ok = abs(du) <= 1 && abs(dv) <= 1 && du * dv <= 0;
				VP_CHECK(ok, "congruent", "sub-triangle edge (%d,%d) is not a lattice direction", du, dv);
			}
			std::array<int, 3> key = {L[0][0] + L[1][0] + L[2][0], L[0][1] + L[1][1] + L[2][1], 0};
			VP_CHECK(seen.insert(key).second, "overlap", "a lattice cell is covered twice");
		}
	}
	ld e = std::max(extent(a.v), extent(o.v)) + 1e-300L, nn = t.size() + 4;
	ld da = area(a.v, tin) - area(o.v, t), dv = volume(a.v, tin) - volume(o.v, t);
	VP_CHECK(fabsl(da) <= 1e-12L * e * e * nn, "area", "area changed by %Lg", da);
	VP_CHECK(fabsl(dv) <= 1e-12L * e * e * e * nn, "volume", "volume changed by %Lg", dv);
	if (closed && t.size() < 2500) {
		double tol = 1e300;
		for (auto& q : t) for (int k = 0; k < 3; k++) tol = std::min(tol, (double)(V(o.v[q[k]]) - V(o.v[q[(k + 1) % 3]])).n() / 8);
		if (tol > 1e-9 * (double)e) {
			auto rep = weld(o.v, tol);
			std::vector<Tri> w;
			for (auto& q : t) w.push_back(Tri{rep[q[0]], rep[q[1]], rep[q[2]]});
			std::string why = why_not_closed(w);
			VP_CHECK(why.empty(), "not-closed", "subdivided closed mesh: %s", why.c_str());
			if (o.v.size() < 1500) { // the library's own merge agrees
				MeshUtil::merge_vertices(out, tol);
				why = why_not_closed(snap(out).live());
				VP_CHECK(why.empty(), "not-closed", "subdivided closed mesh after merging: %s", why.c_str());
			}
			c.count("closed meshes");
		}
	}
}
}
