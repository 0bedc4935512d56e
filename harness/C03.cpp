// C03: mesh primitives are closed, outward oriented and geometrically exact.
// Monitor: every generated mesh is checked against the definition of a closed
// oriented 2-manifold and against the implicit equation / exact measures of
// the requested shape, computed here in long double.
#include "vp.h"
#include "MeshFactory.h"
using namespace vp;
namespace vp {
const char* kRule = "case = one primitive (tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, geodesic sphere, UV sphere, torus) of random sizes (1e-12..1e12) and level of detail, into a fresh or used mesh; the first cases enumerate fine levels (geodesic to 28, cylinder to 20000, UV sphere and torus to 128) and all shapes with levels 1..8; every case is non-trivial, distinct by shape, sizes, level";
static const ld PI = 3.14159265358979323846264338L;
static const char* NAME[] = {"tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron", "cylinder", "sphere_geodesic", "sphere_uv", "torus"};
static const int BIG[][2] = {{6, 28}, {6, 25}, {6, 24}, {6, 23}, {6, 21}, {6, 20}, {6, 19}, {6, 17}, {6, 16}, {6, 14}, {6, 13}, {6, 12}, {6, 11}, {6, 10}, {6, 9}, {5, 1000}, {5, 4096}, {5, 16384}, {5, 20000}, {7, 100}, {7, 128}, {8, 100}, {8, 128}, {5, 64}, {7, 64}, {8, 64}};
static const int NBIG = sizeof(BIG) / sizeof(BIG[0]);
long fixed_cases() { return 9 * 8 + NBIG; }

static void build(int kind, double a, double b, double d, int n, Mesh& m) {
	using namespace MeshFactory;
	switch (kind) {
	case 0: create_tetrahedron(a, m); break;
	case 1: create_box(a, b, d, m); break;
	case 2: create_octahedron(a, m); break;
	case 3: create_dodecahedron(a, m); break;
	case 4: create_icosahedron(a, m); break;
	case 5: create_cylinder(a, b, n, m); break;
	case 6: create_sphere_geodesic(a, n, m); break;
	case 7: create_sphere_uv(a, n, m); break;
	case 8: create_torus(a, b, n, m); break;
	}
}

static bool near(ld x, ld y, ld tol) { return fabsl(x - y) <= tol; }
// is {|x|,|y|,|z|} = {p,q,r} as multisets
static bool coords(const V& v, ld p, ld q, ld r, ld tol) {
	ld a[3] = {fabsl(v.x), fabsl(v.y), fabsl(v.z)}, b[3] = {p, q, r};
	std::sort(a, a + 3); std::sort(b, b + 3);
	return near(a[0], b[0], tol) && near(a[1], b[1], tol) && near(a[2], b[2], tol);
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	int kind, n; double a = 1, b = 1, d = 1;
	if (c.index < NBIG) { kind = BIG[c.index][0]; n = BIG[c.index][1]; if (kind == 8) a = 3; c.count("fine levels"); }
	else if (c.index < fixed_cases()) { int x = (int)c.index - NBIG; kind = x % 9; n = 1 + x / 9; if (kind == 1) { b = 2; d = 3; } if (kind == 8) { a = 3; } }
	else {
		kind = g.i(0, 8);
		n = kind == 6 ? g.size(1, c.thorough ? 20 : 8) : g.size(1, c.thorough ? 60 : 30);
		if (kind == 5 && g.b(0.03)) n = g.i(30, 300);
		if (g.b(0.5)) { a = g.mag(); b = g.mag(); d = g.mag(); } else { double w = g.b() ? 1e6 : 1e12; a = g.mag(1 / w, w); b = g.mag(1 / w, w); d = g.mag(1 / w, w); }
		if (kind == 8) b = a * g.u(0.01, 0.99);
	}
	const char* nm = NAME[kind];
	c.desc("%s(%.9g, %.9g, %.9g) level %d", nm, a, b, d, n);
	c.mix(kind); c.mixd(a); c.mixd(b); c.mixd(d); c.mix(n); c.nontrivial = true;
	c.count(nm);
	Mesh m;
	if (g.b(0.4)) dirty(g, m);
	build(kind, a, b, d, n, m);
	Snap s = snap(m);
	auto t = s.live();
	const int N = 2 + 4 * n;
	// sizes
	size_t wv = 0, wf = 0; int euler = 2;
	switch (kind) {
	case 0: wv = 4; wf = 4; break;
	case 1: wv = 8; wf = 12; break;
	case 2: wv = 6; wf = 8; break;
	case 3: wv = 20; wf = 36; break;
	case 4: wv = 12; wf = 20; break;
	case 5: wv = 2 * N + 2; wf = 4 * N; break;
	case 6: wv = 10 * n * n + 2; wf = 20 * n * n; break;
	case 7: wv = N * (1 + 2 * n) + 2; wf = 2 * N * (1 + 2 * n); break;
	case 8: wv = N * (6 + 2 * n); wf = 2 * wv; euler = 0; break;
	}
	VP_CHECK(t.size() == wf, "faces", "%s level %d has %zu faces instead of %zu", nm, n, t.size(), wf);
	VP_CHECK(s.v.size() == wv, "vertices", "%s level %d has %zu vertices instead of %zu", nm, n, s.v.size(), wv);
	std::string w = why_not_closed(t);
	VP_CHECK(w.empty(), "not-closed", "%s level %d: %s", nm, n, w.c_str());
	c.count("triangles checked", t.size());
	// used and distinct vertices, one component
	std::vector<int> up(s.v.size(), -1);
	std::function<int(int)> root = [&](int x) { while (up[x] >= 0) { if (up[up[x]] >= 0) up[x] = up[up[x]]; x = up[x]; } return x; };
	std::vector<char> used(s.v.size(), 0);
	for (auto& q : t) for (int k = 0; k < 3; k++) { used[q[k]] = 1; int r1 = root(q[k]), r2 = root(q[(k + 1) % 3]); if (r1 != r2) up[r1] = r2; }
	for (size_t k = 0; k < used.size(); k++) VP_CHECK(used[k], "unused", "%s: vertex %zu is used by no triangle", nm, k);
	int comp = 0; for (int x : up) comp += x < 0;
	VP_CHECK(comp == 1, "components", "%s has %d components", nm, comp);
	VP_CHECK((int)s.v.size() - (int)t.size() / 2 == euler, "euler", "%s: Euler characteristic %d instead of %d", nm, (int)s.v.size() - (int)t.size() / 2, euler);
	double mn = a, mx = a;
	if (kind == 1) { mn = std::min({a, b, d}); mx = std::max({a, b, d}); }
	if (kind == 5 || kind == 8) { mn = std::min(a, b); mx = std::max(a, b); }
	if (kind == 8) mx = a + b;
	double sp = mn / (100. * N);
	if (sp > mx * 1e-13) {
		auto rep = weld(s.v, sp);
		for (size_t k = 0; k < rep.size(); k++) VP_CHECK(rep[k] == (int)k, "duplicate", "%s: vertices %d and %zu coincide", nm, rep[k], k);
	}
	// geometry
	const ld tol = 1e-11L * mx;
	ld vol = volume(s.v, t), ar = area(s.v, t);
	for (auto& q : t) {
		V p1(s.v[q[0]]), p2(s.v[q[1]]), p3(s.v[q[2]]), nn = (p2 - p1).cross(p3 - p1), ce = (p1 + p2 + p3) / 3;
		ld l = std::max({(p2 - p1).n(), (p3 - p1).n(), (p3 - p2).n()});
		ld hmin = nn.n() / l;
		VP_CHECK(hmin > 1e-7L * mn / N, "degenerate", "%s: triangle %d %d %d is degenerate (height %Lg)", nm, q[0], q[1], q[2], hmin);
		if (kind == 8) { // outward of the tube, at the corners
			V out;
			for (int k : q) { V p(s.v[k]); ld r = sqrtl(p.x * p.x + p.y * p.y); out = out + (p - V(p.x / r * a, p.y / r * a, 0)); }
			VP_CHECK(nn.dot(out) > 0, "inward", "torus: triangle %d %d %d looks inside", q[0], q[1], q[2]);
		} else VP_CHECK(nn.dot(ce) > 0, "inward", "%s: triangle %d %d %d looks inside", nm, q[0], q[1], q[2]);
	}
	VP_CHECK(vol > 0, "inward", "%s: volume %Lg", nm, vol);
	ld phi = (1 + sqrtl(5)) / 2, t5 = (sqrtl(5) - 1) / 2;
	ld wantV = -1, wantA = -1;
	for (size_t k = 0; k < s.v.size(); k++) {
		V v(s.v[k]);
		bool ok = true;
		switch (kind) {
		case 0: ok = coords(v, a, a, a, tol) && v.x * v.y * v.z > 0; break;
		case 1: ok = near(fabsl(v.x), a / 2, tol) && near(fabsl(v.y), b / 2, tol) && near(fabsl(v.z), d / 2, tol); break;
		case 2: ok = coords(v, 0, 0, a, tol); break;
		case 3: ok = coords(v, a, a, a, tol) || coords(v, 0, phi * a, a / phi, tol); break;
		case 4: ok = coords(v, 0, a, t5 * a, tol); break;
		case 5: { ld r = sqrtl(v.x * v.x + v.y * v.y); ok = near(fabsl(v.z), a / 2, 1e-11L * a) && (near(r, b, 1e-11L * b) || near(r, 0, 1e-11L * b)); break; }
		case 6: case 7: ok = near(v.n(), a, tol); break;
		case 8: { ld r = sqrtl(v.x * v.x + v.y * v.y) - a; ok = near(sqrtl(r * r + v.z * v.z), b, 1e-10L * (a + b)); break; }
		}
		VP_CHECK(ok, "position", "%s(%.9g,%.9g,%.9g): vertex %zu %s is not on the shape", nm, a, b, d, k, str(s.v[k]).c_str());
	}
	ld la = a, lb = b, ldd = d;
	switch (kind) {
	case 0: wantV = 8 * la * la * la / 3; wantA = sqrtl(3) * 8 * la * la; break;
	case 1: wantV = la * lb * ldd; wantA = 2 * (la * lb + lb * ldd + la * ldd); break;
	case 2: wantV = 4 * la * la * la / 3; wantA = 4 * sqrtl(3) * la * la; break;
	case 3: { ld e = 2 * la / phi; wantV = (15 + 7 * sqrtl(5)) / 4 * e * e * e; wantA = 3 * sqrtl(25 + 10 * sqrtl(5)) * e * e; break; }
	case 4: { ld e = 2 * la * t5; wantV = 5 * (3 + sqrtl(5)) / 12 * e * e * e; wantA = 5 * sqrtl(3) * e * e; break; }
	case 5: { ld base = N / 2.0L * lb * lb * sinl(2 * PI / N); wantV = base * la; wantA = 2 * base + N * 2 * lb * sinl(PI / N) * la; break; }
	case 7: case 8: { // polyhedron with planar trapezoids
		int lat = kind == 7 ? 2 + 2 * n : 6 + 2 * n;
		ld A = 0, Vv = 0;
		auto P = [&](int lo, int li) {
			ld u = 2 * PI * lo / N;
			if (kind == 7) { ld q = PI * li / lat; return V(la * sinl(q) * cosl(u), la * sinl(q) * sinl(u), la * cosl(q)); }
			ld q = 2 * PI * li / lat; ld r = la + lb * cosl(q);
			return V(r * cosl(u), r * sinl(u), lb * sinl(q));
		};
		for (int li = 0; li < lat; li++) {
			V q[4] = {P(0, li), P(1, li), P(1, li + 1), P(0, li + 1)};
			V n1 = (q[2] - q[0]).cross(q[3] - q[1]) / 2; // vector area of a planar quad
			A += n1.n() * N; Vv += fabsl(0) + n1.dot((q[0] + q[1] + q[2] + q[3]) / 4) / 3 * N;
		}
		wantV = fabsl(Vv); wantA = A;
		break;
	}
	case 6: {
		ld sv = 4 * PI / 3 * la * la * la, sa = 4 * PI * la * la;
		VP_CHECK(vol < sv && vol > sv * (1 - 0.6L / n / n), "volume", "geodesic sphere level %d: volume %Lg for an ideal %Lg", n, vol, sv);
		VP_CHECK(ar < sa && ar > sa * (1 - 0.5L / n / n), "area", "geodesic sphere level %d: area %Lg for an ideal %Lg", n, ar, sa);
		ld lo = 1e300L, hi = 0;
		for (auto& q : t) for (int k = 0; k < 3; k++) { ld l = (V(s.v[q[k]]) - V(s.v[q[(k + 1) % 3]])).n(); lo = std::min(lo, l); hi = std::max(hi, l); }
		VP_CHECK(hi <= 1.9L * lo, "edges", "geodesic sphere level %d: edges between %Lg and %Lg", n, lo, hi);
		break;
	}
	}
	if (wantV >= 0) {
		VP_CHECK(near(vol, wantV, 1e-9L * wantV), "volume", "%s(%.9g,%.9g,%.9g) level %d: volume %.15Lg instead of %.15Lg", nm, a, b, d, n, vol, wantV);
		VP_CHECK(near(ar, wantA, 1e-9L * wantA), "area", "%s(%.9g,%.9g,%.9g) level %d: area %.15Lg instead of %.15Lg", nm, a, b, d, n, ar, wantA);
	}
}
}
