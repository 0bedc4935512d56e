// C08: geometric predicates give the true answer away from degeneracy.
#include "spline.h"
#include "GeometryUtil.h"
using namespace vp;
namespace vp {
const char* kRule = "case = one configuration of points, segments, planes (two planes crossing included), triangles or boxes at a random scale, position and vertex order, decided in long double; configurations within 1e-5 (relative) of a decision boundary are not judged; non-trivial = judged";

static const ld M = 1e-5L;
struct Place { // rigid motion + scale + translation
	Affine a;
	double s, off;
	Point3 operator()(const V& v) const { return a(v).p(); }
};
static Place place(Gen& g) {
	Place p;
	p.s = g.b(0.3) ? 1. : g.b(0.2) ? g.logu(1e-14, 1e14) : g.logu(1e-5, 1e5);
	if (g.b(0.7)) p.a = rodrigues(g.b(0.3) ? 90 * g.i(0, 3) : g.u(0, 360), V(g.dir()));
	for (auto& r : p.a.a) for (ld& x : r) x *= p.s;
	p.off = g.b(0.3) ? 0. : p.s * g.mag(0.1, 30);
	p.a.b = V(g.dir()) * p.off;
	return p;
}
// triangle of size ~1 with quality >= q
static void tri(Gen& g, V t[3], ld q = 0.03L) {
	for (;;) {
		int grid = g.i(0, 3);
		for (int k = 0; k < 3; k++) t[k] = grid == 0 ? V(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)) : V(g.pt(1.5));
		if (grid == 1) { t[0].z = t[1].z = t[2].z = 0; }
		ld a = (t[1] - t[0]).cross(t[2] - t[0]).n();
		ld e = std::max((t[1] - t[0]).n2(), std::max((t[2] - t[0]).n2(), (t[2] - t[1]).n2()));
		if (e > 0.04L && a / e > q) return;
	}
}
static Triangle3 mk(Gen& g, const Point3 t[3]) { // any vertex order and construction
	std::vector<int> o = {0, 1, 2};
	g.shuffle(o);
	if (g.b(0.8)) return Triangle3(t[o[0]], t[o[1]], t[o[2]]);
	Triangle3 r;
	r.set_p1(t[o[0]]); r.set_p2(t[o[1]]); r.set_p3(t[o[2]]);
	return r;
}
static Segment3 mk(Gen& g, const Point3& a, const Point3& b) {
	if (g.b(0.8)) return g.b() ? Segment3(a, b) : Segment3(b, a);
	Segment3 s; s.set_p1(a); s.set_p2(b); return s;
}
static void bary(const V t[3], const V& p, ld b[3]) {
	V n = (t[1] - t[0]).cross(t[2] - t[0]);
	ld d = n.n2();
	b[0] = (t[1] - p).cross(t[2] - p).dot(n) / d;
	b[1] = (t[2] - p).cross(t[0] - p).dot(n) / d;
	b[2] = (t[0] - p).cross(t[1] - p).dot(n) / d;
}
enum { MISS = 0, HIT = 1, UNSURE = 2 };
// truth for the open segment against the plane of t
static int planeSeg(const V t[3], const V& a, const V& b, V& x) {
	V n = (t[1] - t[0]).cross(t[2] - t[0]); n = n / n.n();
	ld size = std::max((t[1] - t[0]).n(), (t[2] - t[0]).n());
	ld da = n.dot(a - t[0]), db = n.dot(b - t[0]), len = (b - a).n();
	ld m = M * std::max(len, std::max(size, std::max((a - t[0]).n(), (b - t[0]).n())));
	if ((da > m && db > m) || (da < -m && db < -m)) return MISS;
	if ((da > m && db < -m) || (da < -m && db > m)) { x = a + (b - a) * (da / (da - db)); return HIT; }
	return UNSURE;
}
static int triSeg(const V t[3], const V& a, const V& b, V& x) {
	int r = planeSeg(t, a, b, x);
	if (r != HIT) return r;
	ld q[3]; bary(t, x, q);
	// conditioning of the crossing point
	V n = (t[1] - t[0]).cross(t[2] - t[0]); n = n / n.n();
	if (fabsl(n.dot(b - a)) < 1e-3L * (b - a).n()) return UNSURE;
	ld lo = std::min(q[0], std::min(q[1], q[2]));
	return lo > M * 10 ? HIT : lo < -M * 10 ? MISS : UNSURE;
}

static void planes(Ctx& c) {
	Gen& g = c.g;
	Place pl = place(g);
	V t[3]; tri(g, t, 0.01L);
	Point3 p[3]; V w[3];
	for (int k = 0; k < 3; k++) { p[k] = pl(t[k]); w[k] = p[k]; }
	V n = (w[1] - w[0]).cross(w[2] - w[0]); n = n / n.n();
	Plane3 P;
	switch (g.i(0, 3)) {
	case 0: P = Plane3(p[0], p[1], p[2]); break;
	case 1: P = Plane3(Triangle3(p[0], p[1], p[2])); break;
	case 2: P.compute_using(p[0], p[1], p[2]); break;
	default: P.compute_using(Triangle3(p[0], p[1], p[2]));
	}
	ld scale = pl.s * 4 + pl.off, tn = 1e-11L * (1 + pl.off / pl.s), td = tn * scale * 4;
	V pn = V(P.normal());
	VP_CHECK((pn - n).n() <= tn, "plane-normal", "normal %s instead of %s", str(pn).c_str(), str(n).c_str());
	double a, b, d, e; P.get(a, b, d, e);
	VP_CHECK(P.normal()._x == a && P.normal()._y == b && P.normal()._z == d, "plane-get", "get() disagrees with normal()");
	for (int k = 0; k < 5; k++) {
		Point3 q = k < 3 ? p[k] : pl(V(g.pt(k == 3 ? 2. : 20.)));
		ld want = n.dot(V(q) - w[0]);
		ld tol = td * (k < 4 ? 1 : 10);
		VP_CHECK(fabsl(P.distance_to(q) - want) <= tol, "plane-distance", "distance of %s is %.17g instead of %.17Lg", str(q).c_str(), P.distance_to(q), want);
		Point3 r(9, 9, 9); P.project_point(q, r);
		V wr = V(q) - n * want;
		VP_CHECK(absmax(V(r) - wr) <= tol * 2, "plane-projection", "projection of %s is %s instead of %s", str(q).c_str(), str(r).c_str(), str(wr).c_str());
		Point3 al = q; P.project_point(al, al); // in place
		VP_CHECK(absmax(V(al) - wr) <= tol * 2, "plane-projection", "projection in place of %s is %s instead of %s", str(q).c_str(), str(al).c_str(), str(wr).c_str());
	}
	c.mixd(p[0]._x); c.mixd(p[1]._y);
	{ // another plane: crosses unless parallel
		Point3 o[3]; V n2;
		if (g.b(0.3)) { V mv = V(g.dir()) * (pl.s * g.u(0, 3)); for (int k = 0; k < 3; k++) o[k] = (w[k] + mv).p(); }
		else if (g.b()) { V u[3]; tri(g, u); for (int k = 0; k < 3; k++) o[k] = pl(u[k]); }
		else { V r = V(g.dir()).cross(n); if (r.n() < 0.1L) r = V(w[1] - w[0]) / pl.s; V ax = r / r.n(); ld t = g.logu(1e-6, 0.3); for (int k = 0; k < 3; k++) { V d = w[k] - w[0]; o[k] = (w[0] + d * cosl(t) + ax.cross(d) * sinl(t) + ax * (ax.dot(d) * (1 - cosl(t)))).p(); } }
		n2 = (V(o[1]) - V(o[0])).cross(V(o[2]) - V(o[0])); n2 = n2 / n2.n();
		ld sn = n.cross(n2).n(); Line3 line;
		bool cross = P.intersect_with(Plane3(o[0], o[1], o[2]), line), back = Plane3(o[0], o[1], o[2]).intersect_with(P, line);
		if (sn > 1e-7L) { VP_CHECK(cross && back, "plane-plane", "two planes at an angle of %Lg are said not to cross", asinl(std::min(sn, 1.L))); c.count("plane-plane crossings"); }
		else if (sn < 1e-11L) { VP_CHECK(!cross && !back, "plane-plane", "two parallel planes are said to cross"); c.count("parallel planes"); }
	}
	// cut of a triangle
	V u[3]; tri(g, u);
	Point3 up[3]; ld dist[3];
	if (g.b(0.3)) { V mv = V(g.dir()) * g.u(0.5, 3); for (auto& x : u) x = x + mv; }
	for (int k = 0; k < 3; k++) { up[k] = pl(u[k]); dist[k] = n.dot(V(up[k]) - w[0]); }
	ld m = 1e-5L * pl.s * 4, lo = std::min(dist[0], std::min(dist[1], dist[2])), hi = std::max(dist[0], std::max(dist[1], dist[2]));
	Triangle3 T = mk(g, up);
	if (lo < -m && hi > m) { VP_CHECK(T.cutted_by(P), "triangle-cut", "a plane with distances %Lg %Lg %Lg does not cut the triangle", dist[0], dist[1], dist[2]); c.count("plane cuts"); }
	else if (lo > m || hi < -m) { VP_CHECK(!T.cutted_by(P), "triangle-cut", "a plane with distances %Lg %Lg %Lg cuts the triangle", dist[0], dist[1], dist[2]); c.count("plane misses"); }
	// segment
	for (int k = 0; k < 3; k++) {
		Point3 s1 = pl(V(g.pt(2.))), s2 = pl(V(g.pt(2.)));
		V x; int r = planeSeg(w, V(s1), V(s2), x);
		if (r == UNSURE) continue;
		Point3 got(7, 7, 7);
		bool hit = P.intersect_with(mk(g, s1, s2), got);
		VP_CHECK(hit == (r == HIT), "plane-segment", "segment %s %s %s the plane", str(s1).c_str(), str(s2).c_str(), hit ? "is said to cross" : "is said to miss");
		if (hit) {
			ld sn = fabsl(n.dot(V(s2) - V(s1))) / (V(s2) - V(s1)).n();
			VP_CHECK((V(got) - x).n() <= td * 10 / sn, "plane-segment-point", "intersection %s instead of %s", str(got).c_str(), str(x).c_str());
		}
		c.count(hit ? "plane-segment hits" : "plane-segment misses");
	}
	c.nontrivial = true;
}
static void segments(Ctx& c) {
	Gen& g = c.g;
	Place pl = place(g);
	// lines through two nearest points, or arbitrary segments
	Point3 a, b, p, q;
	int mode = g.i(0, 4);
	if (mode == 0) { a = pl(V(g.pt(1))); b = pl(V(g.pt(1))); p = pl(V(g.pt(1))); q = pl(V(g.pt(1))); }
	else {
		V x(g.pt(0.5)), d1(g.dir()), d2(g.dir());
		if ((mode == 1 || mode == 2) && g.b(0.25)) d2 = d1 * (g.b() ? 1 : -1) + d2 * g.logu(4e-4, 0.1), d2 = d2 / d2.n(); // nearly the same direction
		if (mode == 4) { d1 = V(1, 0, 0); d2 = V(0, 1, 0); x = V(g.i(-1, 1), g.i(-1, 1), 0); }
		ld l1 = g.b(0.7) ? 1 : g.logu(0.05, 20), l2 = g.b(0.7) ? 1 : g.logu(0.05, 20);
		auto range = [&](ld& s, ld& e) { // of the parameter: containing 0 or not
			if (g.b(0.65)) { s = -g.u(0.01, 1); e = g.u(0.01, 1); }
			else { s = g.u(0.01, 1); e = s + g.u(0.1, 1); if (g.b()) { std::swap(s, e); s = -s; e = -e; } }
		};
		ld s1, e1, s2, e2; range(s1, e1); range(s2, e2);
		V lift;
		V n = d1.cross(d2);
		if (n.n() < 1e-4L) return;
		if (mode == 2) lift = n * (g.b() ? g.u(0.01, 1) : g.logu(1e-3, 1e-1)) * (l1 + l2) / n.n();
		a = pl(x + d1 * (l1 * s1)); b = pl(x + d1 * (l1 * e1));
		p = pl(x + lift + d2 * (l2 * s2)); q = pl(x + lift + d2 * (l2 * e2));
		if (mode == 3 && g.b(0.4)) { // parallel, apart
			V off = V(g.dir()).cross(d1); if (off.n() < 0.1L) return;
			off = off * (g.u(0.05, 1) / off.n());
			p = pl(x + off + d1 * s2); q = pl(x + off + d1 * e2);
		}
	}
	V A = V(b) - V(a), B = V(q) - V(p), R = V(a) - V(p);
	ld aa = A.n2(), bb = B.n2(), ab = A.dot(B), den = aa * bb - ab * ab, sum = sqrtl(aa + bb);
	int want;
	ld s = -1, t = -1, gap = -1;
	if (A.n() < 1e-8L || B.n() < 1e-8L) return;
	if (den < 1e-14L * aa * bb) { // parallel (to rounding): apart?
		ld d = R.cross(A).n() / A.n();
		if (d < 1e-3L * sum) return;
		want = MISS; c.count("parallel segments");
	} else if (den < (pl.off <= 3 * pl.s ? 1e-7L : 1e-5L) * aa * bb) return;
	else {
		if (den < 1e-5L * aa * bb) c.count("nearly parallel segments");
		s = (R.dot(B) * ab - R.dot(A) * bb) / den;
		t = (R.dot(B) + s * ab) / bb;
		gap = (R + A * s - B * t).n();
		bool in = s > M && s < 1 - M && t > M && t < 1 - M, out = s < -M || s > 1 + M || t < -M || t > 1 + M;
		if (out || gap > 1e-4L * sum) want = MISS;
		else if (in && gap < 1e-7L * sum) want = HIT;
		else return;
	}
	c.nontrivial = true;
	c.mixd(a._x); c.mixd(q._y);
	for (int k = 0; k < 2; k++) {
		Segment3 s1 = mk(g, a, b), s2 = mk(g, p, q);
		if (k) std::swap(s1, s2);
		Point3 x(5, 5, 5);
		bool hit = s1.intersect(s2, x);
		VP_CHECK(hit == (want == HIT), "segment-segment", "[%s %s] and [%s %s] (parameters %Lg %Lg, gap %Lg): reported %d", str(a).c_str(), str(b).c_str(), str(p).c_str(), str(q).c_str(), s, t, gap, hit);
		if (hit) {
			V w = V(a) + A * s;
			VP_CHECK((V(x) - w).n() <= 1e-6L * sum, "segment-segment-point", "intersection %s instead of %s", str(x).c_str(), str(w).c_str());
		}
		c.count(hit ? "segment-segment hits" : "segment-segment misses");
	}
	VP_CHECK(fabsl(Segment3(a, b).norm() - A.n()) <= 1e-14L * A.n() && fabsl(Segment3(p, q).norm_square() - bb) <= 1e-14L * bb, "segment-norm", "wrong length");
}
static void triangles(Ctx& c) {
	Gen& g = c.g;
	Place pl = place(g);
	V t0[3]; tri(g, t0);
	Point3 p[3]; V t[3];
	for (int k = 0; k < 3; k++) { p[k] = pl(t0[k]); t[k] = p[k]; }
	V cr = (t[1] - t[0]).cross(t[2] - t[0]);
	{
		Triangle3 T(p[0], p[1], p[2]);
		ld sc = 1e-12L * (1 + pl.off / pl.s);
		VP_CHECK((V(T.orthogonal()) - cr).n() <= sc * cr.n() * 100, "triangle-orthogonal", "%s instead of %s", str(T.orthogonal()).c_str(), str(cr).c_str());
		VP_CHECK(fabsl(T.surface() - cr.n() / 2) <= sc * cr.n() * 100, "triangle-surface", "%g instead of %Lg", T.surface(), cr.n() / 2);
		VP_CHECK((V(T.normal()) - cr / cr.n()).n() <= sc * 100, "triangle-normal", "%s instead of %s", str(T.normal()).c_str(), str(cr / cr.n()).c_str());
		VP_CHECK(fabsl(mk(g, p).surface() - cr.n() / 2) <= sc * cr.n() * 100, "triangle-surface", "depends on the order of the vertices");
	}
	// points of the plane
	for (int k = 0; k < 4; k++) {
		ld b[3];
		int mode = g.i(0, 3);
		if (mode == 0) { b[0] = g.u(0.01, 0.98); b[1] = g.u(0.005, 0.99 - (double)b[0]); b[2] = 1 - b[0] - b[1]; }
		else if (mode == 1) { b[0] = g.u(-3, 3); b[1] = g.u(-3, 3); b[2] = 1 - b[0] - b[1]; }
		else { // on a side line, out of the triangle; or beyond a corner
			int z = g.i(0, 2); ld x = g.b() ? g.u(1.001, 4) : -g.u(0.001, 3);
			b[z] = mode == 2 ? 0 : g.u(-1, 1); b[(z + 1) % 3] = x; b[(z + 2) % 3] = 1 - x - b[z];
		}
		Point3 q = (t[0] * b[0] + t[1] * b[1] + t[2] * b[2]).p();
		ld r[3]; bary(t, V(q), r);
		ld lo = std::min(r[0], std::min(r[1], r[2]));
		if (fabsl(lo) < 1e-4L) continue;
		bool got = mk(g, p).contains(q);
		VP_CHECK(got == (lo > 0), "point-in-triangle", "point with barycentric coordinates %Lg %Lg %Lg is said to be %s the triangle %s %s %s", r[0], r[1], r[2], got ? "in" : "out of", str(p[0]).c_str(), str(p[1]).c_str(), str(p[2]).c_str());
		c.count(got ? "points in triangle" : "points out of triangle");
		c.nontrivial = true;
	}
	for (int k = 0; k < 3; k++) { // segments
		Point3 s1, s2;
		if (g.b(0.3)) { s1 = pl(V(g.pt(2))); s2 = pl(V(g.pt(2))); }
		else { // through a chosen point of the plane
			ld b0 = g.u(-0.5, 1.2), b1 = g.u(-0.5, 1.2);
			V x = t0[0] * b0 + t0[1] * b1 + t0[2] * (1 - b0 - b1), d(g.dir());
			ld q1 = g.u(0.05, 2), q2 = g.b(0.75) ? -g.u(0.05, 2) : g.u(0.05, 2);
			s1 = pl(x + d * q1); s2 = pl(x + d * q2);
		}
		V x; int r = triSeg(t, V(s1), V(s2), x);
		if (r == UNSURE) continue;
		Point3 got(3, 3, 3);
		bool hit = mk(g, p).intersect_with(mk(g, s1, s2), got);
		VP_CHECK(hit == (r == HIT), "triangle-segment", "segment %s %s, triangle %s %s %s: reported %d", str(s1).c_str(), str(s2).c_str(), str(p[0]).c_str(), str(p[1]).c_str(), str(p[2]).c_str(), hit);
		if (hit) VP_CHECK((V(got) - x).n() <= 1e-6L * pl.s, "triangle-segment-point", "intersection %s instead of %s", str(got).c_str(), str(x).c_str());
		c.count(hit ? "triangle-segment hits" : "triangle-segment misses");
		c.nontrivial = true;
	}
	for (int k = 0; k < 3; k++) { // two triangles
		V u0[3]; tri(g, u0);
		V mv = V(g.dir()) * (g.b() ? g.u(0, 1) : g.u(0, 3));
		if (g.b(0.2)) { // small one piercing the inside
			ld z = g.logu(0.02, 0.5);
			V in = (t0[0] + t0[1] + t0[2]) / 3;
			V ce = (u0[0] + u0[1] + u0[2]) / 3;
			for (auto& x : u0) x = (x - ce) * z + in;
			mv = V();
		}
		if (g.b(0.1)) { // same box, apart
			V n = cr.n() > 0 ? (t0[1] - t0[0]).cross(t0[2] - t0[0]) : V(0, 0, 1);
			for (int z = 0; z < 3; z++) u0[z] = t0[z]; 
			mv = n / n.n() * g.u(0.02, 0.4);
		}
		Point3 q[3]; V u[3];
		for (int z = 0; z < 3; z++) { q[z] = pl(u0[z] + mv); u[z] = q[z]; }
		int truth = MISS; V x;
		for (int z = 0; z < 3; z++) {
			int r1 = triSeg(t, u[z], u[(z + 1) % 3], x), r2 = triSeg(u, t[z], t[(z + 1) % 3], x);
			if (r1 == HIT || r2 == HIT) { truth = HIT; break; }
			if (r1 == UNSURE || r2 == UNSURE) truth = UNSURE;
		}
		if (truth == UNSURE) continue;
		Triangle3 T1 = mk(g, p), T2 = mk(g, q);
		bool h1 = T1.intersect_with(T2), h2 = T2.intersect_with(T1);
		VP_CHECK(h1 == (truth == HIT) && h2 == h1, "triangle-triangle", "%s %s %s and %s %s %s: reported %d and %d", str(p[0]).c_str(), str(p[1]).c_str(), str(p[2]).c_str(), str(q[0]).c_str(), str(q[1]).c_str(), str(q[2]).c_str(), h1, h2);
		c.count(h1 ? "triangle-triangle hits" : "triangle-triangle misses");
		c.nontrivial = true;
	}
	c.mixd(p[0]._x);
}
static void boxes(Ctx& c) {
	Gen& g = c.g;
	bool grid = g.b();
	double m = g.b(0.3) ? g.logu(1e-12, 1e12) : g.mag(1e-3, 1e3);
	Point3 shift = grid && g.b(0.3) ? Point3(g.i(-1, 1), g.i(-1, 1), g.i(-1, 1)) * (m * g.logu(1e-12, 1e-1)) : Point3(0, 0, 0); // barely apart
	Point3 lo[2], hi[2]; BoundingBox3 box[2];
	for (int k = 0; k < 2; k++) {
		std::vector<Point3> pts;
		for (int n = g.i(1, 6); n > 0; n--) pts.push_back(grid ? Point3(g.i(-3, 3), g.i(-3, 3), g.i(-3, 3)) * m + shift * k : g.pt(m));
		if (pts.size() == 3 && g.b()) box[k] = BoundingBox3(Triangle3(pts[0], pts[1], pts[2]));
		else for (auto& p : pts) box[k].add(p);
		lo[k] = hi[k] = pts[0];
		for (auto& p : pts) {
			lo[k] = Point3(std::min(lo[k]._x, p._x), std::min(lo[k]._y, p._y), std::min(lo[k]._z, p._z));
			hi[k] = Point3(std::max(hi[k]._x, p._x), std::max(hi[k]._y, p._y), std::max(hi[k]._z, p._z));
		}
	}
	bool want = lo[0]._x <= hi[1]._x && lo[1]._x <= hi[0]._x && lo[0]._y <= hi[1]._y && lo[1]._y <= hi[0]._y && lo[0]._z <= hi[1]._z && lo[1]._z <= hi[0]._z;
	bool a = box[0].intersect_with(box[1]), b = box[1].intersect_with(box[0]);
	VP_CHECK(a == want && b == want, "boxes", "[%s %s] and [%s %s]: %d and %d", str(lo[0]).c_str(), str(hi[0]).c_str(), str(lo[1]).c_str(), str(hi[1]).c_str(), a, b);
	VP_CHECK(box[0].intersect_with(box[0]), "boxes", "a box does not overlap itself");
	c.count(want ? "overlapping boxes" : "separate boxes");
	c.nontrivial = true; c.mixd(lo[0]._x); c.mixd(hi[1]._z); c.mixd(lo[1]._y);
}
static void vectors(Ctx& c) {
	Gen& g = c.g;
	double m = g.mag(1e-6, 1e6);
	Point3 a = g.pt(m), b = g.pt(g.b() ? m : g.mag(1e-6, 1e6));
	double k = g.sgn() * g.mag(1e-4, 1e4);
	V A(a), B(b);
	ld e = 4e-16L;
	auto near = [&](const Point3& p, const V& w, const char* what) {
		VP_CHECK(fabsl(p._x - w.x) <= e * fabsl(w.x) && fabsl(p._y - w.y) <= e * fabsl(w.y) && fabsl(p._z - w.z) <= e * fabsl(w.z), what, "%s instead of %s", str(p).c_str(), str(w).c_str());
	};
	near(a + b, A + B, "vector-sum"); near(a - b, A - B, "vector-difference"); near(a * k, A * k, "vector-product"); near(a / k, A / k, "vector-quotient");
	Point3 t = a; t += b; near(t, A + B, "vector-sum"); t = a; t -= b; near(t, A - B, "vector-difference"); t = a; t *= k; near(t, A * k, "vector-product"); t = a; t /= k; near(t, A / k, "vector-quotient");
	t = a; t += t; near(t, A * 2, "vector-sum"); t = a; t -= t; near(t, V(), "vector-difference");
	t = a; (t += b) += b; VP_CHECK((V(t) - A - B - B).n() <= 1e-15L * (A.n() + B.n()), "vector-sum", "chained += is wrong");
	ld mm = A.n() * B.n();
	VP_CHECK(fabsl(a.dot_product(b) - A.dot(B)) <= 1e-15L * mm, "vector-dot", "%g instead of %Lg", a.dot_product(b), A.dot(B));
	VP_CHECK((V(a.cross_product(b)) - A.cross(B)).n() <= 2e-15L * mm, "vector-cross", "%s instead of %s", str(a.cross_product(b)).c_str(), str(A.cross(B)).c_str());
	VP_CHECK(fabsl(a.norm() - A.n()) <= 1e-15L * A.n() && fabsl(a.norm_square() - A.n2()) <= 2e-15L * A.n2(), "vector-norm", "%g instead of %Lg", a.norm(), A.n());
	VP_CHECK(fabsl(a.distance_square(b) - (A - B).n2()) <= 1e-14L * (A.n2() + B.n2()), "vector-distance", "%g instead of %Lg", a.distance_square(b), (A - B).n2());
	t = a; t.normalize();
	VP_CHECK((V(t) - A / A.n()).n() <= 2e-15L && (V(a.normalized()) - A / A.n()).n() <= 2e-15L, "vector-normalize", "%s instead of %s", str(t).c_str(), str(A / A.n()).c_str());
	VP_CHECK(&t.x() == &t._x && &t.y() == &t._y && &t.z() == &t._z, "vector-accessors", "x(), y(), z() are not the coordinates");
	const Point3& ct = t;
	VP_CHECK(ct.x() == t._x && ct.y() == t._y && ct.z() == t._z, "vector-accessors", "x(), y(), z() are not the coordinates");
	Point3 z;
	VP_CHECK(z._x == 0. && z._y == 0. && z._z == 0., "vector-default", "the default point is %s", str(z).c_str());
	// random axis
	int seed = g.b(0.3) ? g.i(-3, 20) : (int)g.u64();
	Point3 r1 = g.anypt(), r2, r3;
	GeometryUtil::compute_random_axis(r1, seed);
	GeometryUtil::compute_random_axis(r3, seed + (seed < 1000000 ? 1 : -1));
	GeometryUtil::compute_random_axis(r2, seed);
	VP_CHECK(same_bits(r1, r2), "random-axis", "seed %d gives %s then %s", seed, str(r1).c_str(), str(r2).c_str());
	VP_CHECK(fabsl(V(r1).n() - 1) <= 1e-14L, "random-axis", "seed %d gives an axis of length %.17Lg", seed, V(r1).n());
	c.count("random axes"); c.count("vector operations");
	c.nontrivial = true; c.mixd(a._x); c.mixd(b._y);
}
void run_case(Ctx& c) {
	switch (c.g.i(0, 9)) {
	case 0: case 1: c.desc("plane, segments and triangle"); planes(c); break;
	case 2: case 3: case 4: c.desc("segment and segment"); segments(c); break;
	case 5: case 6: case 7: c.desc("triangle with points, segments, triangles"); triangles(c); break;
	case 8: c.desc("boxes"); boxes(c); break;
	default: c.desc("vectors and random axis"); vectors(c);
	}
}
}
