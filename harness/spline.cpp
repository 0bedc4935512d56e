#include "spline.h"
namespace vp {
std::vector<ld> basis(const std::vector<double>& k, int p, ld u) {
	int m = (int)k.size() - 1;      // last knot index
	std::vector<ld> n(m, 0.L);
	int span = -1;
	for (int i = 0; i < m; i++)
		if (k[i] < k[i + 1] && ((u >= k[i] && u < k[i + 1]) || (u >= k[m] && k[i + 1] == k[m]))) { span = i; break; }
	if (span < 0) span = p;
	n[span] = 1;
	for (int d = 1; d <= p; d++)
		for (int i = 0; i + d < m; i++) {
			ld v = 0;
			if ((ld)k[i + d] > (ld)k[i]) v += (u - k[i]) / ((ld)k[i + d] - k[i]) * n[i];
			if ((ld)k[i + d + 1] > (ld)k[i + 1]) v += ((ld)k[i + d + 1] - u) / ((ld)k[i + d + 1] - k[i + 1]) * n[i + 1];
			n[i] = v;
		}
	n.resize(m - p);
	return n;
}
bool CurveDef::rational() const { for (double x : w) if (x != w[0]) return true; return false; }
std::vector<double> norm_knots(const std::vector<double>& k) {
	double a = *std::min_element(k.begin(), k.end()), b = *std::max_element(k.begin(), k.end());
	std::vector<double> r;
	for (double x : k) r.push_back((double)(((ld)x - a) / ((ld)b - a)));
	return r;
}
std::vector<double> gen_knots(Gen& g, int degree, int n, double closest) {
	int inner = n - degree - 1;
	double a = 0, b = 1;
	if (g.b(0.5)) { a = g.b() ? g.u(-100, 100) : (double)g.i(-10, 10); b = a + g.mag(1e-2, 1e3); }
	else if (g.b(0.1)) { if (g.b()) a = g.sgn() * g.logu(1e-9, 1e-3); b = 1 + (g.b(0.3) ? 0 : g.sgn() * g.logu(1e-9, 1e-3)); } // nearly 0..1
	std::vector<double> k(degree + 1, a), in;
	if (inner > 0) {
		int mode = closest < 1e-5 ? 3 : g.i(0, 3);
		if (mode == 0) for (int i = 1; i <= inner; i++) in.push_back(a + (b - a) * i / (inner + 1));
		else {
			// distinct values then multiplicities
			double minGap = mode == 3 ? closest : 1e-2 / (inner + 1);
			std::vector<double> vals;
			for (int i = 0; i < inner; i++) {
				for (int tries = 0; tries < 50; tries++) {
					double t = mode == 3 && !vals.empty() && g.b(0.3) ? vals[g.i(0, (int)vals.size() - 1)] + g.sgn() * g.logu(1.1 * closest, 1e-2) : g.u01();
					bool ok = t > minGap && t < 1 - minGap;
					for (double v : vals) if (std::fabs(v - t) < minGap) ok = false;
					if (ok) { vals.push_back(t); break; }
				}
			}
			if (vals.empty()) vals.push_back(0.5);
			std::vector<int> mult(vals.size(), 0);
			double rep = mode == 1 ? 0.1 : 0.6;
			int left = inner, at = 0;
			while (left > 0) {
				if (mult[at] < degree && (mult[at] == 0 || g.b(rep))) { mult[at]++; left--; }
				else {
					at++;
					if (at == (int)vals.size()) { // not enough places: new ones, regularly
						bool room = false;
						for (size_t q = 0; q < vals.size(); q++) if (mult[q] < degree) { mult[q]++; left--; room = true; break; }
						at = (int)vals.size() - 1;
						if (!room) { vals.clear(); mult.clear(); for (int q = 1; q <= inner; q++) { vals.push_back((double)q / (inner + 1)); mult.push_back(1); } left = 0; }
					}
				}
			}
			for (size_t q = 0; q < vals.size(); q++) for (int r = 0; r < mult[q]; r++) in.push_back(a + (b - a) * vals[q]);
			std::sort(in.begin(), in.end());
		}
	}
	k.insert(k.end(), in.begin(), in.end());
	for (int i = 0; i <= degree; i++) k.push_back(b);
	return k;
}
std::vector<double> gen_weights(Gen& g, int n) {
	std::vector<double> w;
	int mode = g.i(0, 3);
	double k = mode == 1 ? g.mag(1e-2, 1e2) : 1.;
	for (int i = 0; i < n; i++) w.push_back(mode <= 1 ? k : mode == 2 ? g.logu(0.5, 2.) : g.logu(0.05, 20.));
	if (mode >= 2 && g.b(0.35)) { double keep = g.u01(); for (double& x : w) if (g.b(keep)) x = 1.; } // some at their default
	if (g.b(0.06)) { double q = g.mag(1e-9, 1e9); for (double& x : w) x *= q; } // only their ratios matter
	return w;
}
static Point3 cp(Gen& g, double m, int flat) {
	Point3 p = g.spt(m);
	if (flat == 1) p._z = 0;
	if (flat == 2) p = Point3(std::round(p._x / m * 4), std::round(p._y / m * 4), std::round(p._z / m * 4)) * m;
	return p;
}
CurveDef gen_curve(Gen& g, int maxDegree, int maxPoints, double closest, int big) {
	CurveDef d;
	d.degree = g.i(1, maxDegree);
	int n = std::max(d.degree + 1, g.b(0.2) ? d.degree + 1 : g.size(d.degree + 1, std::max(maxPoints, d.degree + 1), big));
	d.knots = gen_knots(g, d.degree, n, closest);
	d.w = gen_weights(g, n);
	double m = g.b(0.06) ? g.mag(1e-7, 1e7) : g.mag(0.01, 100);
	int flat = g.i(0, 3);
	for (int i = 0; i < n; i++) d.p.push_back(cp(g, m, flat));
	if (g.b(0.2)) d.p.back() = d.p[0];
	if (g.b(0.1)) { int i = g.i(0, n - 2); d.p[i] = d.p[i + 1]; }
	return d;
}
SurfDef gen_surface(Gen& g, int maxDegree, int maxPoints, double closest, int big) {
	SurfDef d;
	d.du = g.i(1, maxDegree); d.dv = g.i(1, maxDegree);
	d.nu = std::max(d.du + 1, g.b(0.3) ? d.du + 1 : g.i(d.du + 1, std::max(maxPoints, d.du + 1)));
	d.nv = std::max(d.dv + 1, g.b(0.3) ? d.dv + 1 : g.i(d.dv + 1, std::max(maxPoints, d.dv + 1)));
	if (big > maxPoints) { int n = g.size(0, maxPoints, big); if (n > maxPoints) { if (g.b()) { d.nu = n; d.nv = std::min(d.nv, d.dv + 3); } else { d.nv = n; d.nu = std::min(d.nu, d.du + 3); } } }
	d.ku = gen_knots(g, d.du, d.nu, closest); d.kv = gen_knots(g, d.dv, d.nv, closest);
	d.w = gen_weights(g, d.nu * d.nv);
	double m = g.b(0.06) ? g.mag(1e-7, 1e7) : g.mag(0.01, 100);
	int flat = g.i(0, 3);
	for (int i = 0; i < d.nu * d.nv; i++) d.p.push_back(cp(g, m, flat));
	if (g.b(0.12)) { // a pole: a whole side or any whole line of control points is one point
		bool u = g.b(); int n = u ? d.nu : d.nv, o = u ? d.nv : d.nu, k = g.b(0.7) ? (g.b() ? 0 : o - 1) : g.i(0, o - 1);
		int k2 = k + 1 < o ? k + 1 : k - 1;
		if (g.b(0.3)) for (int i = 0; i < n; i++) d.p[u ? i + d.nu * k : k + d.nu * i] = d.p[u ? i + d.nu * k2 : k2 + d.nu * i]; // a line of points repeated
		else for (int i = 1; i < n; i++) d.p[u ? i + d.nu * k : k + d.nu * i] = d.p[u ? d.nu * k : k];
	}
	if (g.b(0.08)) { int k = g.i(0, d.nu * d.nv - 1), q = g.i(0, d.nu * d.nv - 1); d.p[k] = d.p[q]; }
	d.cu = g.b(0.25); d.cv = g.b(0.25);
	return d;
}
V PatchDef::eval(ld s, ld u, ld v) const {
	H h;
	h.add(P1, w1, s * s); h.add(P2, w2, u * u); h.add(P3, w3, v * v);
	h.add(C12, w12, 2 * s * u); h.add(C13, w13, 2 * s * v); h.add(C23, w23, 2 * u * v);
	return h.get();
}
QuadBezierTriangle PatchDef::make() const {
	QuadBezierTriangle t;
	if (order == 1) t.set_weights(w1, w2, w3, w12, w13, w23);
	if (order == 2) t.set_control_points(P3, P1, P2);
	t.set_points(P1, P2, P3);
	if (order == 2) t.set_weights(w1, w2, w3, w12, w13, w23);
	t.set_control_points(C12, C13, C23);
	if (order == 0) t.set_weights(w1, w2, w3, w12, w13, w23);
	return t;
}
ld PatchDef::ext() const { return extent({P1, P2, P3, C12, C13, C23}); }
ld PatchDef::wratio() const { return vp::wratio({w1, w2, w3, w12, w13, w23}); }
PatchDef gen_patch(Gen& g) {
	PatchDef d;
	double m = g.mag(0.01, 100);
	d.P1 = g.spt(m); d.P2 = g.spt(m); d.P3 = g.spt(m);
	if (g.b(0.04)) (g.b() ? d.P2 : d.P3) = d.P1;
	if (g.b(0.3)) { d.C12 = (d.P1 + d.P2) * 0.5; d.C13 = (d.P1 + d.P3) * 0.5; d.C23 = (d.P2 + d.P3) * 0.5; }
	else { d.C12 = g.spt(m); d.C13 = g.spt(m); d.C23 = g.spt(m); if (g.b(0.1)) d.C13 = g.b() ? d.C12 : d.P1; }
	if (g.b(0.6)) { auto w = gen_weights(g, 6); d.w1 = w[0]; d.w2 = w[1]; d.w3 = w[2]; d.w12 = w[3]; d.w13 = w[4]; d.w23 = w[5]; }
	d.order = g.i(0, 2);
	return d;
}
void set(NurbsCurve& c, const CurveDef& d, Gen* o) {
	std::vector<int> ord = {0, 1, 2, 3};
	if (o) o->shuffle(ord);
	for (int k : ord) switch (k) {
	case 0: c.set_degree(d.degree); break;
	case 1: c.set_points(d.p); break;
	case 2: c.set_weights(d.w); break;
	case 3: c.set_knots(d.knots); break;
	}
}
void set(NurbsSurface& s, const SurfDef& d, Gen* o) {
	std::vector<int> ord = {0, 1, 2, 3, 4, 5};
	if (o) o->shuffle(ord);
	for (int k : ord) switch (k) {
	case 0: s.set_degree(d.du, d.dv); break;
	case 1: s.set_points(d.p, d.nu, d.nv); break;
	case 2: s.set_weights(d.w); break;
	case 3: s.set_knots_u(d.ku); break;
	case 4: s.set_knots_v(d.kv); break;
	case 5: s.set_closed_u(d.cu); s.set_closed_v(d.cv); break;
	}
}
CurveDef def(const NurbsCurve& c) {
	CurveDef d;
	d.degree = c.degree(); d.knots = c.knots(); d.w = c.weights(); d.p = c.points();
	if (c.nb_points() != (int)d.p.size()) fail("nb-points", "nb_points() differs from points().size()");
	return d;
}
SurfDef def(const NurbsSurface& s) {
	SurfDef d;
	d.du = s.degree_u(); d.dv = s.degree_v(); d.nu = s.nb_points_u(); d.nv = s.nb_points_v();
	d.ku = s.knots_u(); d.kv = s.knots_v(); d.w = s.weights(); d.p = s.points();
	d.cu = s.is_closed_u(); d.cv = s.is_closed_v();
	return d;
}
static bool same_v(const std::vector<double>& a, const std::vector<double>& b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i])) return false;
	return true;
}
static bool same_v(const std::vector<Point3>& a, const std::vector<Point3>& b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i])) return false;
	return true;
}
std::string diff(const CurveDef& a, const CurveDef& b) {
	if (a.degree != b.degree) return fmt("degree %d / %d", a.degree, b.degree);
	if (!same_v(a.knots, b.knots)) return fmt("knots differ (%zu / %zu)", a.knots.size(), b.knots.size());
	if (!same_v(a.w, b.w)) return fmt("weights differ (%zu / %zu)", a.w.size(), b.w.size());
	if (!same_v(a.p, b.p)) return fmt("points differ (%zu / %zu)", a.p.size(), b.p.size());
	return "";
}
std::string diff(const SurfDef& a, const SurfDef& b) {
	if (a.du != b.du || a.dv != b.dv) return fmt("degrees %d,%d / %d,%d", a.du, a.dv, b.du, b.dv);
	if (a.nu != b.nu || a.nv != b.nv) return fmt("sizes %d,%d / %d,%d", a.nu, a.nv, b.nu, b.nv);
	if (!same_v(a.ku, b.ku)) return fmt("u knots differ (%zu / %zu)", a.ku.size(), b.ku.size());
	if (!same_v(a.kv, b.kv)) return fmt("v knots differ (%zu / %zu)", a.kv.size(), b.kv.size());
	if (!same_v(a.w, b.w)) return fmt("weights differ (%zu / %zu)", a.w.size(), b.w.size());
	if (!same_v(a.p, b.p)) return fmt("points differ (%zu / %zu)", a.p.size(), b.p.size());
	if (a.cu != b.cu || a.cv != b.cv) return fmt("closed flags %d,%d / %d,%d", a.cu, a.cv, b.cu, b.cv);
	return "";
}
bool same(const CurveDef& a, const CurveDef& b) { return diff(a, b).empty(); }
bool same(const SurfDef& a, const SurfDef& b) { return diff(a, b).empty(); }
namespace {
struct Hash {
	uint64_t h = 1469598103934665603ull;
	void m(uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
	void d(double x) { uint64_t v; memcpy(&v, &x, 8); m(v); }
	void v(const std::vector<double>& x) { m(x.size()); for (double y : x) d(y); }
	void v(const std::vector<Point3>& x) { m(x.size()); for (auto& p : x) { d(p._x); d(p._y); d(p._z); } }
};
}
uint64_t hash(const CurveDef& d) { Hash h; h.m(d.degree); h.v(d.knots); h.v(d.w); h.v(d.p); return h.h; }
uint64_t hash(const SurfDef& d) { Hash h; h.m(d.du); h.m(d.dv); h.m(d.nu); h.m(d.nv); h.v(d.ku); h.v(d.kv); h.v(d.w); h.v(d.p); h.m(d.cu * 2 + d.cv); return h.h; }

V eval(const CurveDef& d, ld u) {
	auto n = basis(d.knots, d.degree, u);
	H h;
	for (size_t i = 0; i < n.size() && i < d.p.size(); i++) h.add(d.p[i], d.w[i], n[i]);
	return h.get();
}
V eval(const SurfDef& d, ld u, ld v) {
	auto nu = basis(d.ku, d.du, u), nv = basis(d.kv, d.dv, v);
	H h;
	for (int j = 0; j < d.nv; j++) for (int i = 0; i < d.nu; i++) if (nu[i] != 0 && nv[j] != 0) h.add(d.p[i + d.nu * j], d.w[i + d.nu * j], nu[i] * nv[j]);
	return h.get();
}
ld ext(const CurveDef& d) { return extent(d.p); }
ld ext(const SurfDef& d) { return extent(d.p); }
ld wratio(const std::vector<double>& w) {
	if (w.empty()) return 1;
	return (ld)*std::max_element(w.begin(), w.end()) / *std::min_element(w.begin(), w.end());
}
double gen_param(Gen& g, const std::vector<double>& k) {
	double p = g.u01();
	if (p < 0.2) return k[g.i(0, (int)k.size() - 1)];
	if (p < 0.35) {
		double t = k[g.i(0, (int)k.size() - 1)];
		t = g.b() ? std::nextafter(t, g.b() ? 2. : -1.) : t + g.sgn() * g.logu(1e-12, 1e-3);
		return std::min(1., std::max(0., t));
	}
	if (p < 0.5) { // inside a span
		int i = g.i(0, (int)k.size() - 2);
		return k[i] + (k[i + 1] - k[i]) * g.u01();
	}
	return g.param();
}
void dirty(Gen& g, NurbsCurve& c) { if (g.b(0.3)) return; set(c, gen_curve(g), &g); }
void dirty(Gen& g, NurbsSurface& s) { if (g.b(0.3)) return; set(s, gen_surface(g), &g); }
void dirty(Gen& g, NurbsSolid& s) { int n = g.i(0, 3); for (int i = 0; i < n; i++) { NurbsSurface x; set(x, gen_surface(g, 3, 5), &g); s.add_surface(x); } }
void dirty(Gen& g, SmoothMesh& s) { int n = g.i(0, 4); for (int i = 0; i < n; i++) s.add_triangle(gen_patch(g).make()); }

Affine rodrigues(ld deg, const V& k) {
	ld t = deg * (acosl(-1.L) / 180.L), c = cosl(t), s = sinl(t);
	Affine r;
	ld K[3][3] = {{0, -k.z, k.y}, {k.z, 0, -k.x}, {-k.y, k.x, 0}};
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		ld kk = 0;
		for (int q = 0; q < 3; q++) kk += K[i][q] * K[q][j];
		r.a[i][j] = (i == j) + s * K[i][j] + (1 - c) * kk;
	}
	return r;
}
static double gen_angle(Gen& g) {
	double p = g.u01();
	if (p < 0.3) return 45. * g.i(-16, 16);
	if (p < 0.4) return 30. * g.i(-24, 24);
	if (p < 0.5) return g.sgn() * g.logu(1e-9, 1.);
	if (p < 0.6) return g.u(-3600, 3600);
	return g.u(-360, 360);
}
std::shared_ptr<Transform> gen_transform(Gen& g, Affine& m, std::string& name, double mag) {
	m = Affine();
	int kind = g.i(0, 6);
	Point3 ax = g.b(0.3) ? (g.b() ? Point3(1, 0, 0) : g.b() ? Point3(0, 1, 0) : Point3(0, 0, 1)) : g.dir();
	double ang = gen_angle(g);
	switch (kind) {
	case 0: { Point3 t = g.spt(mag); m.b = t; name = "translation"; return std::make_shared<Translation>(t); }
	case 1: {
		double s[3];
		bool uni = g.b(0.3);
		for (int k = 0; k < 3; k++) s[k] = uni && k ? s[0] : g.sgn() * g.mag(0.05, 20);
		for (int k = 0; k < 3; k++) m.a[k][k] = s[k];
		name = "scale";
		return std::make_shared<Scale>(s[0], s[1], s[2]);
	}
	case 2: {
		m = rodrigues(ang, ax); name = "quaternion";
		auto q = std::make_shared<RotationQuaternion>();
		if (g.b()) q->from_angle_axis(ang, ax);
		else {
			ld h = (ld)ang * acosl(-1.L) / 360.L;
			double v[4] = {(double)cosl(h), (double)(ax._x * sinl(h)), (double)(ax._y * sinl(h)), (double)(ax._z * sinl(h))};
			if (g.b()) q->set_quaternion(v);
			else return std::make_shared<RotationQuaternion>(v);
		}
		return q;
	}
	case 3: {
		m = rodrigues(ang, ax); name = "rotation matrix";
		auto q = std::make_shared<RotationMatrix>();
		q->from_angle_axis(ang, ax);
		return q;
	}
	case 4: { // any matrix
		double v[9];
		for (int k = 0; k < 9; k++) { v[k] = g.b(0.2) ? g.i(-2, 2) : g.u(-2, 2); m.a[k / 3][k % 3] = v[k]; }
		name = "matrix";
		if (g.b()) return std::make_shared<RotationMatrix>(v);
		auto q = std::make_shared<RotationMatrix>();
		q->set_matrix(v);
		return q;
	}
	case 5: {
		m = rodrigues(ang, ax); name = "angle-axis";
		if (g.b()) return std::make_shared<RotationAngleAxis>(ang, ax);
		auto q = std::make_shared<RotationAngleAxis>();
		if (g.b()) q->set_angle_axis(ang, ax); else q->from_angle_axis(ang, ax);
		return q;
	}
	default: {
		ld k = acosl(-1.L) / 180.L;
		double y = gen_angle(g), p = gen_angle(g), r = gen_angle(g);
		if (g.b(0.15)) { if (g.b(0.7)) p = g.sgn() * y; if (g.b(0.7)) r = g.b() ? y : p; } // equal angles
		ld cy = cosl(y * k), sy = sinl(y * k), cp = cosl(p * k), sp = sinl(p * k), cr = cosl(r * k), sr = sinl(r * k);
		Affine Y, P, R;
		Y.a[0][0] = cy; Y.a[0][2] = sy; Y.a[2][0] = -sy; Y.a[2][2] = cy;
		P.a[1][1] = -cp; P.a[1][2] = sp; P.a[2][1] = sp; P.a[2][2] = cp;
		R.a[0][0] = cr; R.a[0][1] = sr; R.a[1][0] = -sr; R.a[1][1] = cr;
		m = Y.then(P).then(R); name = "Euler angles";
		if (g.b()) return std::make_shared<RotationEulerAngles>(y, p, r);
		auto q = std::make_shared<RotationEulerAngles>(g.b() ? y : g.u(-9, 9), g.b() ? p : 3., g.b() ? r : 1.); // some of its angles are already there
		q->set_angles(y, p, r);
		return q;
	}
	}
}
} // namespace vp
