// C26: value semantics and ownership of every copyable class, renderers and writers.
#include "spline.h"
#include "Face.h"
#include "Solid.h"
#include "Image.h"
#include "CubicBezierTriangles.h"
#include "GeometryNurbs.h"
#include "MeshFactory.h"
#include "NurbsFactory.h"
#include "SmoothMeshFactory.h"
#include "Renderer.h"
#include "OBJFile.h"
#include "StepFile.h"
using namespace vp;
namespace vp {
const char* kRule = "case = history over a pool of objects of 16 classes (construct, copy, assign, self-assign, edit, swap, move, pass by value, keep in growing containers, destroy), every live object observed after each step, the whole history repeated to measure the memory that stays allocated; non-trivial = at least one copy or assignment of a non-empty object";

struct Hash {
	uint64_t h = 1469598103934665603ull;
	void u(uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
	void d(double v) { uint64_t q; memcpy(&q, &v, 8); u(q); }
	void p(const Point3& v) { d(v._x); d(v._y); d(v._z); }
};

// ---- what can be observed of an object
static uint64_t obs(const Mesh& m) {
	Snap s = snap(m); Hash h; h.u(s.v.size());
	for (auto& v : s.v) h.p(v);
	for (auto& t : s.live()) for (int a : t) h.u((uint64_t)a + 5);
	h.u((uint64_t)s.color);
	return h.h;
}
static uint64_t obs(Face& f) { return obs(f.mesh()) + 1; }
static uint64_t obs(Solid& f) { return obs(f.mesh()) + 2; }
static uint64_t obs(const NurbsCurve& c) {
	Hash h; h.u(hash(def(c))); h.u((uint64_t)c.nb_points());
	if (c.nb_points() > 0) { Point3 p; c.evaluate(0.3, p); h.p(p); c.evaluate(1., p); h.p(p); h.u(c.is_closed()); vector<Point3> pl; c.to_polyline(pl); for (auto& q : pl) h.p(q); }
	return h.h;
}
static uint64_t obs(const NurbsSurface& s) {
	Hash h; h.u(hash(def(s))); h.u(s.is_closed_u()); h.u(s.is_closed_v());
	if (s.nb_points_u() > 0) { Point3 p; s.evaluate(0.3, 0.7, p); h.p(p); s.evaluate(1., 0., p); h.p(p); }
	return h.h;
}
static uint64_t obs(const NurbsSolid& s) { Hash h; h.u(s.surfaces().size()); for (auto& x : s.surfaces()) h.u(obs(x)); return h.h; }
static uint64_t obs(const QuadBezierTriangle& t) { Hash h; h.p(t.eval(1, 0)); h.p(t.eval(0, 1)); h.p(t.eval(0, 0)); for (int k = 0; k < 4; k++) h.p(t.eval(0.1 + 0.2 * k, 0.2)); Mesh m; t.add_to_mesh(m, 3); h.u(obs(m)); return h.h; }
static uint64_t obs(const SmoothMesh& s) { Hash h; h.u((uint64_t)s.nb_triangles()); for (int k = 0; k < s.nb_triangles(); k++) h.u(obs(s.triangle(k))); return h.h; }
static uint64_t obs(Image& im) { Hash h; h.u((uint64_t)im.width()); h.u((uint64_t)im.height()); h.u((uint64_t)im.planes()); for (int k = 0; k < im.size(); k++) h.u(im.data()[k]); return h.h; }
static uint64_t obs(const Transform& t) { Hash h; for (int k = 0; k < 4; k++) { Point3 p(k == 0, k == 1, k == 2); if (k == 3) p = Point3(1, 2, 3); t.apply(p); h.p(p); } return h.h; }
static uint64_t obs(const Plane3& p) { Hash h; for (int k = 0; k < 4; k++) h.d(p.distance_to(Point3(k == 0, k == 1, k == 2))); return h.h; }
static uint64_t obs(const Triangle3& t) { Hash h; h.p(t.p1()); h.p(t.p2()); h.p(t.p3()); return h.h; }

// ---- edits
static void edit(Mesh& m, Gen& g) {
	auto live = [&](std::vector<int>& v) { for (int k = 0; k < m.nb_triangles(); k++) if (!m.is_triangle_unlinked(k)) v.push_back(k); };
	switch (g.i(0, 10)) {
	case 0: m.clear(); break;
	case 1: { int k = g.i(0, 3); if (k == 0) MeshFactory::create_box(1, 2, 3, m); else if (k == 1) MeshFactory::create_tetrahedron(g.u(1, 2), m); else if (k == 2) MeshFactory::create_sphere_geodesic(1, g.i(1, 3), m); else MeshFactory::create_torus(2, 1, g.i(3, 6), m); break; }
	case 2: { std::vector<int> v; live(v); for (int j = 0; j < 3 && !v.empty(); j++) m.unlink_triangle(v[g.i(0, (int)v.size() - 1)]); break; }
	case 3: m.set_color(g.i(0, 0xffffff)); break;
	case 4: { std::vector<int> v; live(v); if (!v.empty()) { Point3 a, b, c; int t = v[g.i(0, (int)v.size() - 1)]; m.get_triangle_vertices(t, a, b, c); m.split_triangle_with_vertex(t, (a + b + c) * (1. / 3)); } break; }
	case 5: { Affine A; std::string n; auto t = gen_transform(g, A, n); m.apply_transform(*t); break; }
	case 6: if (m.nb_vertices()) m.set_vertex(g.i(0, m.nb_vertices() - 1), g.pt(5)); break;
	case 7: { Mesh o; MeshFactory::create_octahedron(1, o); m.add_mesh(o); if (m.nb_vertices() < 400 && g.b(0.3)) m.add_mesh(m); break; }
	default: { int n = g.i(1, 6); for (int k = 0; k < n; k++) m.add_vertex(g.pt(3)); for (int k = 0; k < n; k++) m.add_triangle(g.i(0, m.nb_vertices() - 1), g.i(0, m.nb_vertices() - 1), g.i(0, m.nb_vertices() - 1)); }
	}
}
static void edit(Face& f, Gen& g) { if (g.b(0.1)) f.set_color(g.i(0, 255)); else edit(f.mesh(), g); }
static void edit(Solid& s, Gen& g) {
	if (g.b(0.3)) { Face f; edit(f, g); s.add_face(f); edit(f, g); }
	else if (g.b(0.15)) { Mesh m; edit(m, g); s = Solid(m); }
	else edit(s.mesh(), g);
}
static void edit(NurbsCurve& c, Gen& g) {
	int k = g.i(0, 5);
	if (k == 0) c.clear();
	else if (k == 1 && c.nb_points()) c.points()[g.i(0, c.nb_points() - 1)] = g.pt(4);
	else if (k == 2 && c.nb_points() && c.nb_points() < 40) c.insert_knot(g.u(0.05, 0.95));
	else if (k == 3 && c.nb_points() && c.degree() < 6 && c.nb_points() < 40) c.degree_elevation();
	else if (k == 4) NurbsFactory::create_circle(g.u(1, 2), c);
	else set(c, gen_curve(g), &g);
}
static void edit(NurbsSurface& s, Gen& g) {
	int k = g.i(0, 7), n = s.nb_points_u() * s.nb_points_v();
	if (k == 0) s.clear();
	else if (k == 1 && n) s.points()[g.i(0, n - 1)] = g.pt(4);
	else if (k == 2 && n && n < 150) s.insert_knot_u(g.u(0.05, 0.95));
	else if (k == 3 && n && n < 150) s.insert_knot_v(g.u(0.05, 0.95));
	else if (k == 4 && n) { Affine A; std::string nm; auto t = gen_transform(g, A, nm); s.apply_transform(*t); }
	else if (k == 5) NurbsFactory::create_torus(3, 1, s);
	else if (k == 6) { s.set_closed_u(g.b()); s.set_closed_v(g.b()); }
	else set(s, gen_surface(g, 3, 6), &g);
}
static void edit(NurbsSolid& s, Gen& g) {
	int k = g.i(0, 5);
	if (k == 0) s.clear();
	else if (k == 1 && !s.surfaces().empty()) edit(s.surfaces()[g.i(0, (int)s.surfaces().size() - 1)], g);
	else if (k == 2 && !s.surfaces().empty()) { bool ok = true; for (auto& x : s.surfaces()) ok = ok && x.nb_points_u(); if (ok) { Affine A; std::string nm; auto t = gen_transform(g, A, nm); s.apply_transform(*t); } }
	else if (k == 3) NurbsFactory::create_box(1, 2, 3, s);
	else if (s.surfaces().size() < 12) { NurbsSurface n; set(n, gen_surface(g, 3, 5), &g); s.add_surface(n); edit(n, g); if (g.b(0.2)) s.add_surface(NurbsSurface(s.surfaces()[0])); if (g.b(0.2)) s.add_surface(s.surfaces()[0]); }
}
static void edit(QuadBezierTriangle& t, Gen& g) { int k = g.i(0, 2); if (k == 0) { Affine A; std::string nm; auto x = gen_transform(g, A, nm); t.apply_transform(*x); } else if (k == 1) t.set_control_points(g.pt(3), g.pt(3), g.pt(3)); else t = gen_patch(g).make(); }
static void edit(SmoothMesh& s, Gen& g) {
	int k = g.i(0, 5);
	if (k == 0) s.clear();
	else if (k == 1) { Affine A; std::string nm; auto t = gen_transform(g, A, nm); s.apply_transform(*t); }
	else if (k == 2) SmoothMeshFactory::create_sphere(2, s);
	else if (k == 3 && s.nb_triangles() < 60) s.add_mesh(s);
	else if (k == 4 && s.nb_triangles() < 100) s.add_flat_quad(g.pt(2), g.pt(2), g.pt(2), g.pt(2));
	else if (s.nb_triangles() < 100) { s.add_triangle(gen_patch(g).make()); if (g.b(0.3)) s.add_triangle(s.triangle(0)); }
}
static void edit(Image& im, Gen& g) { if (g.b(0.3) || !im.size()) { im.resize(g.size(0, 20), g.size(0, 20), g.i(1, 4)); for (int k = 0; k < im.size(); k++) im.data()[k] = (unsigned char)(k * 3 + 1); } else for (int j = 0; j < 4; j++) im(g.i(0, im.width() - 1), g.i(0, im.height() - 1), g.i(0, im.planes() - 1)) = (unsigned char)g.i(0, 255); }
static void edit(Translation& t, Gen& g) { t = Translation(g.pt(5)); }
static void edit(Scale& t, Gen& g) { t = Scale(g.u(1, 2), g.u(1, 2), g.u(-2, 2)); }
static void edit(RotationEulerAngles& t, Gen& g) { t.set_angles(g.u(0, 360), g.u(0, 360), g.u(0, 360)); }
static void edit(RotationQuaternion& t, Gen& g) { if (g.b()) t.from_angle_axis(g.u(0, 360), g.dir()); else { double q[4] = {g.u(-1, 1), g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)}; t.set_quaternion(q); } }
static void edit(RotationMatrix& t, Gen& g) { if (g.b()) t.from_angle_axis(g.u(0, 360), g.dir()); else { double m[9]; for (double& x : m) x = g.u(-1, 1); t.set_matrix(m); } }
static void edit(RotationAngleAxis& t, Gen& g) { t.set_angle_axis(g.u(0, 360), g.dir()); }
static void edit(Plane3& p, Gen& g) { p = Plane3(g.pt(2), g.pt(2), g.pt(2)); }
static void edit(Triangle3& t, Gen& g) { t = Triangle3(g.pt(2), g.pt(2), g.pt(2)); }

template <class T> T make_new() { return T(); }
template <> QuadBezierTriangle make_new<QuadBezierTriangle>() { QuadBezierTriangle t; t.set_points(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); t.set_weights(1, 1, 1, 1, 1, 1); return t; }
template <> Translation make_new<Translation>() { return Translation(Point3(0, 0, 0)); }

struct Any { // one live object
	uint64_t seen = 0;
	virtual ~Any() {}
	virtual int kind() const = 0;
	virtual const char* name() const = 0;
	virtual uint64_t look() = 0;
	virtual void change(Gen& g) = 0;
	virtual std::unique_ptr<Any> copy() = 0;
	virtual void assign(Any& o) = 0;
	virtual void special(Gen& g, Ctx& c) = 0; // operations that leave the object as it was
	virtual void swap_with(Any& o) = 0;
};
static int g_kinds = 0;
template <class T, int K> struct Box : Any {
	T t;
	static const char* nm;
	Box() : t(make_new<T>()) {}
	Box(const T& o) : t(o) {}
	int kind() const override { return K; }
	const char* name() const override { return nm; }
	uint64_t look() override { return obs(t); }
	void change(Gen& g) override { edit(t, g); seen = obs(t); }
	std::unique_ptr<Any> copy() override { auto r = std::unique_ptr<Any>(new Box(t)); r->seen = seen; return r; }
	void assign(Any& o) override {
		T& r = (t = static_cast<Box&>(o).t);
		VP_CHECK(&r == &t, "assign-result", "operator= of %s does not return the assigned object", nm);
		seen = o.seen;
	}
	void swap_with(Any& o) override { std::swap(t, static_cast<Box&>(o).t); std::swap(seen, o.seen); }
	static T pass(T x, Gen g) { T y = x; edit(x, g); return y; }
	void same(T& x, const char* what) { VP_CHECK(obs(x) == seen, "copy-differs", "%s: %s differs from its source", what, nm); VP_CHECK(obs(t) == seen, "source-changed", "%s: the source %s changed", what, nm); }
	void special(Gen& g, Ctx& c) override {
		switch (g.i(0, 6)) {
		case 0: { T x = pass(t, g); same(x, "passed and returned by value"); break; }
		case 1: { std::vector<T> v; int n = g.i(1, 9); for (int k = 0; k < n; k++) { if (k && g.b()) v.push_back(v[0]); else v.push_back(t); } // growing
			for (auto& x : v) same(x, "kept in a growing vector");
			edit(v[0], g); for (size_t k = 1; k < v.size(); k++) same(v[k], "kept beside an edited one");
			uint64_t first = obs(v[0]); v.erase(v.begin() + (n > 1)* g.i(0, n - 1)); for (auto& x : v) { uint64_t q = obs(x); VP_CHECK(q == seen || q == first, "copy-differs", "%s differs after an erasure in its vector", nm); }
			v.insert(v.begin(), t); same(v[0], "inserted in a vector"); v.resize(v.size() + 2, t); same(v.back(), "resized vector"); c.count("containers"); break; }
		case 2: { T x(std::move(t)); VP_CHECK(obs(x) == seen, "copy-differs", "%s differs after a move", nm); edit(x, g); T y(x); (void)y; t = T(make_new<T>()); change(g); c.count("moves"); break; }
		case 3: { std::unique_ptr<T> a(new T(t)), b(new T(*a)); a.reset(); same(*b, "copy of a destroyed object"); break; }
		case 4: { T a(make_new<T>()), b(make_new<T>()); edit(b, g); a = b = t; same(a, "chained assignment"); same(b, "chained assignment"); edit(a, g); same(b, "after the edition of the other"); break; }
		case 5: { // the copy behaves as the source in the future too
			T a(t), b(t); Gen g1 = g; uint64_t before = seen;
			for (int k = 0; k < 3; k++) { Gen g2 = g1, g3 = g1; edit(a, g2); edit(b, g3); g1 = g2; VP_CHECK(obs(a) == obs(b), "copy-differs", "two copies of the same %s differ after the same edition", nm); }
			VP_CHECK(obs(t) == before, "source-changed", "%s changed when its copies were edited", nm); break; }
		case 6: { std::map<int, T> m; for (int k = 0; k < 5; k++) m.insert(std::make_pair(k * 7 % 5, t)); for (auto& q : m) same(q.second, "kept in a map"); m.erase(2); for (auto& q : m) same(q.second, "kept in a map"); break; }
		}
	}
};
#define KIND(T, K) template <> const char* Box<T, K>::nm = #T;
KIND(Mesh, 0) KIND(Face, 1) KIND(Solid, 2) KIND(NurbsCurve, 3) KIND(NurbsSurface, 4) KIND(NurbsSolid, 5) KIND(SmoothMesh, 6) KIND(QuadBezierTriangle, 7) KIND(Image, 8) KIND(Translation, 9) KIND(Scale, 10) KIND(RotationEulerAngles, 11) KIND(RotationQuaternion, 12) KIND(RotationMatrix, 13) KIND(RotationAngleAxis, 14) KIND(Plane3, 15) KIND(Triangle3, 16)

static std::unique_ptr<Any> fresh(int k) {
	switch (k) {
#define MK(T, K) case K: return std::unique_ptr<Any>(new Box<T, K>());
	MK(Mesh, 0) MK(Face, 1) MK(Solid, 2) MK(NurbsCurve, 3) MK(NurbsSurface, 4) MK(NurbsSolid, 5) MK(SmoothMesh, 6) MK(QuadBezierTriangle, 7) MK(Image, 8) MK(Translation, 9) MK(Scale, 10) MK(RotationEulerAngles, 11) MK(RotationQuaternion, 12) MK(RotationMatrix, 13) MK(RotationAngleAxis, 14) MK(Plane3, 15) default: MK(Triangle3, 16)
	}
}
static int pick(Gen& g) { return g.b(0.75) ? g.i(0, 8) : g.i(9, 16); }

static void others(Ctx& c, Gen& g) { // owners that are not values
	switch (g.i(0, 5)) {
	case 5: { // large ones
		int n = g.size(100, 4000);
		switch (g.i(0, 4)) {
		case 0: { Mesh m; for (int k = 0; k < 40; k++) m.add_vertex(g.pt(2)); for (int k = 0; k < n; k++) m.add_triangle(k % 40, k * 7 % 40, k * 3 % 40); if (g.b()) for (int k = 0; k < n; k++) m.add_vertex(k, n, 1); if (g.b()) m.unlink_triangle(n / 2); Mesh o(m), q; q = m; uint64_t h = obs(m); VP_CHECK(obs(o) == h && obs(q) == h, "copy-differs", "copies of a mesh of %d triangles differ", n); if (g.b()) o = q; q.clear(); if (g.b()) { q = o; q = Mesh(); } if (g.b()) o.clear(); VP_CHECK(obs(m) == h, "source-changed", "a mesh of %d triangles changed with its copies", n); Face f(m); Solid t(m); f = Face(); t = Solid(); break; }
		case 1: { SmoothMesh m; QuadBezierTriangle t = gen_patch(g).make(); n /= 4; for (int k = 0; k < n; k++) m.add_triangle(t); SmoothMesh o(m), q; q = o; VP_CHECK(q.nb_triangles() == n && o.nb_triangles() == n, "copy-differs", "copies of a smooth mesh of %d patches differ", n); o.clear(); q = o; VP_CHECK(q.nb_triangles() == 0 && m.nb_triangles() == n, "copy-differs", "assignment of an empty smooth mesh"); break; }
		case 2: { Image im(n, g.i(1, 3), g.i(1, 4)); for (int k = 0; k < im.size(); k++) im.data()[k] = (unsigned char)(k * 7); Image a(im), b; b = a; VP_CHECK(obs(a) == obs(im) && obs(b) == obs(im), "copy-differs", "copies of an image %d wide differ", n); a.resize(1, 1, 1); b = a; im.resize(3, n, 1); break; }
		case 3: { NurbsCurve k; CurveDef d; d.degree = 2; n = std::min(n, 600); for (int q = 0; q < n; q++) d.p.push_back(g.pt(1)); d.w = gen_weights(g, n); d.knots = gen_knots(g, 2, n); set(k, d); NurbsCurve o(k), q; q = o; VP_CHECK(obs(o) == obs(k) && obs(q) == obs(k), "copy-differs", "copies of a curve of %d points differ", n); o.clear(); q = o; break; }
		default: { NurbsSolid so; NurbsSurface su; NurbsFactory::create_disk(1, su); n = std::min(n, 300); for (int k = 0; k < n; k++) so.add_surface(su); NurbsSolid a(so), b; b = a; VP_CHECK((int)b.surfaces().size() == n && obs(a) == obs(so), "copy-differs", "copies of a solid of %d surfaces differ", n); a.clear(); b = a; break; }
		}
		c.count("large objects"); break; }
	case 0: { int w = g.b() ? g.size(0, 40) : g.i(0, 3), h = g.b() ? g.size(0, 40) : g.i(0, 3); std::vector<int> px((size_t)w * h + 1); Renderer r(px.data(), w, h); int n = g.size(0, 40, 400); for (int k = 0; k < n; k++) if (g.b()) r.add_ambient_light(255, 1); else r.add_diffuse_light(255, 1, g.dir()); if (g.b()) r.clear(); r.set_camera(0, 0, -5, 0, 0, 0, 0, 20); Mesh m; edit(m, g); r.draw_mesh(m, g.b()); if (g.b(0.3)) r.clear(); c.count("renderers"); break; }
	case 1: { OBJWriter w; if (g.b(0.8)) w.open(c.scratch + "/w.obj"); if (w.is_open() && g.b()) { Mesh m; edit(m, g); w.write(m); } if (g.b(0.2)) { OBJWriter x; } c.count("writers"); break; }
	case 2: { StepWriter w; if (g.b(0.8)) w.open(c.scratch + "/w.step"); if (w.is_open() && g.b()) { NurbsSurface s; NurbsFactory::create_disk(1, s); w.write(s); } if (g.b()) w.close(); c.count("writers"); break; }
	case 3: { std::unique_ptr<CubicBezierTriangles> a; CubicBezierTriangles b, d(b); b.set_points(g.pt(1), g.pt(1), g.pt(1)); d = b; Mesh m; edit(m, g); Face f(m); Solid s(m); uint64_t h = obs(m); VP_CHECK(obs(f) == h + 1 && obs(s) == h + 2, "copy-differs", "Face(mesh) or Solid(mesh) differs from the mesh"); edit(f, g); edit(s, g); VP_CHECK(obs(m) == h, "source-changed", "a mesh changed with the face or solid made from it"); c.count("faces and solids from meshes"); break; }
	case 4: { std::unique_ptr<Renderer> r; std::vector<int> px(64); r.reset(new Renderer(px.data(), 8, 8)); r->add_diffuse_light(1, 1, g.dir()); r.reset(new Renderer(px.data(), 4, 4)); r->add_ambient_light(1, 1); c.count("renderers"); break; }
	}
}

static void history(Ctx& c, Gen g, bool report) {
	std::vector<std::unique_ptr<Any>> pool;
	int n = g.i(2, 7), focus = g.b(0.5) ? pick(g) : -1;
	auto kind = [&] { return focus >= 0 && g.b(0.8) ? focus : pick(g); };
	for (int k = 0; k < n; k++) { pool.push_back(fresh(kind())); pool.back()->seen = pool.back()->look(); if (g.b(0.8)) pool.back()->change(g); }
	auto all = [&](const char* what, Any* except) { for (auto& p : pool) if (p && p.get() != except) VP_CHECK(p->look() == p->seen, "other-changed", "after %s: a %s changed", what, p->name()); };
	int steps = g.size(5, 40);
	for (int s = 0; s < steps; s++) {
		size_t a = (size_t)g.i(0, n - 1), b = (size_t)g.i(0, n - 1);
		Any* A = pool[a].get();
		if (report) c.mix((uint64_t)A->kind() * 64 + A->seen % 61);
		const char* what = "";
		switch (g.i(0, 9)) {
		case 0: case 1: A->change(g); what = "an edition"; if (report) c.count("edits"); break;
		case 2: pool[b] = pool[a]->copy(); what = "a copy"; if (report) { c.count("copies"); c.nontrivial = true; } break;
		case 3: case 4: case 5: { // assignment to an object of the same class
			std::vector<size_t> same; for (size_t k = 0; k < pool.size(); k++) if (pool[k]->kind() == A->kind()) same.push_back(k);
			b = same[g.i(0, (int)same.size() - 1)];
			pool[b]->assign(*A); what = a == b ? "a self-assignment" : "an assignment";
			if (report) { c.count(a == b ? "self-assignments" : "assignments"); c.nontrivial = true; c.count(A->name()); }
			break; }
		case 6: { std::vector<size_t> same; for (size_t k = 0; k < pool.size(); k++) if (pool[k]->kind() == A->kind()) same.push_back(k);
			b = same[g.i(0, (int)same.size() - 1)]; pool[b]->swap_with(*A); what = "a swap"; if (report) c.count("swaps"); break; }
		case 7: A->special(g, c); what = "copies on the side"; break;
		case 8: pool[a].reset(); pool[a] = fresh(kind()); pool[a]->seen = pool[a]->look(); if (g.b(0.7)) pool[a]->change(g); what = "a destruction"; if (report) c.count("destructions"); break;
		case 9: others(c, g); what = "other objects"; break;
		}
		all(what, nullptr);
		if (report) c.count("observations", n);
	}
	std::vector<size_t> order; for (size_t k = 0; k < pool.size(); k++) order.push_back(k);
	g.shuffle(order);
	for (size_t k : order) { pool[k].reset(); all("a destruction", nullptr); }
	if (report) c.desc("%d objects, %d steps", n, steps);
}

void run_case(Ctx& c) {
	Gen g = c.g;
	int fd0 = lowest_fd();
	history(c, g, true);
	std::string keep = c.sample;
	history(c, g, false);
	size_t b1 = heap_bytes();
	history(c, g, false);
	size_t b2 = heap_bytes();
	if (b2 > b1) { // twice in a row: not a cache being filled
		history(c, g, false);
		size_t b3 = heap_bytes();
		VP_CHECK(b3 <= b2, "leak", "each repetition of the history leaves %zd more bytes allocated", (ssize_t)(b3 - b2));
	}
	no_descriptor_left(fd0, "the history", [&] { history(c, g, false); });
	c.count("histories measured");
}
} // namespace vp
