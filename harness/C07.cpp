// C07: transforms are the affine maps they are named after, on every object.
#include "spline.h"
#include "MeshFactory.h"
#include <new>
using namespace vp;
namespace vp {
const char* kRule = "case = a random sequence of 1 to 5 transforms of all kinds applied to points, a point list, a mesh with removed triangles, a surface, a solid and a smooth mesh; distinct = hash of transforms and points; non-trivial = at least one transform moves at least one point";

static ld gap(const V& a, const V& b) { return absmax(a - b); }
// a new transform is the identity, whatever its memory contained
template <class T> static void fresh(Ctx& c, const char* what) {
	alignas(16) unsigned char mem[sizeof(T)];
	int fill = c.g.i(0, 3);
	for (auto& b : mem) b = fill == 0 ? 0x40 : fill == 1 ? 0xff : (unsigned char)c.g.i(0, 255);
	T* t = new (mem) T();
	Point3 p = c.g.pt(10), q = p;
	t->apply(q);
	VP_CHECK(gap(V(p), V(q)) <= 1e-13L, "identity", "a new %s maps %s to %s", what, str(p).c_str(), str(q).c_str());
	t->~T();
	c.count("new transforms");
}
// the arguments that may be left out
static void defaults(Ctx& c) {
	Gen& g = c.g;
	fresh<Scale>(c, "Scale"); fresh<RotationQuaternion>(c, "RotationQuaternion"); fresh<RotationMatrix>(c, "RotationMatrix"); fresh<RotationAngleAxis>(c, "RotationAngleAxis");
	double a = g.u(-400, 400), b = g.u(-400, 400), x = g.u(-5, 5), y = g.u(-5, 5);
	Point3 p = g.pt(10);
	auto img = [&](const Transform& t) { Point3 q = p; t.apply(q); return q; };
	auto eq = [&](const Transform& t, const Transform& w, const char* what) { VP_CHECK(gap(V(img(t)), V(img(w))) <= 1e-12L, "default-argument", "%s maps %s to %s instead of %s", what, str(p).c_str(), str(img(t)).c_str(), str(img(w)).c_str()); };
	eq(Scale(x), Scale(x, 1., 1.), "Scale(x)"); eq(Scale(x, y), Scale(x, y, 1.), "Scale(x,y)");
	eq(RotationEulerAngles(a), RotationEulerAngles(a, 0., 0.), "RotationEulerAngles(yaw)"); eq(RotationEulerAngles(a, b), RotationEulerAngles(a, b, 0.), "RotationEulerAngles(yaw,pitch)");
	eq(RotationEulerAngles(), RotationEulerAngles(0., 0., 0.), "RotationEulerAngles()");
	RotationEulerAngles e(b, a, b); e.set_angles(); eq(e, RotationEulerAngles(0., 0., 0.), "set_angles()");
	e.set_angles(a); eq(e, RotationEulerAngles(a, 0., 0.), "set_angles(yaw)"); e.set_angles(a, b); eq(e, RotationEulerAngles(a, b, 0.), "set_angles(yaw,pitch)");
}


long fixed_cases() { return 1; }
void run_case(Ctx& c) {
	Gen& g = c.g;
	double m = g.mag(1e-3, 1e4);
	// single transform against the definition
	int n = g.i(1, 5);
	std::vector<std::shared_ptr<Transform>> ts;
	std::vector<Affine> maps;
	std::string names;
	for (int k = 0; k < n; k++) {
		Affine a; std::string nm;
		ts.push_back(gen_transform(g, a, nm, m)); maps.push_back(a);
		names += (k ? ", " : "") + nm;
		c.count(nm.c_str());
	}
	c.desc("%s; magnitude %g", names.c_str(), m);
	for (int k = 0; k < n; k++) {
		const Affine& a = maps[k];
		for (int r = 0; r < 4; r++) {
			Point3 p = r == 0 ? Point3(0, 0, 0) : g.spt(m), q = p;
			ts[k]->apply(q);
			ld tol = 1e-10L * (3 * a.norm() * absmax(V(p)) + absmax(a.b)) + 1e-300L;
			V want = a(V(p));
			c.mixd(q._x); c.mixd(q._y);
			if (!same_bits(p, q)) c.nontrivial = true;
			VP_CHECK(gap(V(q), want) <= tol, "definition", "%s maps %s to %s instead of %s", names.c_str(), str(p).c_str(), str(q).c_str(), str(want).c_str());
			Point3 q2 = p;
			ts[k]->apply(q2);
			VP_CHECK(same_bits(q, q2), "repeat", "the same transform applied twice to the same point gives two results");
		}
	}
	// the three rotations agree, fix the axis, are inverted by the opposite angle, add their angles
	{
		Point3 ax = g.dir();
		double ang = g.u(-720, 720), ang2 = g.u(-720, 720);
		RotationQuaternion q; q.from_angle_axis(ang, ax);
		RotationMatrix rm; rm.from_angle_axis(ang, ax);
		RotationAngleAxis ra(ang, ax), rb(ang2, ax), rs(ang + ang2, ax), ri(-ang, ax);
		Point3 p = g.spt(m), p2 = g.spt(m), a = p, b = p, d = p, e = p2;
		q.apply(a); rm.apply(b); ra.apply(d); ra.apply(e);
		ld tol = 1e-10L * m * 10;
		VP_CHECK(gap(V(a), V(b)) <= tol && gap(V(b), V(d)) <= tol, "agree", "rotation by %.17g about %s: quaternion %s, matrix %s, angle-axis %s", ang, str(ax).c_str(), str(a).c_str(), str(b).c_str(), str(d).c_str());
		VP_CHECK(fabsl((V(d) - V(e)).n() - (V(p) - V(p2)).n()) <= tol, "isometry", "a rotation changes a distance");
		Point3 x = ax; ra.apply(x);
		VP_CHECK(gap(V(x), V(ax)) <= 1e-10L, "axis", "a rotation moves its axis %s to %s", str(ax).c_str(), str(x).c_str());
		Point3 s1 = d, s2 = p; rb.apply(s1); rs.apply(s2);
		VP_CHECK(gap(V(s1), V(s2)) <= 10 * tol, "compose", "angles do not add");
		ri.apply(d);
		VP_CHECK(gap(V(d), V(p)) <= 10 * tol, "inverse", "the opposite angle does not restore the point");
		double mm[9]; rm.get_matrix(mm);
		RotationMatrix r2(mm); Point3 z = p; r2.apply(z);
		VP_CHECK(same_bits(z, b), "get-matrix", "the matrix read back is another rotation");
		RotationMatrix id; RotationQuaternion idq; RotationAngleAxis ida;
		Point3 i1 = p, i2 = p, i3 = p; id.apply(i1); idq.apply(i2); ida.apply(i3);
		VP_CHECK(gap(V(i1), V(p)) <= tol && gap(V(i2), V(p)) <= tol && gap(V(i3), V(p)) <= tol, "identity", "a default rotation is not the identity");
		c.count("rotation agreements");
	}
	if (g.b(0.3)) defaults(c);
	// objects
	std::vector<Point3> pts;
	int np = c.index == 0 ? 70000 : g.size(0, 60, 3000);
	bool orbit = g.b(0.15); // each point often the image of the one before
	for (int k = 0; k < np; k++) if (orbit && k && g.b(0.7)) { pts.push_back(pts.back()); ts[0]->apply(pts.back()); } else pts.push_back(g.b(0.1) && k ? pts[g.i(0, k - 1)] : g.spt(m));
	Mesh mesh;
	for (auto& p : pts) mesh.add_vertex(p);
	if (np) for (int k = g.size(0, 40, 3000); k > 0; k--) mesh.add_triangle(g.i(0, np - 1), g.i(0, np - 1), g.i(0, np - 1));
	for (int k = 0; k < mesh.nb_triangles(); k++) if (g.b(0.2)) mesh.unlink_triangle(k);
	if (g.b()) mesh.set_color(g.i(0, 0xffffff));
	SurfDef sd = gen_surface(g, 4, 7, 1e-5, 300);
	NurbsSurface surf; set(surf, sd, &g);
	sd = def(surf);
	NurbsSolid solid;
	std::vector<SurfDef> sold;
	for (int k = g.size(0, 3, 300); k > 0; k--) { NurbsSurface s; set(s, gen_surface(g, 3, 5), &g); sold.push_back(def(s)); solid.add_surface(s); }
	SmoothMesh sm;
	std::vector<PatchDef> pd;
	for (int k = g.size(0, 5, 1100); k > 0; k--) { pd.push_back(gen_patch(g)); sm.add_triangle(pd.back().make()); }
	PatchDef od = gen_patch(g); QuadBezierTriangle one = od.make();

	std::vector<Point3> list = pts, ref = pts;
	Snap ms = snap(mesh);
	SurfDef sw = sd; std::vector<SurfDef> soldw = sold;
	for (int k = 0; k < n; k++) {
		ts[k]->apply_all(list);
		mesh.apply_transform(*ts[k]); surf.apply_transform(*ts[k]); solid.apply_transform(*ts[k]); sm.apply_transform(*ts[k]); one.apply_transform(*ts[k]);
		for (auto& p : ref) ts[k]->apply(p);
		for (auto& p : sw.p) ts[k]->apply(p);
		for (auto& s : soldw) for (auto& p : s.p) ts[k]->apply(p);
		auto app = [&](PatchDef& d) { for (Point3* p : {&d.P1, &d.P2, &d.P3, &d.C12, &d.C13, &d.C23}) ts[k]->apply(*p); };
		for (auto& d : pd) app(d);
		app(od);
	}
	auto close = [&](const std::vector<Point3>& a, const std::vector<Point3>& b, const char* what) {
		VP_CHECK(a.size() == b.size(), what, "%zu points instead of %zu", a.size(), b.size());
		ld e = extent(b);
		for (size_t k = 0; k < a.size(); k++) VP_CHECK(gap(V(a[k]), V(b[k])) <= 1e-12L * e, what, "point %zu of %zu is %s instead of %s after %s", k, a.size(), str(a[k]).c_str(), str(b[k]).c_str(), names.c_str());
	};
	close(list, ref, "point-list");
	Snap mn = snap(mesh);
	close(mn.v, ref, "mesh-points");
	VP_CHECK(mn.t == ms.t && mn.dead == ms.dead && mn.color == ms.color, "mesh-connectivity", "transforming a mesh changed its triangles or its colour");
	auto surfsame = [&](const NurbsSurface& s, const SurfDef& w, const char* what) {
		SurfDef d = def(s);
		close(d.p, w.p, what);
		SurfDef d2 = w; d2.p = d.p;
		std::string df = diff(d, d2);
		VP_CHECK(df.empty(), what, "transforming changed more than the points: %s", df.c_str());
	};
	surfsame(surf, sw, "surface");
	VP_CHECK(solid.surfaces().size() == sold.size(), "solid", "number of faces changed");
	for (size_t k = 0; k < sold.size(); k++) surfsame(solid.surfaces()[k], soldw[k], "solid");
	VP_CHECK(sm.nb_triangles() == (int)pd.size(), "smooth-mesh", "number of patches changed");
	for (int k = 0; k <= (int)pd.size(); k++) {
		const PatchDef& d = k < (int)pd.size() ? pd[k] : od;
		const QuadBezierTriangle& t = k < (int)pd.size() ? sm.triangle(k) : one;
		for (int r = 0; r < 7; r++) {
			double s = r == 0 ? 1 : r == 3 || r == 4 ? 0.5 : r >= 6 ? g.u(0, 1) : 0, u = r == 1 ? 1 : r == 3 || r == 5 ? 0.5 : r >= 6 ? g.u(0, 1 - s) : 0;
			Point3 p = t.eval(s, u, 1. - s - u);
			V w = d.eval(s, u, 1. - s - u);
			VP_CHECK(gap(V(p), w) <= 1e-11L * d.ext() * d.wratio(), "patch", "patch %d at (%g,%g) is %s instead of %s after %s", k, s, u, str(p).c_str(), str(w).c_str(), names.c_str());
		}
	}
	// transforming commutes with evaluating
	Affine all;
	for (auto& a : maps) all = all.then(a);
	SurfDef before = sd; ld e = ext(sd), en = ext(sw);
	for (int r = 0; r < 4; r++) {
		double u = gen_param(g, sd.ku), v = gen_param(g, sd.kv);
		Point3 p; surf.evaluate(u, v, p);
		V w = all(eval(before, u, v));
		VP_CHECK(gap(V(p), w) <= 1e-9L * wratio(sd.w) * (en + 3 * all.norm() * e + absmax(all.b)), "commute", "evaluating the transformed surface at (%.17g,%.17g) gives %s, transforming the point gives %s", u, v, str(p).c_str(), str(w).c_str());
	}
	c.count("objects transformed");
}
}
