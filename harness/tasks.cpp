#include "tasks.h"
#include "MeshFactory.h"
#include "MeshUtil.h"
#include "MeshTessellate.h"
#include "MeshBoolean.h"
#include "MeshMeasurements.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
#include "NurbsExtrude.h"
#include "NurbsRevolve.h"
#include "NurbsRuled.h"
#include "SmoothMeshFactory.h"
#include "STLFile.h"
#include "ImageIoBmp.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "GeometryUtil.h"

namespace vp {
void Digest::m(const Mesh& v) {
	Snap q = snap(v);
	u(q.v.size()); for (auto& x : q.v) p(x);
	u(q.t.size()); for (size_t k = 0; k < q.t.size(); k++) { for (int a : q.t[k]) u((uint64_t)a + 3); u((uint64_t)q.dead[k]); }
	for (int k = 0; k < v.nb_triangles(); k++) { int a = -5, b = -5, c = -5; v.get_near_triangles(k, a, b, c); u((uint64_t)(a + 9)); u((uint64_t)(b + 9)); u((uint64_t)(c + 9)); }
}
void Digest::c(const SmoothMesh& v) { u((uint64_t)v.nb_triangles()); for (int k = 0; k < v.nb_triangles(); k++) { auto& t = v.triangle(k); for (int j = 0; j < 6; j++) p(t.eval(0.15 * j, 0.1 + 0.1 * j)); } }
void Digest::c(Image& v) { u((uint64_t)v.width()); u((uint64_t)v.height()); u((uint64_t)v.planes()); for (int k = 0; k < v.size(); k++) u(v.data()[k]); }

static const char* names[] = {"solids of the mesh factory", "mesh edition", "merge and clean", "tessellation", "mesh boolean", "grids", "curve evaluation", "curve refinement", "surface evaluation", "surface refinement", "extrusion", "revolution", "ruled surface", "curves and surfaces of the factory", "solids of the factory", "surface from heights", "solid from a mesh", "surface to mesh", "solid to mesh", "control net", "smooth factory", "smooth mesh edition", "STL", "OBJ", "OBJ writer", "STEP", "BMP", "images", "rendering", "geometry", "transforms", "faces and solids", "smooth mesh to mesh", "measurements", "copies", "cleared objects"};
int nb_tasks() { return (int)(sizeof names / sizeof *names); }
const char* task_name(int k) { return names[k]; }

static void some_mesh(Gen& g, Mesh& m) {
	int k = g.i(0, 6);
	if (k == 0) MeshFactory::create_box(g.u(1, 2), g.u(1, 2), g.u(1, 2), m);
	else if (k == 1) MeshFactory::create_icosahedron(g.u(1, 2), m);
	else if (k == 2) MeshFactory::create_sphere_uv(g.u(1, 2), g.i(3, 5), m);
	else if (k == 3) MeshFactory::create_torus(2, 1, g.i(3, 7), m);
	else { int n = g.i(3, 14), t = g.i(1, 14); for (int i = 0; i < n; i++) m.add_vertex(g.pt(2)); for (int i = 0; i < t; i++) m.add_triangle(g.i(0, n - 1), g.i(0, n - 1), g.i(0, n - 1)); }
	if (g.b(0.4)) for (int i = 0; i < m.nb_triangles(); i++) if (g.b(0.1)) m.unlink_triangle(i);
	if (g.b(0.5)) m.set_color(g.i(0, 0xffffff));
}
static uint64_t dig(const Mesh& m) { Digest d; d.m(m); d.u((uint64_t)m.get_color()); return d.h; }
template <class T> static uint64_t digc(const T& x) { Digest d; d.c(x); return d.h; }
static void some_image(Gen& g, Image& im, int planes) { im.resize(g.size(1, 20), g.size(1, 20), planes); for (int k = 0; k < im.size(); k++) im.data()[k] = (unsigned char)g.i(0, 255); }
static std::string bytes(const std::string& p) { std::string s; if (!read_file(p, s)) return "(no file)"; return s; }

void odd_states(Gen& g, Work& w) {
	for (Mesh* m : {&w.a, &w.b, &w.c, &w.d}) switch (g.i(0, 5)) {
		case 0: *m = Mesh(); m->add_vertex(9, 9, 9); break; // points only
		case 1: *m = Mesh(); dirty(g, *m); break;
		case 2: for (int k = 0; k < m->nb_triangles(); k++) m->unlink_triangle(k); break;
		case 3: m->clear(); m->set_color(g.i(0, 0xffffff)); break;
		case 4: dirty(g, *m); break;
		default: break;
	}
	for (NurbsCurve* k : {&w.nc, &w.nc2}) switch (g.i(0, 4)) { case 0: k->clear(); k->set_degree(g.i(1, 9)); break; case 1: dirty(g, *k); break; case 2: k->clear(); break; case 3: k->set_weights(std::vector<double>(g.i(0, 30), 3.)); break; default: break; }
	for (NurbsSurface* k : {&w.ns, &w.ns2}) switch (g.i(0, 5)) { case 0: k->clear(); k->set_degree(g.i(1, 9), g.i(1, 9)); break; case 1: dirty(g, *k); break; case 2: k->clear(); break; case 3: k->set_weights(std::vector<double>(g.i(0, 30), 3.)); break; case 4: k->set_closed_u(g.b()); k->set_closed_v(g.b()); break; default: break; }
	if (g.b(0.5)) { dirty(g, w.so); if (g.b(0.3)) w.so.add_surface(NurbsSurface()); if (g.b(0.2)) w.so.clear(); }
	if (g.b(0.5)) { dirty(g, w.sm); if (g.b(0.3)) w.sm.clear(); }
	for (Image* im : {&w.im, &w.im2}) switch (g.i(0, 3)) { case 0: im->resize(0, g.i(0, 9), g.i(1, 4)); break; case 1: im->resize(g.i(1, 40), g.i(1, 9), g.i(1, 4)); memset(im->data(), 0xA5, (size_t)im->size()); break; case 2: some_image(g, *im, g.i(1, 4)); break; default: break; }
	if (g.b(0.4)) { w.obj.open(w.dir + "/w.obj"); std::vector<Point3> p(g.i(0, 9)); if (g.b()) w.obj.write(p); if (g.b(0.3)) { Mesh m; dirty(g, m); w.obj.write(m); } w.obj.close(); }
	if (g.b(0.2)) { w.obj.open(w.dir + "/no/such/dir"); w.obj.close(); }
	if (g.b(0.4)) { w.step.open(w.dir + "/w.step"); if (g.b()) { NurbsSurface s; NurbsFactory::create_disk(1, s); w.step.write(s); } w.step.close(); }
	if (g.b(0.2)) { w.step.open(w.dir + "/no/such/dir"); w.step.close(); }
	w.pl.assign(g.i(0, 9), Point3(7, 7, 7)); w.vd.assign(g.i(0, 40), -7.);
}

uint64_t run_task(int k, Gen g, Work& w, std::string* changed) {
	Digest D;
	auto kept = [&](uint64_t before, uint64_t after, const char* what) { if (before != after && changed) *changed = what; };
	switch (k) {
	case 0: {
		double s = g.u(0.5, 3); int n = g.size(3, 9);
		switch (g.i(0, 8)) {
		case 0: MeshFactory::create_tetrahedron(s, w.a); break;
		case 1: MeshFactory::create_box(s, g.u(1, 2), g.u(1, 2), w.a); break;
		case 2: MeshFactory::create_octahedron(s, w.a); break;
		case 3: MeshFactory::create_dodecahedron(s, w.a); break;
		case 4: MeshFactory::create_icosahedron(s, w.a); break;
		case 5: MeshFactory::create_cylinder(s, g.u(1, 2), n, w.a); break;
		case 6: MeshFactory::create_sphere_geodesic(s, g.i(1, 4), w.a); break;
		case 7: MeshFactory::create_sphere_uv(s, g.i(3, 6), w.a); break;
		default: MeshFactory::create_torus(s + 1, s * 0.3, n, w.a);
		}
		D.m(w.a); break; }
	case 1: {
		Mesh in; some_mesh(g, in); uint64_t h = dig(in);
		w.a = in; D.m(w.a);
		for (int j = 0; j < 6; j++) {
			std::vector<int> v; for (int t = 0; t < w.a.nb_triangles(); t++) if (!w.a.is_triangle_unlinked(t)) v.push_back(t);
			if (v.empty()) break;
			int t = v[g.i(0, (int)v.size() - 1)]; Point3 p, q, r; w.a.get_triangle_vertices(t, p, q, r);
			int op = g.i(0, 3);
			if (op == 0) w.a.split_triangle_with_vertex(t, (p + q + r) * (1. / 3));
			else if (op == 1) w.a.unlink_triangle(t);
			else if (op == 2) w.a.set_vertex(g.i(0, w.a.nb_vertices() - 1), g.pt(2));
			else if (w.a.nb_vertices() < 300) w.a.add_mesh(in);
		}
		D.m(w.a); D.u((uint64_t)w.a.get_color()); kept(h, dig(in), "the mesh copied and appended"); break; }
	case 2: { // in place: the object first takes the arguments
		Mesh in; some_mesh(g, in); w.a = in;
		if (g.b()) MeshUtil::merge_vertices(w.a, g.b() ? 1e-6 : g.u(0.01, 1)); else MeshUtil::remove_empty_triangles(w.a, 1e-3);
		D.m(w.a); break; }
	case 3: { Mesh in; some_mesh(g, in); uint64_t h = dig(in); MeshTessellate t; t.compute(in, g.i(1, 4), w.a); D.m(w.a); t.compute(in, g.i(1, 3), w.b); D.m(w.b); kept(h, dig(in), "the tessellated mesh"); break; }
	case 4: {
		Mesh A, B; MeshFactory::create_box(g.u(1, 2), g.u(1, 2), g.u(1, 2), A); MeshFactory::create_tetrahedron(g.u(1, 2), B); B.apply_transform(Translation(g.pt(1)));
		uint64_t ha = dig(A), hb = dig(B); MeshBoolean mb; mb.split_meshes(A, B, w.a, w.b, w.c, w.d); D.m(w.a); D.m(w.b); kept(ha, dig(A), "mesh A of the boolean"); kept(hb, dig(B), "mesh B of the boolean"); break; }
	case 5: {
		int x = g.size(1, 8), y = g.size(1, 8); std::vector<double> z; std::vector<Point3> pt; for (int i = 0; i < x * y; i++) { z.push_back(g.u(-1, 1)); pt.push_back(g.pt(1)); }
		MeshUtil::create_from_z(z, x, y, w.a); MeshUtil::create_from_grid(pt, x, y, w.b); D.m(w.a); D.m(w.b); break; }
	case 6: {
		CurveDef d = gen_curve(g); set(w.nc, d); for (int j = 0; j < 12; j++) { Point3 p(9, 9, 9); w.nc.evaluate(j == 0 ? 0 : j == 1 ? 1 : g.u01(), p); D.p(p); }
		uint64_t h = digc(w.nc); w.nc.to_polyline(w.pl); D.u(w.pl.size()); for (auto& p : w.pl) D.p(p); D.u(w.nc.is_closed()); kept(h, digc(w.nc), "the evaluated curve"); break; }
	case 7: { CurveDef d = gen_curve(g, 4, 9); set(w.nc, d); for (int j = 0; j < 4; j++) { if (g.b(0.3)) D.u(w.nc.degree_elevation()); else w.nc.insert_knot(g.u(0.02, 0.98)); D.c(w.nc); } Point3 p; w.nc.evaluate(0.37, p); D.p(p); break; }
	case 8: { SurfDef d = gen_surface(g); set(w.ns, d); uint64_t h = digc(w.ns); for (int j = 0; j < 12; j++) { Point3 p(9, 9, 9); w.ns.evaluate(g.param(), g.param(), p); D.p(p); } kept(h, digc(w.ns), "the evaluated surface"); break; }
	case 9: { SurfDef d = gen_surface(g, 3, 6); set(w.ns, d); for (int j = 0; j < 3; j++) { switch (g.i(0, 3)) { case 0: D.u(w.ns.degree_elevation_u()); break; case 1: D.u(w.ns.degree_elevation_v()); break; case 2: w.ns.insert_knot_u(g.u(0.02, 0.98)); break; default: w.ns.insert_knot_v(g.u(0.02, 0.98)); } D.c(w.ns); } Point3 p; w.ns.evaluate(0.37, 0.81, p); D.p(p); break; }
	case 10: { NurbsCurve c; set(c, gen_curve(g)); uint64_t h = digc(c); NurbsExtrude e; D.u(e.extrude(c, g.pt(3), w.ns)); D.c(w.ns); Point3 p; w.ns.evaluate(0.3, 0.6, p); D.p(p); kept(h, digc(c), "the extruded curve"); break; }
	case 11: { NurbsCurve c; set(c, gen_curve(g)); uint64_t h = digc(c); NurbsRevolve e; D.u(e.revolve(c, w.ns)); D.c(w.ns); Point3 p; w.ns.evaluate(0.3, 0.6, p); D.p(p); kept(h, digc(c), "the revolved curve"); break; }
	case 12: { NurbsCurve c, c2; CurveDef d = gen_curve(g); set(c, d); for (auto& p : d.p) p = g.pt(2); if (g.b()) d.w = gen_weights(g, (int)d.p.size()); set(c2, d); uint64_t h = digc(c), h2 = digc(c2); NurbsRuled e; D.u(e.create_ruled(c, c2, w.ns)); D.c(w.ns); Point3 p; w.ns.evaluate(0.3, 0.6, p); D.p(p); kept(h, digc(c), "the first ruled curve"); kept(h2, digc(c2), "the second ruled curve"); break; }
	case 13: {
		double r = g.u(0.5, 3);
		NurbsFactory::create_circle(r, w.nc); D.c(w.nc);
		switch (g.i(0, 4)) { case 0: NurbsFactory::create_triangle(g.pt(1), g.pt(1), g.pt(1), w.ns); break; case 1: NurbsFactory::create_quad(g.pt(1), g.pt(1), g.pt(1), g.pt(1), w.ns); break; case 2: NurbsFactory::create_disk(r, w.ns); break; case 3: NurbsFactory::create_sphere(r, w.ns); break; default: NurbsFactory::create_torus(r + 1, r * 0.4, w.ns); }
		D.c(w.ns); Point3 p; w.ns.evaluate(0.3, 0.6, p); D.p(p);
		std::vector<Point3> in; int n = g.i(3, 8); for (int i = 0; i < n; i++) in.push_back(g.pt(2)); if (g.b(0.3)) in.back() = in[0];
		NurbsFactory::create_curve_from_points(in, 1 + g.i(0, 2) * (n > 4), w.nc2); D.c(w.nc2); break; }
	case 14: { double r = g.u(0.5, 3); switch (g.i(0, 3)) { case 0: NurbsFactory::create_box(r, g.u(1, 2), g.u(1, 2), w.so); break; case 1: NurbsFactory::create_cylinder(r, g.u(1, 2), w.so); break; case 2: NurbsFactory::create_sphere(r, w.so); break; default: NurbsFactory::create_torus(r + 1, r * 0.4, w.so); } D.c(w.so); break; }
	case 15: { int dg = g.i(1, 3), x = g.i(dg + 1, 7), y = g.i(dg + 1, 7); std::vector<double> z; for (int i = 0; i < x * y; i++) z.push_back(g.u(-1, 1)); NurbsUtil::create_from_z(z, x, y, dg, w.ns); D.c(w.ns); break; }
	case 16: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); NurbsUtil::create_from_mesh(m, w.so); D.c(w.so); kept(h, dig(m), "the mesh converted to a solid"); break; }
	case 17: { NurbsSurface s; if (g.b(0.3)) NurbsFactory::create_torus(2, 1, s); else set(s, gen_surface(g, 3, 5)); uint64_t h = digc(s); NurbsUtil::to_mesh(s, w.a, g.i(1, 6)); D.m(w.a); kept(h, digc(s), "the meshed surface"); break; }
	case 18: { NurbsSolid s; if (g.b()) NurbsFactory::create_cylinder(1, 2, s); else dirty(g, s); uint64_t h = digc(s); NurbsUtil::to_mesh(s, w.a, g.i(1, 4)); D.m(w.a); kept(h, digc(s), "the meshed solid"); break; }
	case 19: { NurbsSurface s; set(s, gen_surface(g, 3, 6)); uint64_t h = digc(s); NurbsUtil::to_controlpoints_mesh(s, w.a); D.m(w.a); kept(h, digc(s), "the surface of the control net"); break; }
	case 20: { double s = g.u(0.5, 2); switch (g.i(0, 5)) { case 0: SmoothMeshFactory::create_tetrahedron(s, w.sm); break; case 1: SmoothMeshFactory::create_box(s, 1, 2, w.sm); break; case 2: SmoothMeshFactory::create_octahedron(s, w.sm); break; case 3: SmoothMeshFactory::create_dodecahedron(s, w.sm); break; case 4: SmoothMeshFactory::create_icosahedron(s, w.sm); break; default: SmoothMeshFactory::create_sphere(s, w.sm); } D.c(w.sm); break; }
	case 21: { SmoothMesh in; dirty(g, in); uint64_t h = digc(in); w.sm = in; D.c(w.sm); w.sm.add_mesh(in); w.sm.add_flat_triangle(g.pt(1), g.pt(1), g.pt(1)); w.sm.add_flat_pentagon(g.pt(1), g.pt(1), g.pt(1), g.pt(1), g.pt(1)); Affine A; std::string n; auto t = gen_transform(g, A, n); w.sm.apply_transform(*t); D.c(w.sm); kept(h, digc(in), "the smooth mesh copied and appended"); break; }
	case 22: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); std::string f = w.dir + "/t.stl"; D.u(STLFile::save(f, m)); D.s(bytes(f)); D.u(STLFile::load(f, w.a)); D.m(w.a); kept(h, dig(m), "the saved mesh"); break; }
	case 23: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); std::string f = w.dir + "/t.obj"; D.u(OBJFile::save(f, m)); D.s(bytes(f)); D.u(OBJFile::load(f, w.a)); D.m(w.a); kept(h, dig(m), "the saved mesh"); break; }
	case 24: { std::string f = w.dir + "/w.obj"; w.obj.open(f); D.u(w.obj.is_open()); int n = g.i(0, 3); for (int i = 0; i < n; i++) { if (g.b()) { Mesh m; some_mesh(g, m); uint64_t h = dig(m); w.obj.write(m); kept(h, dig(m), "the written mesh"); } else { std::vector<Point3> pl; int q = g.i(0, 5); for (int j = 0; j < q; j++) pl.push_back(g.pt(3)); w.obj.write(pl); } } w.obj.close(); D.u(w.obj.is_open()); D.s(bytes(f)); break; }
	case 25: { std::string f = w.dir + "/w.step"; w.step.open(f); D.u(w.step.is_open()); int n = g.i(0, 2); for (int i = 0; i < n; i++) { if (g.b()) { NurbsSurface s; set(s, gen_surface(g, 3, 4)); uint64_t h = digc(s); w.step.write(s); kept(h, digc(s), "the written surface"); } else { NurbsSolid s; NurbsFactory::create_cylinder(1, 2, s); uint64_t h = digc(s); w.step.write(s); kept(h, digc(s), "the written solid"); } } w.step.close(); D.s(bytes(f)); break; }
	case 26: { Image im; some_image(g, im, g.b(0.33) ? 1 : g.b() ? 3 : 4); Digest b; b.c(im); std::string f = w.dir + "/i.bmp"; D.u(ImageIoBmp::write(f, &im)); D.s(bytes(f)); D.u(ImageIoBmp::read(f, &w.im)); D.c(w.im); Digest a; a.c(im); kept(b.h, a.h, "the written image"); break; }
	case 27: {
		int q = g.i(0, 3);
		if (q == 0) ImageGenerator::Mandelbrot(w.im, g.size(0, 14), g.size(0, 14), g.size(0, 60)); else if (q == 1) ImageGenerator::Shierpinsky(w.im, g.size(0, 20), g.size(0, 20));
		else { Image in; some_image(g, in, g.i(3, 4)); Digest b; b.c(in); ImageUtil::convert_to_bw(in, w.im); Digest a; a.c(in); kept(b.h, a.h, "the image converted to grey"); if (q == 3) ImageUtil::scale(w.im, g.u(0, 3)); }
		D.c(w.im); w.im.to_double(w.vd); D.u(w.vd.size()); if (w.im.planes()) for (double v : w.vd) D.d(v); break; }
	case 28: {
		int W = g.size(1, 60), H = g.size(1, 50); std::vector<int> px((size_t)W * H, 77); Renderer r(px.data(), W, H);
		r.set_camera(g.u(-1, 1), g.u(-1, 1), -6, 0, g.u(-20, 20), g.u(-20, 20), g.u(0, 360), W * g.u(0.5, 2)); if (g.b()) { r.set_background((int)g.u64()); r.clear(); }
		int n = g.i(0, 3); for (int i = 0; i < n; i++) if (g.b()) r.add_ambient_light((int)g.u64(), g.u01()); else r.add_diffuse_light((int)g.u64(), g.u01(), g.dir());
		for (int pass = 0; pass < 2; pass++) {
			Mesh m; some_mesh(g, m); uint64_t h = dig(m); r.draw_mesh(m, g.b(), g.b() ? -1 : g.i(0, 0xffffff)); kept(h, dig(m), "the drawn mesh");
			r.draw_line(g.pt(2), g.pt(2), 3); r.draw_pixel(g.pt(2), 5); for (int v : px) D.u((uint64_t)(unsigned)v);
			if (g.b()) r.clear();
		}
		break; }
	case 29: {
		int seed = g.i(0, 1000); Point3 p; GeometryUtil::compute_random_axis(p, seed); D.p(p);
		for (int j = 0; j < 6; j++) { Plane3 P(g.pt(1), g.pt(1), g.pt(1)); Segment3 s(g.pt(2), g.pt(2)); Point3 q; D.u(P.intersect_with(s, q)); D.p(q); Triangle3 t(g.pt(1), g.pt(1), g.pt(1)), t2(g.pt(1), g.pt(1), g.pt(1)); D.d(t.surface()); D.p(t.normal()); D.u(t.contains(g.pt(0.3))); D.u(t.intersect_with(t2)); if (t.intersect_with(s, q)) D.p(q); Segment3 s2(g.pt(2), g.pt(2)); if (s.intersect(s2, q)) D.p(q); }
		break; }
	case 30: { Affine A; std::string n; auto t = gen_transform(g, A, n); Point3 p = g.pt(4); t->apply(p); D.p(p); w.a = Mesh(); some_mesh(g, w.b = Mesh()); w.b.apply_transform(*t); D.m(w.b); set(w.ns, gen_surface(g, 3, 5)); w.ns.apply_transform(*t); D.c(w.ns); NurbsSolid s; dirty(g, s); w.so = s; w.so.apply_transform(*t); D.c(w.so); break; }
	case 31: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); Face f(m); Solid s(f.mesh()); s.add_face(f); Solid s2; s2 = s; Face f2; f2 = f; D.m(s2.mesh()); D.m(f2.mesh()); kept(h, dig(m), "the mesh of a face"); break; }
	case 32: { SmoothMesh s; if (g.b()) SmoothMeshFactory::create_sphere(1, s); else dirty(g, s); uint64_t h = digc(s); Mesh m; s.add_to_mesh(m, g.i(1, 4)); D.m(m); kept(h, digc(s), "the meshed smooth mesh"); break; }
	case 33: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); D.d(MeshMeasurements::volume(m)); D.d(MeshMeasurements::surface(m)); D.u(MeshMeasurements::is_closed(m)); D.u(MeshMeasurements::is_oriented_outside(m)); D.u(MeshMeasurements::has_no_degenerated_triangles(m)); D.u(MeshMeasurements::is_clean(m)); kept(h, dig(m), "the measured mesh"); break; }
	case 34: { Mesh m; some_mesh(g, m); uint64_t h = dig(m); w.c = m; D.m(w.c); w.d = w.c; D.m(w.d); CurveDef d = gen_curve(g); NurbsCurve c; set(c, d); w.nc2 = c; D.c(w.nc2); NurbsSurface s; set(s, gen_surface(g, 3, 5)); w.ns2 = s; D.c(w.ns2); Image im; some_image(g, im, 3); w.im2 = im; D.c(w.im2); kept(h, dig(m), "the copied mesh"); break; }
	case 35: { // what is left in cleared objects
		w.a.clear(); w.nc.clear(); w.ns.clear(); w.so.clear(); w.sm.clear(); D.m(w.a); D.c(w.nc); D.c(w.ns); D.c(w.so); D.c(w.sm);
		Mesh m; some_mesh(g, m); w.a.add_mesh(m); D.m(w.a);
		CurveDef d = gen_curve(g); w.nc.set_degree(d.degree); w.nc.set_points(d.p); w.nc.set_knots(d.knots); w.nc.set_equals_weights(); D.c(w.nc); Point3 p; w.nc.evaluate(0.3, p); D.p(p);
		break; }
	}
	return D.h;
}

void Shared::make(Gen& g) {
	some_mesh(g, mesh);
	if (g.b()) SmoothMeshFactory::create_sphere(1, sm); else dirty(g, sm);
	set(nc, gen_curve(g)); set(ns, gen_surface(g, 3, 6)); NurbsFactory::create_cylinder(1, 2, so);
	some_image(g, im, 3); patch = gen_patch(g).make();
}
static const char* snames[] = {"mesh read", "mesh measured", "mesh rendered", "mesh saved", "mesh copied", "mesh tessellated", "mesh split", "curve evaluated", "curve to polyline", "curve extruded", "curve revolved", "curve copied", "surface evaluated", "surface meshed", "surface written", "surface copied", "smooth mesh meshed", "smooth mesh copied", "solid meshed", "solid written", "image read", "image written", "patch evaluated", "mesh appended", "curve ruled"};
int nb_shared() { return (int)(sizeof snames / sizeof *snames); }
const char* shared_name(int k) { return snames[k]; }
uint64_t read_shared(const Shared& s, int what, Gen g, const std::string& dir) {
	Digest D;
	switch (what) {
	case 0: D.m(s.mesh); D.u((uint64_t)s.mesh.get_color()); break;
	case 1: D.d(MeshMeasurements::volume(s.mesh)); D.d(MeshMeasurements::surface(s.mesh)); D.u(MeshMeasurements::is_closed(s.mesh)); D.u(MeshMeasurements::is_clean(s.mesh)); break;
	case 2: { std::vector<int> px(30 * 20); Renderer r(px.data(), 30, 20); r.add_ambient_light(0xffffff, 0.5); r.add_diffuse_light(0xffffff, 0.5, Point3(0, 0, -1)); r.set_camera(0, 0, -6, 0, g.u(-20, 20), 0, 0, 30); r.draw_mesh(s.mesh, g.b()); for (int v : px) D.u((uint64_t)(unsigned)v); break; }
	case 3: { std::string f = dir + "/s.stl"; D.u(STLFile::save(f, s.mesh)); D.s(bytes(f)); f = dir + "/s.obj"; D.u(OBJFile::save(f, s.mesh)); D.s(bytes(f)); break; }
	case 4: { Mesh m(s.mesh), n; n = s.mesh; D.m(m); D.m(n); break; }
	case 5: { Mesh m; MeshTessellate t; t.compute(s.mesh, 2, m); D.m(m); break; }
	case 6: { Mesh b, A, B, C, E; MeshFactory::create_tetrahedron(1, b); MeshBoolean mb; if (s.mesh.nb_triangles() < 40) mb.split_meshes(s.mesh, b, A, B, C, E); D.m(A); D.m(B); break; }
	case 7: for (int j = 0; j < 10; j++) { Point3 p; s.nc.evaluate(g.param(), p); D.p(p); } D.u(s.nc.is_closed()); break;
	case 8: { std::vector<Point3> pl; s.nc.to_polyline(pl); for (auto& p : pl) D.p(p); break; }
	case 9: { NurbsSurface n; NurbsExtrude().extrude(s.nc, g.pt(1), n); D.c(n); break; }
	case 10: { NurbsSurface n; NurbsRevolve().revolve(s.nc, n); D.c(n); break; }
	case 11: { NurbsCurve n(s.nc); n.degree_elevation(); n.insert_knot(0.4); D.c(n); break; }
	case 12: for (int j = 0; j < 10; j++) { Point3 p; s.ns.evaluate(g.param(), g.param(), p); D.p(p); } break;
	case 13: { Mesh m; NurbsUtil::to_mesh(s.ns, m, 4); D.m(m); NurbsUtil::to_controlpoints_mesh(s.ns, m); D.m(m); break; }
	case 14: { StepWriter w; w.open(dir + "/n.step"); w.write(s.ns); w.close(); D.s(bytes(dir + "/n.step")); break; }
	case 15: { NurbsSurface n(s.ns); n.degree_elevation_u(); n.insert_knot_v(0.4); D.c(n); break; }
	case 16: { Mesh m; s.sm.add_to_mesh(m, 3); D.m(m); break; }
	case 17: { SmoothMesh n(s.sm); n.add_mesh(s.sm); D.c(n); break; }
	case 18: { Mesh m; NurbsUtil::to_mesh(s.so, m, 3); D.m(m); break; }
	case 19: { StepWriter w; w.open(dir + "/o.step"); w.write(s.so); w.close(); D.s(bytes(dir + "/o.step")); break; }
	case 20: { for (int y = 0; y < s.im.height(); y++) for (int x = 0; x < s.im.width(); x++) for (int p = 0; p < s.im.planes(); p++) D.u(s.im(x, y, p)); Image o; ImageUtil::convert_to_bw(s.im, o); D.c(o); break; }
	case 21: { D.u(ImageIoBmp::write(dir + "/s.bmp", &s.im)); D.s(bytes(dir + "/s.bmp")); break; }
	case 22: { for (int j = 0; j < 5; j++) D.p(s.patch.eval(0.2 * j, 0.1)); Mesh m; s.patch.add_to_mesh(m, 3); D.m(m); break; }
	case 23: { Mesh m; MeshFactory::create_octahedron(1, m); m.add_mesh(s.mesh); D.m(m); break; }
	case 24: { NurbsSurface n; D.u(NurbsRuled().create_ruled(s.nc, s.nc, n)); D.c(n); break; }
	}
	return D.h;
}
} // namespace vp
