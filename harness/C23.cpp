// C23: any scene, any camera: memory, undefined behaviour, termination, colours, and what lies behind the camera.
#include "render.h"
#include "Mesh.h"
#include <memory>
using namespace vp;
namespace vp {
const char* kRule = "case = buffer of any size (exact heap block, or slice of a guarded block), hostile cameras, lights and drawing calls (behind, on, near the camera plane, huge, infinite, undefined, degenerate); pixels are compared before and after every call; non-trivial = at least one pixel changed";

static double odd(Gen& g) {
	static const double t[] = {0., -0., 1e-300, -1e-300, 5e-324, 1e300, -1e300, 1.7976931348623157e308, 2147483647., 2147483648., -2147483649., 4294967296., 16777216., 16777217., 1e18, -1e18, 1e-30, -1e-30, 1e-9, -1e-9};
	double p = g.u01();
	if (p < 0.1) return std::numeric_limits<double>::quiet_NaN();
	if (p < 0.2) return g.sgn() * std::numeric_limits<double>::infinity();
	if (p < 0.8) return t[g.i(0, (int)(sizeof t / sizeof *t) - 1)];
	return g.sgn() * g.logu(1e-300, 1e300);
}

struct Scene {
	Ctx& c; Gen& g;
	int W, H;
	std::vector<int> big; std::unique_ptr<int[]> exact; int* px = 0; size_t guard = 0; int pat = 0x1badcafe;
	Cam cam; bool sane = true; ld Z = 1;
	std::vector<Light> lights; bool finiteLights = true;
	std::vector<int> before;
	long costly = 0, changed = 0;
	Scene(Ctx& cc) : c(cc), g(cc.g) {
		W = g.size(0, 120); H = g.size(0, 90);
		if (g.b(0.03)) { W = g.i(0, 3000); H = g.i(0, 3); }
		if (g.b(0.03)) { H = g.i(0, 3000); W = g.i(0, 3); }
		size_t n = (size_t)W * H;
		if (g.b(0.6)) { exact.reset(new int[n]); px = exact.get(); c.count("exact buffers"); }
		else { guard = 70000; big.assign(n + 2 * guard, pat); px = big.data() + guard; c.count("guarded buffers"); }
		c.count(n ? "buffers with pixels" : "empty buffers");
	}
	size_t n() const { return (size_t)W * H; }
	void mark() { before.assign(px, px + n()); }
	void guards() {
		if (!guard) return;
		for (size_t k = 0; k < guard; k++) {
			VP_CHECK(big[k] == pat, "outside-write", "memory %zu pixels before the buffer was written (%dx%d)", guard - k, W, H);
			VP_CHECK(big[guard + n() + k] == pat, "outside-write", "memory %zu pixels after the end of the buffer was written (%dx%d)", k + 1, W, H);
		}
	}
	// calls f for each changed pixel
	template <class F> long diff(F f) { long k = 0; for (size_t i = 0; i < n(); i++) if (px[i] != before[i]) { f((int)(i % W), (int)(i / W), px[i]); k++; } changed += k; return k; }
};

void run_case(Ctx& c) {
	Gen& g = c.g;
	Scene S(c);
	Cam& cam = S.cam;
	std::unique_ptr<Renderer> R(new Renderer(S.px, S.W, S.H));
	for (size_t i = 0; i < S.n(); i++) VP_CHECK(S.px[i] == 0, "clear", "pixel %zu is %08x after construction", i, S.px[i]);
	cam.W = S.W; cam.H = S.H;
	auto set_camera = [&]() {
		S.Z = g.logu(0.1, 1000);
		cam.o = V(g.pt(g.b() ? 0 : (double)S.Z * 3)); cam.ahead = g.b() ? 0 : g.u(-2, 2) * S.Z;
		cam.yaw = g.b(0.3) ? 0 : g.u(-720, 720); cam.pitch = g.b(0.3) ? 0 : g.u(-720, 720); cam.roll = g.b(0.3) ? 0 : g.u(-720, 720);
		cam.zoom = (std::max(S.W, S.H) + 1) * g.logu(0.2, 5);
		S.sane = true;
		if (g.b(0.3)) {
			S.sane = false;
			int k = g.i(0, 6); double v = odd(g);
			if (k == 0) cam.zoom = g.b() ? 0 : g.b() ? -cam.zoom : v; else if (k == 1) cam.yaw = v; else if (k == 2) cam.pitch = v; else if (k == 3) cam.roll = v; else if (k == 4) cam.ahead = v; else if (k == 5) cam.o.x = v; else { cam.o = V(g.anypt()); cam.zoom = v; cam.roll = odd(g); }
			c.count("hostile cameras");
		}
		if (S.sane) cam.prepare();
		cam.set(*R);
	};
	auto add_l = [&]() {
		Light l; l.diffuse = g.b(0.6); l.color = (int)g.u64(); l.f = g.b(0.7) ? g.u(0, 2) : g.b() ? odd(g) : g.sgn() * g.logu(1, 1e12); l.dir = g.b(0.8) ? g.dir() * g.u(0.1, 3) : Point3(odd(g), odd(g), odd(g));
		if (!std::isfinite(l.f) || fabs(l.f) > 1e13 || (l.diffuse && !(absmax(V(l.dir)) < 1e6))) { S.finiteLights = false; c.count("hostile lights"); }
		S.lights.push_back(l); add_light(*R, l);
	};
	if (g.b(0.95)) set_camera(); else { S.sane = false; c.count("no camera"); }
	int nl = g.b(0.1) ? 0 : g.i(1, 5); for (int k = 0; k < nl; k++) add_l();

	// points: rel = where relatively to the camera (-1 behind, 0 anywhere, 1 in front)
	auto point = [&](int rel) -> Point3 {
		if (!S.sane) { double s = (double)S.Z * 3; Point3 p = g.pt(s); if (g.b(0.3)) p = g.anypt(); if (g.b(0.2)) { int k = g.i(0, 2); (k == 0 ? p._x : k == 1 ? p._y : p._z) = odd(g); } return p; }
		ld z = rel > 0 ? S.Z * g.logu(0.3, 3) : rel < 0 ? -S.Z * g.logu(0.01, 30) : S.Z * g.u(-2, 2);
		if (rel == 0) { double p = g.u01(); if (p < 0.15) z = 0; else if (p < 0.4) z = S.Z * g.sgn() * g.logu(1e-18, 1e-2); else if (p < 0.5) z = S.Z * g.sgn() * g.logu(1e-320, 1e-3); }
		ld fx = g.u(-0.5, 1.5), fy = g.u(-0.5, 1.5);
		if (g.b(0.15)) { fx = g.sgn() * g.logu(1, 1e7); } if (g.b(0.15)) { fy = g.sgn() * g.logu(1, 1e7); }
		Point3 q = rel < 0 || (rel == 0 && g.b()) ? cam.world(V((ld)g.u(-3, 3) * S.Z, (ld)g.u(-3, 3) * S.Z, z)).p() : cam.at(fx * S.W, fy * S.H, z);
		if (rel == 0 && g.b(0.2)) { int k = g.i(0, 2); (k == 0 ? q._x : k == 1 ? q._y : q._z) = odd(g); }
		if (rel == 0 && g.b(0.05)) q = Point3(odd(g), odd(g), odd(g));
		return q;
	};
	// wholly behind the camera, by more than roundings
	auto behind = [&](const Point3& p) {
		if (!S.sane || !finite(p)) return false;
		V l = cam.local(V(p)); ld scale = absmax(V(p)) + absmax(cam.o) + fabsl(cam.ahead);
		return l.z < -1e-9L * scale && l.z < -1e-9L;
	};
	auto cost = [&](const Point3& a, const Point3& b) { // pixels that draw_line would walk
		if (!S.sane) return 3e7;
		V p = cam.screen(V(a)), q = cam.screen(V(b)); ld d = std::max(fabsl(p.x - q.x), fabsl(p.y - q.y));
		return d < 3e7 ? (double)d : 3e7;
	};
	double budget = 4e6; if (g.b(0.02)) budget = 1e8;
	auto affordable = [&](double k) { if (k > budget) return false; budget -= k; return true; };

	int nb = g.size(1, 25), bg = 0;
	for (int k = 0; k < nb; k++) {
		S.mark();
		int what = g.i(0, 19);
		int rel = g.b(0.25) ? -1 : g.b(0.3) ? 1 : 0;
		if (g.b(0.05)) { set_camera(); }
		if (g.b(0.04)) add_l();
		if (what < 9) {
			Point3 A = point(rel), B = point(rel), C = point(rel);
			if (g.b(0.1)) C = g.b() ? A : B;
			if (g.b(0.05)) C = A + (B - A) * g.u(-1, 2);
			int col = (int)g.u64(); bool two = g.b();
			bool bh = behind(A) && behind(B) && behind(C);
			R->draw_triangle_1color(A, B, C, col, two);
			bool first = true; int seen = 0;
			long nch = S.diff([&](int x, int y, int v) {
				if (first) { seen = v; first = false; }
				VP_CHECK(v == seen, "mixed-colours", "one triangle painted %08x and %08x (at (%d,%d))", seen, v, x, y);
				VP_CHECK(!bh, "behind-drawn", "triangle %s %s %s, behind the camera, painted pixel (%d,%d)", str(A).c_str(), str(B).c_str(), str(C).c_str(), x, y);
			});
			if (bh) c.count("triangles behind");
			c.count("triangles");
			if (nch) {
				c.count("triangles seen");
				VP_CHECK((seen & ~0xffffff) == 0, "colour", "triangle painted in %08x", seen);
				ld big = absmax(V(A)) + absmax(V(B)) + absmax(V(C));
				if (S.finiteLights && finite(A) && finite(B) && finite(C) && big < 1e100L) {
					Col want = lit(S.lights, col, A, B, C);
					VP_CHECK(want.ok(seen), "colour", "triangle painted in %06x instead of %s", seen, want.str().c_str());
					c.count("colours compared");
				}
			}
		} else if (what < 12) {
			Mesh m; int nv = g.i(3, 8), nt = g.i(1, 8);
			for (int i = 0; i < nv; i++) m.add_vertex(point(rel));
			bool bh = true; double kost = 0; bool edges = g.b();
			std::vector<Tri> ts;
			for (int i = 0; i < nt; i++) { int a = g.i(0, nv - 1), b = g.i(0, nv - 1), d = g.i(0, nv - 1); m.add_triangle(a, b, d); if (g.b(0.1)) m.unlink_triangle(i); }
			m.set_color((int)g.u64());
			std::vector<Col> may; bool known = S.finiteLights;
			int arg = g.b() ? -1 : (int)g.u64(), col = arg == -1 ? m.get_color() : arg;
			for (int i = 0; i < m.nb_triangles(); i++) {
				if (m.is_triangle_unlinked(i)) continue;
				Triangle3 t; m.get_triangle(i, t);
				Point3 p[3] = {t.p1(), t.p2(), t.p3()};
				for (auto& q : p) { bh = bh && behind(q); known = known && finite(q) && absmax(V(q)) < 1e100L; }
				kost += cost(p[0], p[1]) + cost(p[1], p[2]) + cost(p[0], p[2]);
				may.push_back(lit(S.lights, col, p[0], p[1], p[2]));
			}
			if (edges && !affordable(kost)) edges = false;
			R->draw_mesh(m, edges, arg);
			S.diff([&](int x, int y, int v) {
				VP_CHECK((v & ~0xffffff) == 0, "colour", "mesh painted in %08x", v);
				bool ok = !known || (edges && v == 0);
				for (auto& w : may) ok = ok || w.ok(v);
				VP_CHECK(ok, "colour", "mesh painted (%d,%d) in %06x, not the colour of any of its triangles", x, y, v);
				VP_CHECK(!bh, "behind-drawn", "a mesh behind the camera painted pixel (%d,%d)", x, y);
				VP_CHECK(!may.empty(), "removed-drawn", "removed triangles painted (%d,%d)", x, y);
			});
			if (bh) c.count("meshes behind");
			c.count("meshes");
		} else if (what < 16) {
			bool poly = what >= 14; vector<Point3> pl; int np = poly ? g.i(0, 6) : 2;
			for (int i = 0; i < np; i++) pl.push_back(point(rel));
			double kost = 0; for (int i = 1; i < np; i++) kost += cost(pl[i - 1], pl[i]);
			if (!affordable(kost)) { c.count("long lines skipped"); continue; }
			int col = (int)g.u64();
			bool bh = true; for (auto& q : pl) bh = bh && behind(q);
			if (bh && np > 1) c.count("lines behind");
			if (poly) R->draw_polyline(pl, col); else R->draw_line(pl[0], pl[1], col);
			S.diff([&](int x, int y, int v) { VP_CHECK(v == col, "colour", "line of colour %08x painted (%d,%d) in %08x", col, x, y, v); VP_CHECK(!bh, "behind-drawn", "a line behind the camera painted pixel (%d,%d)", x, y); });
			c.count(poly ? "polylines" : "lines");
			if (kost > 1e6) c.count("lines of more than a million steps");
		} else if (what < 19) {
			Point3 a = point(rel); int col = (int)g.u64(); bool bh = behind(a);
			R->draw_pixel(a, col);
			long nch = S.diff([&](int x, int y, int v) { VP_CHECK(v == col, "colour", "pixel of colour %08x painted (%d,%d) in %08x", col, x, y, v); });
			VP_CHECK(nch <= 1, "pixel-count", "draw_pixel changed %ld pixels", nch);
			VP_CHECK(!bh || !nch, "behind-drawn", "pixel %s, behind the camera (%s), is drawn; camera at %s ahead %Lg angles %Lg %Lg %Lg", str(a).c_str(), str(cam.local(V(a))).c_str(), str(cam.o).c_str(), cam.ahead, cam.yaw, cam.pitch, cam.roll);
			if (bh) c.count("pixels behind");
			c.count("pixels");
		} else {
			if (g.b()) { bg = (int)g.u64(); R->set_background(bg); S.diff([&](int x, int y, int) { fail("background", fmt("set_background changed pixel (%d,%d)", x, y)); }); }
			R->clear();
			for (size_t i = 0; i < S.n(); i++) VP_CHECK(S.px[i] == bg, "clear", "pixel %zu is %08x after clear, background is %08x", i, S.px[i], bg);
			c.count("clears");
		}
		if (g.b(0.1)) S.guards();
	}
	R.reset();
	S.guards();
	for (size_t i = 0; i < S.n(); i++) c.mix((uint64_t)S.px[i]);
	c.mix((uint64_t)S.W * 10007 + S.H);
	c.nontrivial = S.changed > 0;
	if (S.changed) c.count("cases with changed pixels");
	c.desc("%dx%d, %d calls, %zu lights, %s camera, %ld pixels changed", S.W, S.H, nb, S.lights.size(), S.sane ? "plain" : "hostile", S.changed);
}
} // namespace vp
