// C24: what the image shows, against a permitted-colours model of every pixel.
#include "render.h"
#include "Mesh.h"
#include "MeshFactory.h"
using namespace vp;
namespace vp {
const char* kRule = "case = scene in front of the camera (triangles, meshes with removed triangles, lines, polylines, pixels, intersecting surfaces, borders, several cameras, lights and clears) drawn in random order; every pixel is compared with the elements that may or must be seen there; non-trivial = at least one pixel certainly covered";

static const ld EPS = 1e-5L;
struct Frag { int e; ld wlo, whi; bool certain; };
struct Elem { Col col; bool line = false; };
struct Model {
	int W, H;
	Cam cam;
	std::vector<Light> lights;
	int bg = 0, shown = 0;             // background to come, background of the last clear
	std::vector<Elem> el;
	std::vector<std::vector<Frag>> px;
	struct LineCheck { int e; ld x1, y1, w1, x2, y2, w2; };
	std::vector<LineCheck> lc;
	void clear() { shown = bg; el.clear(); lc.clear(); px.assign((size_t)W * H, {}); }
};

static ld seg_dist(ld px, ld py, const V& a, const V& b) {
	ld dx = b.x - a.x, dy = b.y - a.y, n = dx * dx + dy * dy;
	ld t = n > 0 ? ((px - a.x) * dx + (py - a.y) * dy) / n : 0;
	t = std::min((ld)1, std::max((ld)0, t));
	return hypotl(px - a.x - t * dx, py - a.y - t * dy);
}

enum Seen { No, Maybe, Yes };
// roundings of the rasteriser: each vertex, the split of the triangle and each span to a pixel, towards zero
// (so by more than a pixel at negative coordinates)
static ld margin(std::initializer_list<V> ps) { for (auto& p : ps) if (p.x < 0 || p.y < 0) return 5.2L; return 2.6L; }

// adds a triangle to the model, tells if it must / may be drawn
static Seen add_triangle(Model& M, const Point3& A, const Point3& B, const Point3& C, int color, bool two) {
	V a = M.cam.screen(A), b = M.cam.screen(B), c = M.cam.screen(C);
	ld cr = (a.x - b.x) * (a.y - c.y) - (a.y - b.y) * (a.x - c.x);
	ld unsure = 3 * (hypotl(a.x - b.x, a.y - b.y) + hypotl(a.x - c.x, a.y - c.y)) + 4;
	if (!two && cr < -unsure) return No;
	bool front = two || cr > unsure;
	ld xmin = std::min({a.x, b.x, c.x}), xmax = std::max({a.x, b.x, c.x}), ymin = std::min({a.y, b.y, c.y}), ymax = std::max({a.y, b.y, c.y});
	if (xmax < -2 || ymax < -2 || xmin > M.W + 2 || ymin > M.H + 2) return No;
	ld wmin = std::min({a.z, b.z, c.z}), wmax = std::max({a.z, b.z, c.z});
	// 1/z is affine on the screen
	ld gx = 0, gy = 0, g = std::numeric_limits<ld>::infinity();
	if (fabsl(cr) > 1e-6L) {
		gx = ((b.z - a.z) * (c.y - a.y) - (c.z - a.z) * (b.y - a.y)) / ((b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y));
		gy = ((c.z - a.z) * (b.x - a.x) - (b.z - a.z) * (c.x - a.x)) / ((b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y));
		g = hypotl(gx, gy);
	}
	bool thin = fabsl(cr) < 20 * (hypotl(a.x - b.x, a.y - b.y) + hypotl(a.x - c.x, a.y - c.y) + hypotl(c.x - b.x, c.y - b.y));
	Elem E; E.col = lit(M.lights, color, A, B, C);
	int id = (int)M.el.size(); M.el.push_back(E);
	Seen s = Maybe;
	const ld MARGIN = margin({a, b, c});
	const ld shift = MARGIN > 3 ? 7 : 4;
	int x0 = (int)std::max((ld)0, floorl(xmin - MARGIN)), x1 = (int)std::min((ld)M.W - 1, ceill(xmax + MARGIN));
	int y0 = (int)std::max((ld)0, floorl(ymin - MARGIN)), y1 = (int)std::min((ld)M.H - 1, ceill(ymax + MARGIN));
	for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) {
		// distances to the borders, inside > 0
		ld sg = cr > 0 ? 1 : -1;
		auto side = [&](const V& p, const V& q) { ld l = hypotl(q.x - p.x, q.y - p.y); return l > 0 ? -sg * ((q.x - p.x) * (y - p.y) - (q.y - p.y) * (x - p.x)) / l * -1 : 0; };
		ld d = std::min({side(a, b), side(b, c), side(c, a)});
		bool certain = front && !thin && d > MARGIN;
		if (!certain && d < 0) {
			ld out = std::min({seg_dist(x, y, a, b), seg_dist(x, y, b, c), seg_dist(x, y, c, a)});
			if (out > MARGIN) continue;
		}
		Frag f; f.e = id; f.certain = certain;
		if (thin || !(g < 1e30L)) { f.wlo = wmin; f.whi = wmax; }
		else {
			ld w = a.z + gx * (x - a.x) + gy * (y - a.y), t = (certain ? shift : shift + 3) * g;
			f.wlo = std::min(wmax, std::max(wmin, w - t)); f.whi = std::max(wmin, std::min(wmax, w + t));
		}
		f.wlo *= 1 - 1e-6L; f.whi *= 1 + 1e-6L;
		if (certain) s = Yes;
		M.px[(size_t)y * M.W + x].push_back(f);
	}
	return s;
}

static void add_line(Model& M, const Point3& P, const Point3& Q, int color, bool must) {
	V a = M.cam.screen(P), b = M.cam.screen(Q);
	Elem E; E.col = Col::exact(color); E.line = true;
	int id = (int)M.el.size(); M.el.push_back(E);
	const ld MARGIN = margin({a, b}) > 3 ? 3.6L : 2.6L;
	ld len = std::max(fabsl(b.x - a.x), fabsl(b.y - a.y));
	ld wmin = std::min(a.z, b.z), wmax = std::max(a.z, b.z);
	int x0 = (int)std::max((ld)0, floorl(std::min(a.x, b.x) - MARGIN)), x1 = (int)std::min((ld)M.W - 1, ceill(std::max(a.x, b.x) + MARGIN));
	int y0 = (int)std::max((ld)0, floorl(std::min(a.y, b.y) - MARGIN)), y1 = (int)std::min((ld)M.H - 1, ceill(std::max(a.y, b.y) + MARGIN));
	for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) {
		if (seg_dist(x, y, a, b) > MARGIN) continue;
		Frag f; f.e = id; f.certain = false;
		ld t = len > 0 ? ((x - a.x) * (b.x - a.x) + (y - a.y) * (b.y - a.y)) / ((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y)) : 0;
		ld w = a.z + t * (b.z - a.z), tol = len > 0 ? 5 / len * (wmax - wmin) : wmax - wmin;
		f.wlo = std::min(wmax, std::max(wmin, w - tol)) * (1 - 1e-6L); f.whi = std::max(wmin, std::min(wmax, w + tol)) * (1 + 1e-6L);
		M.px[(size_t)y * M.W + x].push_back(f);
	}
	if (must) M.lc.push_back({id, a.x, a.y, a.z, b.x, b.y, b.z});
}

static void add_pixel(Model& M, const Point3& P, int color) {
	V a = M.cam.screen(P);
	Elem E; E.col = Col::exact(color);
	int id = (int)M.el.size(); M.el.push_back(E);
	ld fx = a.x + 0.5L, fy = a.y + 0.5L;
	auto cells = [](ld f, int n, std::vector<int>& v) { // pixels this coordinate can give
		ld e = 1e-7L * (1 + fabsl(f));
		for (ld q : {f - e, f + e}) { if (q <= -1 || q >= n) continue; int i = q < 0 ? 0 : (int)q; if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); }
		return v.size() == 1 && f - e >= 0 && f + e < n;
	};
	std::vector<int> xs, ys;
	bool sx = cells(fx, M.W, xs), sy = cells(fy, M.H, ys);
	for (int x : xs) for (int y : ys) M.px[(size_t)y * M.W + x].push_back({id, a.z * (1 - 1e-6L), a.z * (1 + 1e-6L), sx && sy});
}

static void compare(Ctx& c, const Model& M, const int* buf) {
	long sure = 0, fg = 0;
	for (int y = 0; y < M.H; y++) for (int x = 0; x < M.W; x++) {
		auto& fr = M.px[(size_t)y * M.W + x];
		int v = buf[(size_t)y * M.W + x];
		ld best = -1; int who = -1;
		int lines = 0;
		for (auto& f : fr) { if (f.certain && f.wlo > best) { best = f.wlo; who = f.e; } lines += M.el[f.e].line; }
		ld slack = lines ? (lines + 1) * 1.1L * EPS : 0;
		bool ok = false; int n = 0;
		if (who < 0) { n++; ok = v == M.shown; }
		for (auto& f : fr) {
			if (f.e != who && best > f.whi + slack) continue;
			n++;
			ok = ok || M.el[f.e].col.ok(v);
		}
		if (n == 1) sure++;
		if (who >= 0) fg++;
		if (!ok) {
			std::string may = who < 0 ? fmt("background %08x", M.shown) : std::string();
			for (auto& f : fr) if (f.e == who || best <= f.whi + slack) may += fmt(" element %d %s w in [%Lg, %Lg]%s", f.e, M.el[f.e].col.str().c_str(), f.wlo, f.whi, f.certain ? " certain" : "");
			fail(fr.empty() ? "painted-outside" : who < 0 ? "wrong-colour" : "not-nearest", fmt("pixel (%d,%d) of %dx%d is %08x, permitted:%s", x, y, M.W, M.H, v, may.c_str()));
		}
	}
	c.count("pixels checked", (long)M.W * M.H);
	c.count("pixels with one permitted colour", sure);
	c.count("pixels certainly covered", fg);
	if (fg) c.nontrivial = true;
	// lines must be seen where nothing hides them
	for (auto& l : M.lc) {
		ld len = std::max(fabsl(l.x2 - l.x1), fabsl(l.y2 - l.y1));
		if (len < 10) continue;
		int R = l.x1 < 0 || l.y1 < 0 || l.x2 < 0 || l.y2 < 0 ? 3 : 2;
		for (ld s = 4; s < len - 4; s += 1) {
			ld t = s / len, x = l.x1 + t * (l.x2 - l.x1), y = l.y1 + t * (l.y2 - l.y1);
			if (!(x >= R + 1 && y >= R + 1 && x < M.W - R - 2 && y < M.H - R - 2)) continue;
			ld w = l.w1 + t * (l.w2 - l.w1), wlo = w - 5 / len * fabsl(l.w2 - l.w1);
			wlo *= 1 - 1e-6L;
			bool must = true, seen = false;
			// along its main direction a line has a pixel in each column (or row)
			ld adx = fabsl(l.x2 - l.x1), ady = fabsl(l.y2 - l.y1);
			bool colu = adx > ady + 4 && R == 2, rowu = ady > adx + 4 && R == 2;
			if (colu || rowu) c.count("line columns and rows checked");
			int cx = (int)(x + 0.5L), cy = (int)(y + 0.5L);
			for (int j = cy - R; j <= cy + R && must; j++) for (int i = cx - R; i <= cx + R && must; i++) {
				for (auto& f : M.px[(size_t)j * M.W + i]) {
					if (f.e == l.e) continue;
					if (M.el[f.e].line) must = false;
					else if (f.e < l.e ? !(f.whi < wlo + 0.9L * EPS) : !(f.whi < wlo)) must = false;
				}
				if ((!colu || i == cx) && (!rowu || j == cy) && M.el[l.e].col.ok(buf[(size_t)j * M.W + i])) seen = true;
			}
			if (!must) continue;
			c.count("line positions checked");
			VP_CHECK(seen, "line-missing", "line %d from (%Lg,%Lg) to (%Lg,%Lg), colour %s, is not seen around (%Lg,%Lg) of %dx%d", l.e, l.x1, l.y1, l.x2, l.y2, M.el[l.e].col.str().c_str(), x, y, M.W, M.H);
		}
	}
}

static int any_color(Gen& g) { return g.b(0.1) ? 0xffffff : g.b(0.1) ? 0 : g.i(0, 0xffffff); }

static void random_camera(Gen& g, Cam& cam, ld Z) {
	bool plain = g.b(0.15);
	cam.o = plain ? V() : V(g.pt(g.b(0.3) ? 0 : (double)Z * g.u(0, 5)));
	cam.ahead = plain || g.b(0.3) ? 0 : g.u(-2, 2) * Z;
	cam.yaw = plain ? 0 : g.b(0.2) ? 90 * g.i(-4, 4) : g.u(-400, 400);
	cam.pitch = plain ? 0 : g.b(0.2) ? 90 * g.i(-4, 4) : g.u(-400, 400);
	cam.roll = plain ? 0 : g.b(0.2) ? 90 * g.i(-4, 4) : g.u(-400, 400);
	cam.zoom = std::max(cam.W, cam.H) * g.u(0.3, 3) * (g.b(0.08) ? -1 : 1);
	cam.prepare();
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	Model M;
	M.W = g.size(1, 120); M.H = g.size(1, 100);
	if (g.b(0.7)) { M.W = g.i(30, 130); M.H = g.i(30, 110); }
	if (g.b(0.02)) M.W = g.i(300, 700);
	if (g.b(0.02)) M.H = g.i(300, 600);
	if (g.b(0.01)) { M.W = g.i(1000, 6000); M.H = g.i(1, 16); if (g.b(0.3)) std::swap(M.W, M.H); c.count("very wide or high images"); }
	int W = M.W, H = M.H;
	std::vector<int> store((size_t)W * H, 0x5a5a5a);
	struct Place { alignas(Renderer) char mem[sizeof(Renderer)]; Place(int* p, int w, int h) { new (mem) Renderer(p, w, h); } ~Place() { r().~Renderer(); } Renderer& r() { return *(Renderer*)mem; } };
	Place place(store.data(), W, H);
	Renderer& r = place.r();
	M.clear();
	if (g.b(0.3)) compare(c, M, store.data()); // the constructor clears
	ld Z = g.b(0.15) ? g.logu(1e-3, 0.5) : g.logu(0.5, 2000);
	M.cam.W = W; M.cam.H = H;
	random_camera(g, M.cam, Z);
	M.cam.set(r);
	int nl = g.b(0.1) ? 0 : g.b(0.03) ? g.size(5, 40, 400) : g.i(1, 4);
	if (nl > 8) c.count("many lights");
	auto new_light = [&]() {
		Light l; l.diffuse = g.b(0.6); l.color = any_color(g); if (g.b(0.3)) l.color = 0xffffff;
		l.f = g.b(0.3) ? 1 : g.b(0.1) ? -g.u(0, 1) : g.b(0.07) ? g.logu(3, 1e5) : g.u(0, 3);
		Point3 d = g.dir(); if (g.b(0.3)) d = d * g.u(0.1, 4); l.dir = d;
		M.lights.push_back(l);
		if (!l.diffuse && l.f == 1 && g.b()) { r.add_ambient_light(l.color); c.count("default light factors"); } else add_light(r, l);
	};
	for (int k = 0; k < nl; k++) new_light();
	if (g.b(0.6)) { M.bg = g.b(0.2) ? -1 : (int)g.u64(); r.set_background(M.bg); if (g.b(0.8)) { r.clear(); M.clear(); } }

	// a point of the scene, in front of the camera
	auto point = [&](ld zz = 0) {
		ld z = zz > 0 ? zz : Z * g.logu(0.5, 2);
		ld fx, fy;
		double p = g.u01();
		if (p < 0.55) { fx = g.u(-0.1, 1.1); fy = g.u(-0.1, 1.1); }
		else if (p < 0.85) { fx = g.u(-1, 2); fy = g.u(-1, 2); }
		else if (p < 0.95) { fx = g.u(-8, 8); fy = g.u(-8, 8); }
		else if (p < 0.985) { fx = g.i(-1, 2); fy = g.i(-1, 2); }
		else { fx = g.u(-3, 3); fy = g.u(-3, 3); }
		return M.cam.at(fx * W, fy * H, z);
	};
	int n = g.size(1, 14);
	int big = 0;
	struct Last { bool some = false; Point3 A, B, C; int col = 0; bool two = false; } last;
	auto in_front = [&] { for (const Point3& P : {last.A, last.B, last.C}) { ld z = M.cam.local(V(P)).z; if (!(z > Z * 0.05L && z < Z * 50)) return false; } return last.some; };
	auto draw_last = [&] {
		Seen s = add_triangle(M, last.A, last.B, last.C, last.col, last.two);
		bool ret = r.draw_triangle_1color(last.A, last.B, last.C, last.col, last.two);
		VP_CHECK(s != No || !ret, "visible-flag", "a triangle that is out of the screen or seen from behind is reported visible");
		VP_CHECK(s != Yes || ret, "visible-flag", "a visible triangle is reported hidden");
	};
	for (int k = 0; k < n; k++) {
		int what = g.i(0, 19);
		if (g.b(0.03)) { r.clear(); M.clear(); c.count("clears"); }
		if (g.b(0.03)) { M.bg = (int)g.u64(); r.set_background(M.bg); }
		if (g.b(0.04)) { random_camera(g, M.cam, Z); M.cam.set(r); c.count("camera changes"); }
		if (g.b(0.04)) { new_light(); if (g.b() && in_front()) { if (g.b()) { r.clear(); M.clear(); } draw_last(); c.count("same triangle after a change"); continue; } }
		if (what < 10 && g.b(0.07) && in_front()) { if (g.b(0.3)) last.col ^= 1 << g.i(0, 23); draw_last(); c.count("same triangle after a change"); }
		else if (what < 10) {
			Point3 A, B, C;
			double p = g.u01();
			if (p < 0.25) { ld z = Z * g.logu(0.5, 2); A = point(z); B = point(z); C = point(z); c.count("triangles facing the camera"); }
			else { A = point(); B = point(); C = point(); }
			if (p > 0.9) { // covers the whole image
				ld z = Z * g.logu(0.5, 2);
				A = M.cam.at(-W, -H, z * g.u(0.8, 1.2)); B = M.cam.at(-W, 4 * H, z * g.u(0.8, 1.2)); C = M.cam.at(4 * W, -H, z * g.u(0.8, 1.2)); big++;
				c.count("triangles over the whole image");
			}
			if (p > 0.85 && p <= 0.9) C = A + (B - A) * g.u(-1, 2) + g.pt(1e-4 * (double)Z); // thin
			if (g.b(0.04)) { // one corner far out of the screen
				ld fx = g.u(-3, 3) * W, fy = g.u(-3, 3) * H;
				(g.b() ? fx : fy) = g.sgn() * g.logu(1e4, 1e10);
				C = M.cam.at(fx, fy, Z * g.logu(0.5, 2));
				c.count("triangles reaching far out of the screen");
			}
			if (g.b(0.5)) { // turn it to the front
				V a = M.cam.screen(A), b = M.cam.screen(B), d = M.cam.screen(C);
				if ((a.x - b.x) * (a.y - d.y) - (a.y - b.y) * (a.x - d.x) < 0) std::swap(B, C);
			}
			if (g.b(0.3)) { Point3 t = A; A = B; B = C; C = t; }
			bool two = g.b(0.35);
			int col = g.b(0.05) ? (int)g.u64() : any_color(g);
			last = {true, A, B, C, col, two};
			Seen s = add_triangle(M, A, B, C, col, two);
			bool ret = !two && g.b(0.2) ? r.draw_triangle_1color(A, B, C, col) : r.draw_triangle_1color(A, B, C, col, two);
			c.count(s == No ? "triangles not to be drawn" : s == Yes ? "triangles certainly drawn" : "triangles perhaps drawn");
			VP_CHECK(s != No || !ret, "visible-flag", "a triangle that is out of the screen or seen from behind is reported visible");
			VP_CHECK(s != Yes || ret, "visible-flag", "a visible triangle is reported hidden");
		} else if (what < 13) {
			Mesh m;
			bool edges = g.b(0.4);
			if (g.b(0.4)) {
				double p = g.u01();
				if (p < 0.3) MeshFactory::create_box(1, 1, 1, m); else if (p < 0.5) MeshFactory::create_tetrahedron(1, m); else if (p < 0.7) MeshFactory::create_icosahedron(1, m); else if (p < 0.85) MeshFactory::create_torus(1, 0.4, g.i(3, 8), m); else MeshFactory::create_sphere_uv(1, g.i(3, 5), m);
				V ctr(point()); ld zc = M.cam.local(ctr).z; double s = (double)zc * g.u(0.15, 0.6) / 1.5;
				V ax(g.dir()), ay = ax.cross(V(g.dir())); ay = ay / ay.n(); V az = ax.cross(ay);
				for (int i = 0; i < m.nb_vertices(); i++) { Point3 q; m.get_vertex(i, q); m.set_vertex(i, (ctr + (ax * q._x + ay * q._y + az * q._z) * s).p()); }
				c.count("closed meshes drawn");
			} else {
				int nv = g.i(3, 9), nt = g.i(1, 8);
				if (g.b(0.01) && (long)W * H < 6000) { nv = g.i(10, 300); nt = g.size(100, 300, 1100); c.count("larger meshes drawn"); }
				ld z = g.b(0.3) ? Z * g.logu(0.5, 2) : 0;
				for (int i = 0; i < nv; i++) m.add_vertex(point(z));
				for (int i = 0; i < nt; i++) { int a = g.i(0, nv - 1), b = g.i(0, nv - 1), d = g.i(0, nv - 1); if (a != b && b != d && a != d) m.add_triangle(a, b, d); }
			}
			if (g.b(0.7)) m.set_color(g.b(0.1) ? (int)g.u64() : any_color(g));
			for (int i = 0; i < m.nb_triangles(); i++) if (g.b(0.12)) { m.unlink_triangle(i); c.count("removed triangles"); }
			int col = g.b(0.5) ? -1 : g.b(0.1) ? (int)g.u64() : any_color(g);
			if (col < -1) c.count("negative colours");
			int use = col == -1 ? m.get_color() : col;
			if (col == -1 && g.b()) { if (!edges && g.b()) r.draw_mesh(m); else r.draw_mesh(m, edges); } else r.draw_mesh(m, edges, col);
			c.count(col == -1 ? "meshes with their own colour" : "meshes with a given colour");
			for (int i = 0; i < m.nb_triangles(); i++) {
				if (m.is_triangle_unlinked(i)) continue;
				Triangle3 t; m.get_triangle(i, t);
				Seen s = add_triangle(M, t.p1(), t.p2(), t.p3(), use, false);
				c.count(s == No ? "triangles not to be drawn" : s == Yes ? "triangles certainly drawn" : "triangles perhaps drawn");
				if (!edges || s == No) continue;
				add_line(M, t.p1(), t.p2(), 0, s == Yes);
				add_line(M, t.p1(), t.p3(), 0, s == Yes);
				add_line(M, t.p2(), t.p3(), 0, s == Yes);
				c.count("edges drawn", 3);
			}
		} else if (what < 15) {
			Point3 a = point(), b = point(); int col = g.b(0.2) ? (int)g.u64() : any_color(g);
			if (g.b(0.04)) { // one end far out of the screen
				ld fx = g.u(-3, 3) * W, fy = g.u(-3, 3) * H;
				(g.b() ? fx : fy) = g.sgn() * g.logu(1e3, 1e6);
				a = M.cam.at(fx, fy, Z * g.logu(0.5, 2));
				if (g.b()) std::swap(a, b);
				c.count("lines of many steps");
			}
			r.draw_line(a, b, col); add_line(M, a, b, col, true); c.count("lines");
		} else if (what < 17) {
			vector<Point3> pl; int np = g.b(0.03) ? (g.b(0.25) ? g.i(1000, 2000) : g.size(7, 100, 1100)) : g.i(0, 6); if (np > 6) c.count(np > 1000 ? "polylines of more than a thousand points" : "long polylines"); for (int i = 0; i < np; i++) pl.push_back(point());
			if (np > 20 && g.b(0.7)) { // only a few segments are in the screen
				int from = g.b(0.4) ? np - 5 : g.i(0, np - 5);
				for (int i = 0; i < np; i++) if (i < from || i > from + 3) pl[i] = M.cam.at(-W * g.u(1.1, 2), H * g.u(-1, 2), Z * g.logu(0.5, 2));
			}
			int col = any_color(g);
			r.draw_polyline(pl, col);
			for (int i = 1; i < np; i++) add_line(M, pl[i - 1], pl[i], col, true);
			c.count("polylines");
		} else {
			int np = g.i(1, 12), col = g.b(0.2) ? 0 : g.b(0.1) ? -1 : (int)g.u64();
			Point3 a, at; // several pixels at one place, and just before or behind the last triangle
			for (int i = 0; i < np; i++) {
				if (i && g.b(0.3)) { V q = M.cam.screen(at); a = M.cam.at(q.x, q.y, M.cam.local(V(at)).z * (1 + g.sgn() * g.logu(1e-5, 0.1))); col = (int)g.u64(); c.count("pixels at the same place"); }
				else if (g.b(0.15) && in_front()) { double u = g.u01(), v = g.u(0, 1 - u); V q = M.cam.screen(last.A + (last.B - last.A) * u + (last.C - last.A) * v); V l = M.cam.local(V(last.A + (last.B - last.A) * u + (last.C - last.A) * v)); a = M.cam.at(q.x, q.y, l.z * (1 + g.sgn() * g.logu(1e-5, 0.1))); c.count("pixels near a triangle"); }
				else a = point();
				if (!i || g.b()) at = a;
				r.draw_pixel(a, col); add_pixel(M, a, col);
			}
			c.count("pixels", np);
		}
		if (g.b(0.1)) compare(c, M, store.data());
	}
	compare(c, M, store.data());
	if (in_front() && g.b(0.25)) { // another renderer at the same address
		if (g.b(0.7)) { draw_last(); compare(c, M, store.data()); }
		r.~Renderer();
		new (place.mem) Renderer(store.data(), W, H);
		size_t was = M.lights.size();
		M.lights.clear(); M.bg = 0; M.clear();
		if (g.b()) { M.bg = (int)g.u64(); r.set_background(M.bg); r.clear(); M.clear(); }
		if (g.b(0.3)) random_camera(g, M.cam, Z);
		M.cam.set(r);
		for (size_t k = g.b(0.7) ? was : (size_t)g.i(0, 4); k > 0; k--) new_light();
		if (in_front()) { draw_last(); c.count("renderers at the same address"); }
		compare(c, M, store.data());
	}
	c.mix((uint64_t)W * 1000 + H); for (int v : store) c.mix((uint64_t)v);
	c.desc("%dx%d, %d elements, zoom %.3Lg, distance %.3Lg, %zu lights", W, H, n, M.cam.zoom, Z, M.lights.size());
	if (g.b(0.1)) { r.clear(); M.clear(); compare(c, M, store.data()); c.count("clears"); }
}
} // namespace vp
