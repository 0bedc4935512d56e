// C15: grids, height fields and images become the expected meshes.
#include "vp.h"
#include "MeshUtil.h"
#include "Image.h"
using namespace vp;
namespace vp {
const char* kRule = "case = a grid of points, a height field or an image of any rectangular size (0 and 1 included) and any values (undefined and infinite ones included), turned into a fresh or used mesh / vector; vertices compared bit for bit, triangles cell by cell; non-trivial = at least one cell or pixel";

static void cells(Ctx& c, const Mesh& m, const std::vector<Point3>& want, int nx, int ny) {
	Snap a = snap(m);
	VP_CHECK(a.v.size() == want.size(), "vertices", "%zu vertices for %dx%d", a.v.size(), nx, ny);
	for (size_t k = 0; k < want.size(); k++) VP_CHECK(same_bits(a.v[k], want[k]), "vertex", "vertex %zu of %dx%d is %s instead of %s", k, nx, ny, str(a.v[k]).c_str(), str(want[k]).c_str());
	size_t nc = nx > 1 && ny > 1 ? (size_t)(nx - 1) * (ny - 1) : 0;
	VP_CHECK(a.t.size() == 2 * nc && a.nb_live() == 2 * nc, "triangles", "%zu triangles for %dx%d", a.nb_live(), nx, ny);
	std::multiset<Tri> ts;
	for (auto& t : a.t) ts.insert(canon(t));
	auto tri = [](int x, int y, int z) { return canon(Tri{x, y, z}); };
	for (int j = 0; j + 1 < ny; j++) for (int i = 0; i + 1 < nx; i++) {
		int k = i + nx * j;
		VP_CHECK(take(ts, k, k + 1, k + 1 + nx, k + nx, tri), "cell", "cell (%d,%d) of %dx%d is not covered by two triangles of the common orientation", i, j, nx, ny);
	}
	if (nc) { // border of the rectangle
		auto b = border(a.t);
		VP_CHECK(b.size() == 2 * (size_t)(nx - 1 + ny - 1), "border", "%zu border edges for %dx%d", b.size(), nx, ny);
		c.nontrivial = true; c.count("grids with cells");
	} else c.count("grids without cells");
	if (nx != ny) c.count("non-square grids");
}
static int dim(Gen& g) { return g.b(0.1) ? g.i(0, 1) : g.size(1, 40, 1100); }

void run_case(Ctx& c) {
	Gen& g = c.g;
	int nx = dim(g), ny = dim(g);
	if (nx > 40 && ny > 40) ny = g.i(2, 40);
	if (g.b(0.02)) (g.b() ? nx : ny) = g.b(0.1) ? g.i(2000, 9000) : g.i(41, 400);
	Mesh m;
	bool used = g.b(0.6);
	if (used) dirty(g, m);
	int kind = g.i(0, 2);
	c.mix(kind); c.mix(nx * 1000 + ny);
	if (kind == 0) {
		std::vector<Point3> p; bool nice = g.b();
		double mm = g.mag(); bool wild = g.b(0.4);
		for (int k = 0; k < nx * ny; k++) { p.push_back(nice ? g.spt(mm) : wild ? g.wildpt() : g.anypt()); if (k < 3) c.mixd(p[k]._x); }
		c.desc("grid of points %dx%d%s", nx, ny, used ? ", used mesh" : "");
		auto copy = p;
		MeshUtil::create_from_grid(p, nx, ny, m);
		cells(c, m, copy, nx, ny);
		for (size_t k = 0; k < p.size(); k++) VP_CHECK(same_bits(p[k], copy[k]), "input", "the grid changed");
		c.count("grids of points");
	} else {
		std::vector<double> z;
		bool nice = g.b(), wild = !nice && g.b(0.4);
		if (wild && kind == 1) c.count("height fields with undefined heights");
		if (kind == 1) {
			for (int k = 0; k < nx * ny; k++) { z.push_back(nice ? g.u(-10, 10) : wild ? g.wild() : g.coord()); if (k < 3) c.mixd(z[k]); }
			c.desc("height field %dx%d%s", nx, ny, used ? ", used mesh" : "");
			c.count("height fields");
		} else {
			int np = g.i(1, 4);
			Image im;
			if (g.b()) { im.resize(g.i(0, 9), g.i(0, 9), g.i(1, 4)); for (int k = 0; k < im.size(); k++) im.data()[k] = (unsigned char)g.i(0, 255); }
			im.resize(nx, ny, np);
			std::string b;
			for (int k = 0; k < nx * ny * np; k++) b += (char)g.i(0, 255);
			if (!b.empty()) memcpy(im.data(), b.data(), b.size());
			for (int k = g.i(0, 4); k > 0; k--) z.push_back(g.u(0, 9)); // former content
			if (g.b(0.1)) z.assign(5000, -1.);
			im.to_double(z);
			c.desc("image %dx%dx%d%s", nx, ny, np, used ? ", used mesh" : "");
			VP_CHECK(z.size() == (size_t)nx * ny, "image-size", "%zu values for an image of %dx%d", z.size(), nx, ny);
			for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++)
				VP_CHECK(z[x + (size_t)nx * y] == (unsigned char)b[((size_t)y * nx + x) * np], "image-value", "pixel (%d,%d) of %dx%dx%d becomes %g instead of %d", x, y, nx, ny, np, z[x + (size_t)nx * y], (unsigned char)b[((size_t)y * nx + x) * np]);
			VP_CHECK(im.size() == (int)b.size() && (b.empty() || !memcmp(im.data(), b.data(), b.size())), "image-changed", "converting changed the image");
			if (nx * ny) c.nontrivial = true;
			c.mix(b.size() > 2 ? (unsigned char)b[0] * 256 + (unsigned char)b[1] : 0);
			c.count("images");
		}
		auto copy = z;
		MeshUtil::create_from_z(z, nx, ny, m);
		std::vector<Point3> p;
		for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) p.push_back(Point3(x, y, copy[x + (size_t)nx * y]));
		cells(c, m, p, nx, ny);
		if (nice && nx > 1 && ny > 1) { // upward, projected area of the rectangle
			Snap a = snap(m);
			V va = vector_area(a.v, a.t);
			VP_CHECK(fabsl(va.z - (ld)(nx - 1) * (ny - 1)) <= 1e-9L * nx * ny, "projected-area", "projected area %Lg instead of %d", va.z, (nx - 1) * (ny - 1));
		}
		for (size_t k = 0; k < z.size(); k++) VP_CHECK(same_bits(z[k], copy[k]), "input", "the heights changed");
	}
}
}
