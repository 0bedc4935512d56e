// C21: any byte string given to the loaders.
#include "vp.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include "MeshMeasurements.h"
#include <time.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
using namespace vp;
namespace vp {
const char* kRule = "case = a file of random bytes or tokens, or a valid file mutated (1 to 30 byte, integer, block, truncation, splice mutations, hostile header fields), loaded as STL, OBJ or BMP into a fresh or used object, with memory and processor time metered, then used and given a good file; non-trivial = at least one byte";

// ------------------------------------------------------------ metering of the allocator
static bool g_meter = false;
static long g_live = 0, g_peak = 0;
static void on_malloc(const volatile void*, size_t n) { if (g_meter) { g_live += (long)n; if (g_live > g_peak) g_peak = g_live; } }
static void on_free(const volatile void* p) { if (g_meter && p) g_live -= (long)__sanitizer_get_allocated_size((const void*)p); }
static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class F> static bool metered(size_t bytes, const char* what, Ctx& c, F f) {
	static bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
	VP_CHECK(hooked, "harness", "no allocator hooks");
	g_live = g_peak = 0; g_meter = true;
	double t0 = cpu();
	bool r = f();
	double t = cpu() - t0;
	g_meter = false;
	VP_CHECK(g_peak <= 128L * (long)bytes + (1L << 20), "memory", "%s: %ld bytes of memory for a file of %zu bytes", what, g_peak, bytes);
	VP_CHECK(t <= 10. + 2e-4 * (double)bytes, "time", "%s: %.1f s for a file of %zu bytes", what, t, bytes);
	c.count("loads metered");
	return r;
}

// ------------------------------------------------------------ valid files
static std::string stl(Gen& g) {
	int n = g.size(0, 40);
	std::string s(80, g.b() ? '\0' : (char)g.i(0, 255));
	s.append((char*)&n, 4);
	for (int k = 0; k < n; k++) { for (int e = 0; e < 12; e++) { float f = (float)g.u(-10, 10); s.append((char*)&f, 4); } s.append(2, '\0'); }
	return s;
}
static std::string obj(Gen& g) {
	int nv = g.size(1, 40), nt = g.size(0, 40);
	std::string s;
	for (int k = 0; k < nv; k++) s += fmt("v %g %g %g\n", g.u(-9, 9), g.u(-9, 9), g.u(-9, 9));
	for (int k = 0; k < nt; k++) s += fmt("f %d %d %d\n", g.i(1, nv), g.i(1, nv), g.i(1, nv));
	return s;
}
static std::string bmp(Gen& g) {
	int w = g.size(1, 40), h = g.size(1, 30), b = g.b(0.33) ? 1 : g.b() ? 3 : 4;
	int stride = (w * b + 3) / 4 * 4, off = 54 + (b == 1 ? 1024 : 0);
	std::string s(off, '\0');
	auto p32 = [&](int p, int v) { memcpy(&s[p], &v, 4); };
	s[0] = 'B'; s[1] = 'M';
	p32(2, off + stride * h); p32(10, off); p32(14, 40); p32(18, w); p32(22, h); p32(26, 1 | (b * 8) << 16);
	for (int k = 0; k < stride * h; k++) s += (char)g.i(0, 255);
	return s;
}

static uint32_t hostile32(Gen& g) {
	static const uint32_t v[] = {0, 1, 2, 3, 4, 7, 8, 16, 53, 54, 55, 255, 256, 1024, 1078, 32767, 32768, 46340, 46341, 65535, 65536, 65537, 0x7fffffff, 0x7ffffffe, 0x7ffffffc, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0x40000000, 0x20000000, 0x2aaaaaab, 0x55555556, 0x10000000, 42949673, 85899346};
	if (g.b(0.7)) return v[g.i(0, 35)];
	return (uint32_t)g.u64() >> g.i(0, 31);
}
static std::string token(Gen& g) {
	static const char* t[] = {"v", "f", "v ", "f ", "v 1 2 3\n", "f 1 2 3\n", "f 1 1 1\n", " ", "\n", "\r\n", "\t", "0", "-1", "1", "2", "3", "4", "99999999999999999999", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967297", "1e308", "1e999", "-1e-999", "nan", "inf", "-inf", "NaN", "0x10", "1.5", ".", "-", "+", "e5", "1e", "1e+", "#", "\\", "\\\n", "/", "1/2/3", "1//2", "vn", "vt", "o", "l", "\xef\xbb\xbf", "\xff", "f 1 2 3 4\n", "v 1\n", "f\n", "v\n"};
	if (g.b(0.05)) return std::string(1, '\0');
	if (g.b(0.02)) return std::string((size_t)g.i(1, 5000), (char)g.i(32, 126));
	if (g.b(0.02)) return std::string((size_t)g.i(1, 3000), '9');
	return t[g.i(0, (int)(sizeof t / sizeof *t) - 1)];
}
static void mutate(Gen& g, std::string& s, bool text) {
	int n = g.size(1, 30);
	for (int k = 0; k < n; k++) {
		size_t z = s.size(), at = z ? g.u64() % z : 0;
		switch (g.i(0, 10)) {
		case 0: if (z) s[at] = (char)g.i(0, 255); break;
		case 1: if (z) s[at] ^= (char)(1 << g.i(0, 7)); break;
		case 2: if (z >= 4) { uint32_t v = hostile32(g); at = g.u64() % (z - 3); memcpy(&s[at], &v, 4); } break;
		case 3: if (z >= 2) { uint16_t v = (uint16_t)hostile32(g); at = g.u64() % (z - 1); memcpy(&s[at], &v, 2); } break;
		case 4: s.insert(at, token(g)); break;
		case 5: s.resize(g.b() ? at : z - std::min<size_t>(z, (size_t)g.i(1, 60))); break;
		case 6: if (z) s.erase(at, 1 + g.u64() % 60); break;
		case 7: if (z && z < 60000) s.insert(at, s.substr(g.u64() % z, g.u64() % 200)); break;
		case 8: { std::string o = g.b(0.3) ? stl(g) : g.b() ? obj(g) : bmp(g); if (z < 60000) s = s.substr(0, at) + o.substr(g.u64() % o.size()); break; }
		case 9: s.append((size_t)g.i(1, 100), (char)g.i(0, 255)); break;
		default: if (text) { for (int q = g.i(1, 6); q > 0; q--) { size_t a = s.empty() ? 0 : g.u64() % s.size(); s.insert(a, token(g)); } } else if (z) s[at] = 0;
		}
	}
}
static void set32(std::string& s, size_t p, uint32_t v) { if (s.size() >= p + 4) memcpy(&s[p], &v, 4); }
static void set16(std::string& s, size_t p, uint16_t v) { if (s.size() >= p + 2) memcpy(&s[p], &v, 2); }

static void use_mesh(Mesh& m, Ctx& c) {
	Snap a = snap(m);
	VP_CHECK(m.nb_vertices() >= 0 && m.nb_triangles() >= 0, "mesh-counts", "%d vertices, %d triangles", m.nb_vertices(), m.nb_triangles());
	for (size_t k = 0; k < a.t.size(); k++) for (int i : a.t[k]) VP_CHECK(i >= 0 && i < (int)a.v.size(), "mesh-index", "triangle %zu refers to vertex %d of %zu", k, i, a.v.size());
	volatile double d = MeshMeasurements::surface(m) + MeshMeasurements::volume(m);
	(void)d;
	int v = m.add_vertex(1, 2, 3);
	VP_CHECK(v == (int)a.v.size(), "mesh-usable", "new vertex %d after %zu", v, a.v.size());
	VP_CHECK(m.add_triangle(v, v, v) == (int)a.t.size(), "mesh-usable", "new triangle");
	c.count("triangles checked", (long)a.t.size());
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	int kind = g.i(0, 2);
	static const char* names[] = {"STL", "OBJ", "BMP"};
	std::string s;
	int how = g.i(0, 9);
	if (how == 0) { int n = g.b(0.1) ? g.i(0, 20000) : g.size(0, 300); for (int k = 0; k < n; k++) s += (char)g.i(0, 255); }
	else if (how == 1) { int n = g.size(0, 200); for (int k = 0; k < n; k++) s += token(g); }
	else {
		s = kind == 0 ? stl(g) : kind == 1 ? obj(g) : bmp(g);
		if (g.b(0.05)) s = g.b(0.3) ? stl(g) : g.b() ? obj(g) : bmp(g); // another kind of file
		if (kind == 0 && g.b(0.5)) set32(s, 80, g.b(0.4) ? (uint32_t)((s.size() - 84) / 50 + g.i(-2, 2)) : hostile32(g));
		if (kind == 2 && g.b(0.7)) {
			for (int k = g.i(1, 3); k > 0; k--) switch (g.i(0, 6)) {
			case 0: set32(s, 18, hostile32(g)); break;
			case 1: set32(s, 22, hostile32(g)); break;
			case 2: set32(s, 10, hostile32(g)); break;
			case 3: set16(s, 28, (uint16_t)(g.b() ? 8 * g.i(0, 5) : hostile32(g))); break;
			case 4: set32(s, 30, g.b() ? 0 : hostile32(g)); break;
			case 5: { uint32_t w = hostile32(g); set32(s, 18, w); set32(s, 22, w ? 0xffffffffu / w + (uint32_t)g.i(-1, 1) : 1); break; } // products around 2^32
			default: { uint32_t w = 1 + (uint32_t)g.u64() % 70000; int b = g.b() ? 1 : g.b() ? 3 : 4; set16(s, 28, (uint16_t)(8 * b)); set32(s, 18, w); set32(s, 22, (uint32_t)(((g.b() ? 1ull << 31 : 1ull << 32) / w / b) + g.i(-1, 2))); }
			}
		}
		if (how > 3 || kind == 1) mutate(g, s, kind == 1);
	}
	if (kind == 1 && c.index % 401 == 17) { std::string one = g.b() ? "v 0 0 0\n" : "v 0 0 0\nf 1 1 1\n"; s.clear(); while (s.size() < 500000) s += one; c.count("large files"); }
	if (kind == 2 && c.index % 401 == 19) { s = bmp(g); s.append(400000, 'p'); set32(s, 18, 1u + (uint32_t)g.i(0, 400000)); set32(s, 22, 1); c.count("large files"); }
	std::string path = c.scratch + "/x";
	write_file(path, s);
	c.mix(kind); c.mix(s.size()); for (size_t k = 0; k < s.size(); k += 1 + s.size() / 200) c.mix((unsigned char)s[k]);
	c.nontrivial = !s.empty();
	c.desc("%zu bytes as %s (kind %d)", s.size(), names[kind], how);
	bool ok;
	int fd0 = lowest_fd();
	if (kind == 2) {
		Image im;
		if (g.b()) { im.resize(g.i(0, 9), g.i(0, 9), g.i(0, 4)); }
		ok = metered(s.size(), "BMP", c, [&] { return ImageIoBmp::read(path, &im); });
		VP_CHECK(im.width() >= 0 && im.height() >= 0 && im.planes() >= 0 && (long)im.size() == (long)im.width() * im.height() * im.planes(), "image-size", "image of %dx%dx%d, size %d", im.width(), im.height(), im.planes(), im.size());
		unsigned sum = 0;
		for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) for (int k = 0; k < im.planes(); k++) { unsigned char* q = im.pixel(x, y, k); sum += *q; *q = (unsigned char)sum; }
		c.count("pixels touched", im.size());
		if (ok) {
			int32_t w, h; uint16_t b; memcpy(&w, &s[18], 4); memcpy(&h, &s[22], 4); memcpy(&b, &s[28], 2);
			VP_CHECK(im.width() == w && im.height() == h && im.planes() * 8 == b, "image-announced", "image of %dx%dx%d for a header of %dx%d, %d bits", im.width(), im.height(), im.planes(), w, h, b);
			VP_CHECK((size_t)im.size() <= s.size(), "image-invented", "%d pixel bytes from a file of %zu bytes", im.size(), s.size());
		}
		std::string good = bmp(g);
		write_file(path, good);
		VP_CHECK(ImageIoBmp::read(path, &im), "unusable", "a good file is refused afterwards");
		uint32_t w; memcpy(&w, &good[18], 4);
		VP_CHECK(im.width() == (int)w, "unusable", "a good file is not loaded afterwards");
	} else {
		Mesh m;
		if (g.b()) dirty(g, m);
		ok = metered(s.size() + 64 * (size_t)(m.nb_vertices() + m.nb_triangles()), names[kind], c, [&] { return kind == 0 ? STLFile::load(path, m) : OBJFile::load(path, m); });
		if (kind == 0) {
			int32_t n = -1;
			if (s.size() >= 84) memcpy(&n, &s[80], 4);
			bool good = n >= 0 && 84 + 50ull * (uint32_t)n <= s.size();
			VP_CHECK(ok == good, "stl-verdict", "%zu bytes announcing %d facets: %s", s.size(), n, ok ? "accepted" : "refused");
			if (ok) VP_CHECK(m.nb_triangles() == n, "stl-verdict", "%d triangles of %d", m.nb_triangles(), n);
		}
		use_mesh(m, c);
		std::string good = kind == 0 ? stl(g) : obj(g);
		write_file(path, good);
		VP_CHECK(kind == 0 ? STLFile::load(path, m) : OBJFile::load(path, m), "unusable", "a good file is refused afterwards");
		size_t want = 0;
		if (kind == 0) { int32_t n; memcpy(&n, &good[80], 4); want = (size_t)n; } else for (size_t p = 0; (p = good.find('f', p)) != std::string::npos; p++) want++;
		VP_CHECK((size_t)m.nb_triangles() == want, "unusable", "%d triangles instead of %zu from a good file afterwards", m.nb_triangles(), want);
	}
	c.count(fmt("%s %s", names[kind], ok ? "accepted" : "refused").c_str());
	no_descriptor_left(fd0, names[kind], [&] { write_file(path, s); Mesh m; Image im; if (kind == 0) STLFile::load(path, m); else if (kind == 1) OBJFile::load(path, m); else ImageIoBmp::read(path, &im); });
	unlink(path.c_str());
}
} // namespace vp
