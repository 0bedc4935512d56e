// C17: STL files, against an independent parser and writer of the binary format.
#include "vp.h"
#include "STLFile.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh saved and its file parsed byte by byte, then loaded into a used mesh; or a binary STL file written by the harness (any header, normals, attributes, trailing bytes), loaded whole and cut at several offsets; non-trivial = at least one facet";

long fixed_cases() { return 2; } // more than 2^17 facets
typedef std::array<float, 9> F;
static uint32_t u32(const std::string& s, size_t p) { uint32_t v; memcpy(&v, s.data() + p, 4); return v; }
static float f32(const std::string& s, size_t p) { float v; memcpy(&v, s.data() + p, 4); return v; }
static bool fsame(float a, float b) { return memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b)); }

static void check_loaded(const Mesh& m, const std::vector<F>& want, const char* what) {
	Snap a = snap(m);
	VP_CHECK(a.t.size() == want.size(), "load-count", "%s: %zu triangles instead of %zu", what, a.t.size(), want.size());
	for (size_t k = 0; k < want.size(); k++) {
		VP_CHECK(!a.dead[k], "load-removed", "%s: triangle %zu is removed", what, k);
		for (int e = 0; e < 3; e++) {
			int i = a.t[k][e];
			VP_CHECK(i >= 0 && i < (int)a.v.size(), "load-index", "%s: triangle %zu refers to vertex %d of %zu", what, k, i, a.v.size());
			const Point3& p = a.v[i];
			double w[3] = {want[k][3 * e], want[k][3 * e + 1], want[k][3 * e + 2]}, q[3] = {p._x, p._y, p._z};
			for (int c = 0; c < 3; c++) VP_CHECK(same_bits(q[c], w[c]) || (std::isnan(q[c]) && std::isnan(w[c])), "load-corner", "%s: triangle %zu corner %d is %s instead of (%g,%g,%g)", what, k, e, str(p).c_str(), w[0], w[1], w[2]);
		}
	}
}

static void random_mesh(Gen& g, Mesh& m, int maxT, bool exact = false) {
	m.clear();
	int nv = exact ? maxT / 2 : g.size(0, std::max(3, maxT)), nt = exact ? maxT : nv ? g.size(0, maxT) : 0;
	int kind = g.i(0, 3);
	for (int k = 0; k < nv; k++) {
		Point3 p = kind == 0 ? g.anypt() : g.pt(g.mag());
		if (kind == 1 || kind == 2) for (double* q : {&p._x, &p._y, &p._z}) if (g.b(0.08)) { double x[] = {HUGE_VAL, -HUGE_VAL, NAN, 1e39, -1e300, 1e-46, 3.4028235e38, 3.4028236e38, 16777217., -0., 1e-40, 0.1}; *q = x[g.i(0, 11)]; }
		m.add_vertex(p);
	}
	for (int k = 0; k < nt; k++) m.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
	double pr = exact || g.b(0.3) ? 0. : g.b(0.1) ? 1. : g.u01();
	for (int k = 0; k < nt; k++) if (g.b(pr * 0.6)) m.unlink_triangle(k);
	if (nt && g.b(0.3)) m.unlink_triangle(nt - 1);
	if (nt && g.b(0.3)) m.unlink_triangle(0);
	if (g.b()) m.set_color(g.i(-1, 0xffffff));
}

static void save_case(Ctx& c) {
	Gen& g = c.g;
	Mesh m;
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	random_mesh(g, m, big ? 150000 : c.index % 97 == 5 ? 4000 : 60, big);
	std::string path = c.scratch + "/" + (g.b(0.2) ? "a b-\xc3\xa9.stl" : "m.stl");
	if (g.b()) write_file(path, std::string((size_t)g.i(0, 9000), 'x')); else unlink(path.c_str());
	Snap b = snap(m);
	bool ok = STLFile::save(path, m);
	VP_CHECK(ok, "save-refused", "saving %zu triangles to a writable path reports failure", b.nb_live());
	expect_same(snap(m), b, "save-changes-mesh", "saved mesh");
	std::string s;
	VP_CHECK(read_file(path, s), "save-no-file", "no file after a successful save");
	auto live = b.live();
	VP_CHECK(s.size() == 84 + 50 * live.size(), "save-size", "file of %zu bytes for %zu remaining triangles", s.size(), live.size());
	VP_CHECK(u32(s, 80) == live.size(), "save-count", "facet count %u for %zu remaining triangles", u32(s, 80), live.size());
	std::vector<F> want;
	for (size_t k = 0; k < live.size(); k++) {
		F f;
		for (int e = 0; e < 3; e++) {
			const Point3& p = b.v[live[k][e]];
			f[3 * e] = (float)p._x; f[3 * e + 1] = (float)p._y; f[3 * e + 2] = (float)p._z;
		}
		for (int e = 0; e < 9; e++) { float q = f32(s, 84 + 50 * k + 12 + 4 * e); VP_CHECK(fsame(q, f[e]), "save-corner", "facet %zu value %d is %.9g instead of %.9g", k, e, q, f[e]); }
		want.push_back(f);
		c.count("facets parsed");
	}
	Mesh l;
	Mesh* r = &l;
	if (g.b(0.6)) dirty(g, l);
	if (g.b(0.1)) { r = &m; ok = STLFile::load(path, m); VP_CHECK(ok, "load-refused", "the saved file is refused"); check_loaded(m, want, "loaded over the saved mesh"); c.count("loaded over itself"); }
	else { ok = STLFile::load(path, l); VP_CHECK(ok, "load-refused", "the saved file is refused"); check_loaded(l, want, "round trip"); }
	// writing the loaded mesh again gives the same facets
	if (g.b(0.3)) {
		std::string s2;
		VP_CHECK(STLFile::save(path, *r) && read_file(path, s2) && s2.size() == s.size(), "resave", "second save differs");
		for (size_t k = 0; k < want.size(); k++) for (int e = 0; e < 9; e++) VP_CHECK(fsame(f32(s2, 84 + 50 * k + 12 + 4 * e), want[k][e]), "resave", "second save: facet %zu value %d", k, e);
	}
	c.count("meshes saved");
	if (b.nb_live() < b.t.size()) c.count("meshes with removed triangles");
	c.nontrivial = !live.empty();
	c.mix(hash_snap(b));
	c.desc("save of %zu triangles, %zu removed", b.t.size(), b.t.size() - live.size());
	unlink(path.c_str());
}

static void load_case(Ctx& c) {
	Gen& g = c.g;
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	int n = big ? 140000 : g.size(0, c.index % 53 == 7 ? 2000 : 40);
	std::string s;
	for (int k = 0; k < 80; k++) s += (char)g.i(0, 255);
	if (g.b(0.3)) memcpy(&s[0], "solid facet", 11);
	s.append((char*)&n, 4);
	std::vector<F> want;
	for (int k = 0; k < n; k++) {
		F f;
		int kind = g.i(0, 2);
		for (auto& x : f) { if (kind == 0) { uint32_t r = (uint32_t)g.u64(); memcpy(&x, &r, 4); } else x = (float)g.u(-100, 100); }
		if (g.b(0.1)) { f[3] = f[0]; f[4] = f[1]; f[5] = f[2]; }
		for (int e = 0; e < 3; e++) { float x = (float)g.u(-1, 1); if (kind == 0) { uint32_t r = (uint32_t)g.u64(); memcpy(&x, &r, 4); } else if (g.b(0.1)) { float y[] = {0.f, NAN, HUGE_VALF, -0.f}; x = y[g.i(0, 3)]; } s.append((char*)&x, 4); }
		s.append((char*)f.data(), 36);
		uint16_t at = (uint16_t)g.u64();
		if (g.b()) at = 0;
		s.append((char*)&at, 2);
		want.push_back(f);
	}
	size_t full = s.size();
	if (g.b(0.2)) { s += std::string((size_t)g.i(1, 120), '\0'); c.count("files with trailing bytes"); }
	std::string path = c.scratch + "/in.stl";
	write_file(path, s);
	Mesh m;
	if (g.b(0.6)) dirty(g, m);
	VP_CHECK(STLFile::load(path, m), "load-refused", "a well-formed file of %d facets is refused", n);
	check_loaded(m, want, "well-formed file");
	std::string s2;
	VP_CHECK(read_file(path, s2) && s2 == s, "load-changes-file", "loading changed the file");
	// cut short
	for (int k = 0; k < 4; k++) {
		size_t cut = k == 0 ? full - 1 : k == 1 && n ? 84 + 50 * (size_t)g.i(0, n - 1) : (size_t)g.i(0, (int)full - 1);
		write_file(path, s.substr(0, cut));
		VP_CHECK(!STLFile::load(path, m), "load-truncated", "a file cut at byte %zu of %zu (%d facets) is accepted", cut, full, n);
		c.count("truncated files");
		Snap a = snap(m);
		for (auto& t : a.t) for (int i : t) VP_CHECK(i >= 0 && i < (int)a.v.size(), "load-index", "invalid vertex after a truncated file");
	}
	unlink(path.c_str());
	VP_CHECK(!STLFile::load(path, m), "load-missing", "a missing file is accepted");
	VP_CHECK(!STLFile::load(c.scratch + "/no/such/dir/x.stl", m), "load-missing", "a missing directory is accepted");
	// usable after the failures
	write_file(path, s);
	VP_CHECK(STLFile::load(path, m), "load-refused", "the file is refused after failures");
	check_loaded(m, want, "after failures");
	unlink(path.c_str());
	c.count("files loaded");
	c.nontrivial = n > 0;
	c.mix(n); for (auto& f : want) c.mixd(f[4]);
	c.desc("load of %d facets", n);
}
void run_case(Ctx& c) { if (c.index < fixed_cases() ? c.index == 0 : c.g.b(0.6)) save_case(c); else load_case(c); }
} // namespace vp
