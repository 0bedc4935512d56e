// C18: OBJ files, against an independent line parser.
#include "vp.h"
#include "OBJFile.h"
#include <memory>
#include <unistd.h>
using namespace vp;
namespace vp {
const char* kRule = "case = a mesh saved to OBJ, parsed and loaded back into a used mesh; a sequence of meshes and polylines written with one writer (closed or destroyed, reopened) and parsed; or a file written by the harness, well formed (comments, unknown records, any spacing) or malformed in one record; non-trivial = at least one vertex";

long fixed_cases() { return 3; } // more than 2^16 vertices
struct Rec { std::vector<double> v; std::vector<std::array<int, 3>> f; std::vector<std::vector<int>> l; };
struct Parsed {
	struct Vtx { std::vector<double> x; };
	std::vector<Vtx> v;
	struct Item { char kind; std::vector<long> i; size_t seenV; };
	std::vector<Item> items;
};
static double num(const std::string& t) {
	char* e; double d = strtod(t.c_str(), &e);
	VP_CHECK(*e == 0 && !t.empty(), "file-syntax", "'%s' is not a number", t.c_str());
	return d;
}
static Parsed parse(const std::string& s) {
	Parsed p;
	VP_CHECK(s.empty() || s.back() == '\n', "file-syntax", "the last line has no end");
	size_t pos = 0;
	while (pos < s.size()) {
		size_t e = s.find('\n', pos);
		std::string line = s.substr(pos, e - pos);
		pos = e + 1;
		std::vector<std::string> w;
		std::string cur;
		for (char ch : line + " ") { if (ch == ' ' || ch == '\t' || ch == '\r') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; }
		if (w.empty() || w[0][0] == '#') continue;
		if (w[0] == "v") {
			VP_CHECK(w.size() == 4 || w.size() == 7, "file-syntax", "vertex line '%s'", line.c_str());
			Parsed::Vtx v;
			for (size_t k = 1; k < w.size(); k++) v.x.push_back(num(w[k]));
			p.v.push_back(v);
		} else if (w[0] == "f" || w[0] == "l") {
			Parsed::Item it; it.kind = w[0][0]; it.seenV = 0;
			for (size_t k = 1; k < w.size(); k++) {
				double d = num(w[k]);
				VP_CHECK(d == std::floor(d) && std::fabs(d) < 1e9, "file-syntax", "index '%s'", w[k].c_str());
				it.i.push_back((long)d);
			}
			if (it.kind == 'f') VP_CHECK(it.i.size() == 3, "file-syntax", "face line '%s'", line.c_str());
			it.seenV = p.v.size();
			p.items.push_back(it);
		} else VP_CHECK(w[0] == "o" || w[0] == "g" || w[0] == "s" || w[0] == "vn" || w[0] == "vt", "file-syntax", "line '%s'", line.c_str());
	}
	return p;
}
static bool near6(double got, double want) { return got == want || std::fabs(got - want) <= 5.0001e-6 * std::fabs(want); }
static bool near6(const double* g, const Point3& w) { return near6(g[0], w._x) && near6(g[1], w._y) && near6(g[2], w._z); }

struct Obj { bool poly; Snap m; std::vector<Point3> p; };

// everything written, in order, is in the file
static void check_file(const std::string& s, const std::vector<Obj>& objs, Ctx& c) {
	Parsed f = parse(s);
	size_t v = 0, it = 0;
	for (size_t o = 0; o < objs.size(); o++) {
		const auto& pts = objs[o].poly ? objs[o].p : objs[o].m.v;
		size_t base = v;
		for (size_t k = 0; k < pts.size(); k++, v++) {
			VP_CHECK(v < f.v.size(), "file-vertices", "object %zu: vertex %zu of %zu is missing", o, k, pts.size());
			VP_CHECK(near6(f.v[v].x.data(), pts[k]), "file-vertex", "object %zu vertex %zu is (%.9g %.9g %.9g) instead of %s", o, k, f.v[v].x[0], f.v[v].x[1], f.v[v].x[2], str(pts[k]).c_str());
			int col = objs[o].poly ? -1 : objs[o].m.color;
			if (col == -1) VP_CHECK(f.v[v].x.size() == 3, "file-color", "object %zu: a colour on an object without colour", o);
			else {
				VP_CHECK(f.v[v].x.size() == 6, "file-color", "object %zu: the colour 0x%06x is not on vertex %zu", o, col, k);
				double w[3] = {(col >> 16) / 255., ((col >> 8) & 255) / 255., (col & 255) / 255.};
				for (int q = 0; q < 3; q++) VP_CHECK(near6(f.v[v].x[3 + q], w[q]), "file-color", "object %zu: colour component %d is %.9g instead of %.9g (0x%06x)", o, q, f.v[v].x[3 + q], w[q], col);
				c.count("coloured vertices");
			}
		}
		auto need = [&](char kind, const std::vector<int>& want) {
			VP_CHECK(it < f.items.size() && f.items[it].kind == kind, "file-elements", "object %zu: an element '%c' is missing", o, kind);
			auto& e = f.items[it++];
			VP_CHECK(e.i.size() == want.size(), "file-elements", "object %zu: %zu indices instead of %zu", o, e.i.size(), want.size());
			for (size_t k = 0; k < want.size(); k++) VP_CHECK(e.i[k] == (long)(base + want[k] + 1), "file-index", "object %zu: index %ld instead of %zu", o, e.i[k], base + want[k] + 1);
			VP_CHECK(e.seenV == v || kind == 'l' || e.seenV > base, "file-order", "object %zu: an element before its vertices", o);
		};
		if (objs[o].poly) {
			std::vector<int> w;
			for (size_t k = 0; k < pts.size(); k++) w.push_back((int)k);
			if (!w.empty() || (it < f.items.size() && f.items[it].kind == 'l' && f.items[it].i.empty())) need('l', w);
			c.count("polylines parsed");
		} else {
			for (auto& t : objs[o].m.live()) need('f', {t[0], t[1], t[2]});
			c.count("meshes parsed");
		}
	}
	VP_CHECK(v == f.v.size(), "file-vertices", "%zu vertices instead of %zu", f.v.size(), v);
	VP_CHECK(it == f.items.size(), "file-elements", "%zu elements instead of %zu", f.items.size(), it);
}

static double coord(Gen& g) {
	switch (g.i(0, 7)) {
	case 0: return g.coord();
	case 1: return g.i(-1000000, 1000000) + 0.5 * g.i(0, 1);
	case 2: { double x[] = {1e15, 123456789., 0.1, 1. / 3, 2.5e-5, 0.00012345678, 99999.95, 999999.5, 1e-7, -0., 1e300, 1e-300, -1}; return x[g.i(0, 12)]; }
	default: return g.u(-1, 1) * g.mag();
	}
}
static void random_mesh(Gen& g, Mesh& m, int max, bool exact = false) {
	int nv = exact ? max : g.size(0, max), nt = exact ? max : nv ? g.size(0, max) : 0;
	for (int k = 0; k < nv; k++) m.add_vertex(Point3(coord(g), coord(g), coord(g)));
	for (int k = 0; k < nv; k++) if (g.b(0.03)) { Point3 p; m.get_vertex(g.i(0, nv - 1), p); m.set_vertex(k, g.b() ? p : Point3(0, 0, 0)); }
	for (int k = 0; k < nt; k++) m.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
	double pr = g.b(0.4) ? 0. : g.b(0.1) ? 1. : g.u01() * 0.6;
	for (int k = 0; k < nt; k++) if (g.b(pr)) m.unlink_triangle(k);
	if (g.b()) m.set_color(g.b(0.2) ? (g.b() ? 0 : 0xffffff) : g.i(0, 0xffffff));
}
static void check_loaded(const Mesh& m, const std::vector<Point3>& v, const std::vector<Tri>& t, const char* what) {
	Snap a = snap(m);
	VP_CHECK(a.v.size() == v.size(), "load-vertices", "%s: %zu vertices instead of %zu", what, a.v.size(), v.size());
	for (size_t k = 0; k < v.size(); k++) { double q[3] = {a.v[k]._x, a.v[k]._y, a.v[k]._z}; VP_CHECK(near6(q, v[k]), "load-vertex", "%s: vertex %zu is %s instead of %s", what, k, str(a.v[k]).c_str(), str(v[k]).c_str()); }
	VP_CHECK(a.t.size() == t.size() && a.nb_live() == t.size(), "load-triangles", "%s: %zu triangles (%zu linked) instead of %zu", what, a.t.size(), a.nb_live(), t.size());
	for (size_t k = 0; k < t.size(); k++) VP_CHECK(a.t[k] == t[k], "load-triangle", "%s: triangle %zu is %d %d %d instead of %d %d %d", what, k, a.t[k][0], a.t[k][1], a.t[k][2], t[k][0], t[k][1], t[k][2]);
}

static void save_case(Ctx& c) {
	Gen& g = c.g;
	Mesh m;
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	random_mesh(g, m, big ? 70000 : c.index % 211 == 3 ? 1500 : 30, big);
	std::string path = c.scratch + "/m.obj";
	if (g.b()) write_file(path, std::string((size_t)g.i(0, 5000), 'f'));
	Snap b = snap(m);
	VP_CHECK(OBJFile::save(path, m), "save-refused", "saving to a writable path reports failure");
	expect_same(snap(m), b, "save-changes-mesh", "saved mesh");
	std::string s;
	VP_CHECK(read_file(path, s), "save-no-file", "no file after a successful save");
	Obj o; o.poly = false; o.m = b;
	check_file(s, {o}, c);
	Mesh l;
	if (g.b(0.7)) dirty(g, l);
	VP_CHECK(OBJFile::load(path, l), "load-refused", "the saved file is refused");
	check_loaded(l, b.v, b.live(), "round trip");
	c.count("round trips");
	if (b.nb_live() < b.t.size()) c.count("meshes with removed triangles");
	c.nontrivial = !b.v.empty();
	c.mix(hash_snap(b));
	c.desc("round trip of %zu vertices, %zu triangles", b.v.size(), b.t.size());
	unlink(path.c_str());
}

static void writer_case(Ctx& c) {
	Gen& g = c.g;
	auto w = std::make_unique<OBJWriter>();
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	int sessions = big ? 1 : g.i(1, 3);
	VP_CHECK(!w->is_open(), "writer-open", "a new writer is open");
	size_t total = 0;
	for (int s = 0; s < sessions; s++) {
		std::string path = c.scratch + fmt("/w%d.obj", g.b(0.3) ? 0 : s);
		if (g.b(0.15)) { // a file that cannot be opened, written to all the same
			w->open(c.scratch + "/no/such.obj");
			VP_CHECK(!w->is_open(), "writer-open", "the writer opens an impossible path");
			Mesh m; random_mesh(g, m, 5);
			if (g.b()) w->write(m);
			if (g.b()) w->write(std::vector<Point3>(3));
			if (g.b()) w->close();
			c.count("failed opens");
		}
		w->open(path);
		VP_CHECK(w->is_open(), "writer-open", "the writer does not open a writable path");
		std::vector<Obj> objs;
		int n = big ? 6 : g.size(0, 8);
		for (int k = 0; k < n; k++) {
			Obj o;
			o.poly = g.b(0.4);
			if (o.poly) {
				int q = big ? 20000 : g.size(0, 12);
				for (int e = 0; e < q; e++) o.p.push_back(Point3(coord(g), coord(g), coord(g)));
				if (q > 1 && g.b(0.3)) { o.p.back() = o.p[0]; c.count("closed polylines"); }
				if (q > 1 && g.b(0.2)) { int e = g.i(1, q - 1); o.p[e] = o.p[e - 1]; }
				if (q > 0 && g.b(0.1)) o.p[g.i(0, q - 1)] = Point3(0, 0, 0);
				auto copy = o.p;
				w->write(copy);
				VP_CHECK(copy.size() == o.p.size() && std::equal(copy.begin(), copy.end(), o.p.begin(), [](const Point3& a, const Point3& b) { return same_bits(a, b); }), "writer-changes", "the polyline changed");
			} else {
				Mesh m;
				random_mesh(g, m, big ? 20000 : 12, big);
				o.m = snap(m);
				w->write(m);
				expect_same(snap(m), o.m, "writer-changes", "written mesh");
			}
			objs.push_back(o);
			total++;
			c.mix(o.poly); if (o.poly) for (auto& p : o.p) c.mixd(p._x); else c.mix(hash_snap(o.m));
		}
		if (s == sessions - 1 && g.b(0.4)) { w.reset(); c.count("writers destroyed while open"); }
		else { VP_CHECK(w->close(), "writer-close", "closing reports failure"); VP_CHECK(!w->is_open(), "writer-open", "open after close"); }
		std::string t;
		VP_CHECK(read_file(path, t), "save-no-file", "no file");
		check_file(t, objs, c);
		if (s) c.count("writers reopened");
		// the whole file is loadable: all vertices, all faces
		std::vector<Point3> v; std::vector<Tri> f;
		for (auto& o : objs) {
			int base = (int)v.size();
			if (!o.poly) for (auto x : o.m.live()) f.push_back(Tri{x[0] + base, x[1] + base, x[2] + base});
			const auto& p = o.poly ? o.p : o.m.v;
			v.insert(v.end(), p.begin(), p.end());
		}
		Mesh l;
		if (g.b()) dirty(g, l);
		VP_CHECK(OBJFile::load(path, l), "load-refused", "a file of several objects is refused");
		check_loaded(l, v, f, "several objects");
	}
	c.count("writer sessions", sessions);
	c.nontrivial = total > 0;
	c.desc("%d writer sessions, %zu objects", sessions, total);
}

static std::string sp(Gen& g) { static const char* s[] = {" ", "  ", "\t", " \t "}; return s[g.b(0.7) ? 0 : g.i(0, 3)]; }
static std::string numtext(Gen& g, double& v) {
	char b[64];
	double x = g.u(-100, 100);
	switch (g.i(0, 6)) {
	case 0: snprintf(b, 64, "%d", g.i(-50, 50)); break;
	case 1: snprintf(b, 64, "%.3f", x); break;
	case 2: snprintf(b, 64, "%.10e", x); break;
	case 3: snprintf(b, 64, "%.17g", x * g.logu(1e-20, 1e20)); break;
	case 4: snprintf(b, 64, ".%d", g.i(0, 99)); break;
	case 5: snprintf(b, 64, "+%d.", g.i(0, 99)); break;
	default: snprintf(b, 64, "%E", x);
	}
	v = strtod(b, nullptr);
	return b;
}
static void load_case(Ctx& c) {
	Gen& g = c.g;
	std::string eol = g.b(0.2) ? "\r\n" : "\n";
	std::vector<Point3> v; std::vector<Tri> f;
	std::vector<std::string> lines;
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	int n = big ? 200000 : g.size(1, 60);
	for (int k = 0; k < n; k++) {
		double p = g.u01();
		std::string lead = g.b(0.1) ? sp(g) : "", trail = g.b(0.1) ? sp(g) : "";
		if (g.b(0.005)) (g.b() ? lead : trail) = std::string((size_t)g.size(1, 300, 5000), ' ');
		if (p < 0.5 || v.empty()) {
			double x[3];
			std::string l = lead + "v";
			for (auto& q : x) l += sp(g) + numtext(g, q);
			if (g.b(0.15)) { int e = g.b() ? 3 : 1; for (int q = 0; q < e; q++) l += sp(g) + "0.5"; }
			lines.push_back(l + trail);
			v.push_back(Point3(x[0], x[1], x[2]));
		} else if (p < 0.8) {
			Tri t;
			std::string l = lead + "f";
			for (int& q : t) { q = g.i(0, (int)v.size() - 1); l += sp(g) + std::to_string(q + 1); }
			lines.push_back(l + trail);
			f.push_back(t);
		} else {
			static const char* junk[] = {"", " ", "\t", "# comment", "#v 1 2 3", "# f 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "o thing", "g a b", "s off", "s 1", "usemtl red", "mtllib f.mtl", "l 1 2", "vp 0.1", "foo", "fx 1 2 3", "vertex", "p 1", "# \xff\x80 bytes", "v# 1"};
			lines.push_back(g.b(0.05) ? "# " + std::string((size_t)g.size(1, 300, 70000), g.b() ? ' ' : 'f') : junk[g.i(0, 21)]);
		}
	}
	std::string path = c.scratch + "/in.obj";
	auto join = [&](const std::vector<std::string>& L) { std::string s; for (size_t k = 0; k < L.size(); k++) { s += L[k]; if (k + 1 < L.size() || g.b(0.8)) s += eol; } return s; };
	write_file(path, join(lines));
	Mesh m;
	if (g.b(0.7)) dirty(g, m);
	VP_CHECK(OBJFile::load(path, m), "load-refused", "a well-formed file is refused:\n%s", join(lines).substr(0, 1500).c_str());
	check_loaded(m, v, f, "well-formed file");
	c.count("files loaded");
	// malformed in one record
	std::string N = std::to_string(v.size() + 1);
	static const char* bad[] = {"v", "v 1", "v 1 2", "v a b c", "v 1 2 x", "v 1 , 2", "f", "f 1", "f 1 1", "f a b c", "f 1 1 x", "f 0 1 1", "f 1 0 1", "f 1 1 0", "f 99999999999 1 1", "f 1 1 99999999999999999999", "f -1000000 1 1", "f 1 2147483647 1", "f 1 1 -2147483648", "f 4294967297 1 1", "f 1 4294967297 1", "f 1 1 4294967297", "f 18446744073709551617 1 1", "f 1 18446744073709551617 1", "f 1 1 18446744073709551617", "f 65537000 1 1", "f 1 -4294967295 1"};
	for (int k = 0; k < 3; k++) {
		int at = g.i(0, (int)lines.size());
		std::string b = g.b(0.75) ? bad[g.i(0, (int)(sizeof bad / sizeof *bad) - 1)] : g.b() ? "f " + N + " " + N + " " + N : g.b() ? "f 1 1 " + N : "f 1 " + N + " 1";
		auto L = lines;
		L.insert(L.begin() + at, b);
		write_file(path, join(L));
		VP_CHECK(!OBJFile::load(path, m), "load-malformed", "a file with the line '%s' is accepted", b.c_str());
		Snap a = snap(m);
		for (auto& t : a.t) for (int i : t) VP_CHECK(i >= 0 && i < (int)a.v.size(), "load-index", "invalid vertex after a malformed file");
		c.count("malformed files");
	}
	unlink(path.c_str());
	VP_CHECK(!OBJFile::load(path, m), "load-missing", "a missing file is accepted");
	VP_CHECK(!OBJFile::load(c.scratch + "/no/such.obj", m), "load-missing", "a missing directory is accepted");
	VP_CHECK(!OBJFile::load(c.scratch, m), "load-missing", "a directory is accepted");
	write_file(path, join(lines));
	VP_CHECK(OBJFile::load(path, m), "load-refused", "the file is refused after failures");
	check_loaded(m, v, f, "after failures");
	unlink(path.c_str());
	c.nontrivial = !v.empty();
	c.mix(v.size()); for (auto& p : v) c.mixd(p._x); for (auto& t : f) c.mix(t[0]);
	c.desc("load of %zu lines", lines.size());
}
void run_case(Ctx& c) { switch (c.index < fixed_cases() ? (int)c.index : c.g.i(0, 2)) { case 0: save_case(c); break; case 1: writer_case(c); break; default: load_case(c); } }
} // namespace vp
