// C19: STEP files, against an independent ISO 10303-21 parser and a surface reader.
#include "spline.h"
#include "StepFile.h"
#include "NurbsFactory.h"
#include <memory>
#include <unistd.h>
using namespace vp;
namespace vp {
const char* kRule = "case = 1 to 3 sessions of one STEP writer (closed or destroyed, reopened, opened on an unwritable path between), each with 0 to 6 surfaces and solids; the file is parsed as ISO 10303-21 and every surface rebuilt and compared; non-trivial = at least one surface written";

// ------------------------------------------------------------ Part 21 parser
struct Val { enum { INT, REAL, STR, ENUM, REF, LIST, NUL, TYPED } k = NUL; double d = 0; long i = 0; std::string s; std::vector<Val> l; };
struct Part { std::string name; std::vector<Val> a; };
typedef std::vector<Part> Inst; // one part when simple, several when complex
struct P21 {
	const std::string& s; size_t p = 0;
	std::map<long, Inst> inst;
	std::vector<long> order;
	P21(const std::string& t) : s(t) {}
	[[noreturn]] void bad(const char* why) { fail("syntax", fmt("%s near '%s' (offset %zu)", why, s.substr(p, 40).c_str(), p)); }
	void ws() {
		for (;;) {
			while (p < s.size() && isspace((unsigned char)s[p])) p++;
			if (s.compare(p, 2, "/*") == 0) { size_t e = s.find("*/", p); if (e == std::string::npos) bad("open comment"); p = e + 2; continue; }
			return;
		}
	}
	bool is(char c) { ws(); return p < s.size() && s[p] == c; }
	void eat(char c) { if (!is(c)) bad(fmt("'%c' expected", c).c_str()); p++; }
	std::string word() {
		ws();
		size_t q = p;
		while (p < s.size() && (isupper((unsigned char)s[p]) || isdigit((unsigned char)s[p]) || s[p] == '_' || (s[p] == '-' && p > q))) p++;
		if (p == q || !isupper((unsigned char)s[q])) bad("keyword expected");
		return s.substr(q, p - q);
	}
	void token(const char* t) { ws(); size_t n = strlen(t); if (s.compare(p, n, t) != 0) bad(fmt("%s expected", t).c_str()); p += n; }
	Val val() {
		ws();
		Val v;
		if (p >= s.size()) bad("value expected");
		char ch = s[p];
		if (ch == '$' || ch == '*') { p++; return v; }
		if (ch == '\'') {
			v.k = Val::STR; p++;
			for (;;) { if (p >= s.size()) bad("open string"); if (s[p] == '\'') { if (p + 1 < s.size() && s[p + 1] == '\'') { p += 2; v.s += '\''; continue; } p++; break; } v.s += s[p++]; }
			return v;
		}
		if (ch == '.') { size_t e = s.find('.', p + 1); if (e == std::string::npos || e == p + 1) bad("enumeration"); v.k = Val::ENUM; v.s = s.substr(p + 1, e - p - 1); for (char q : v.s) if (!isupper((unsigned char)q) && q != '_' && !isdigit((unsigned char)q)) bad("enumeration"); p = e + 1; return v; }
		if (ch == '#') { p++; size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (q == p) bad("reference"); v.k = Val::REF; v.i = atol(s.substr(q, p - q).c_str()); return v; }
		if (ch == '(') { v.k = Val::LIST; v.l = list(); return v; }
		if (ch == '+' || ch == '-' || isdigit((unsigned char)ch)) {
			size_t q = p;
			if (ch == '+' || ch == '-') p++;
			size_t d = p;
			while (p < s.size() && isdigit((unsigned char)s[p])) p++;
			if (p == d) bad("digits expected");
			v.k = Val::INT;
			if (p < s.size() && s[p] == '.') {
				v.k = Val::REAL; p++;
				while (p < s.size() && isdigit((unsigned char)s[p])) p++;
				if (p < s.size() && s[p] == 'E') { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; size_t e = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == e) bad("exponent"); }
			}
			if (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '.')) bad("number");
			std::string t = s.substr(q, p - q);
			v.d = strtod(t.c_str(), nullptr); v.i = atol(t.c_str());
			return v;
		}
		v.k = Val::TYPED; v.s = word(); v.l = list();
		return v;
	}
	std::vector<Val> list() {
		eat('(');
		std::vector<Val> r;
		if (is(')')) { p++; return r; }
		for (;;) { r.push_back(val()); if (is(',')) { p++; continue; } eat(')'); return r; }
	}
	void parse() {
		token("ISO-10303-21"); eat(';');
		token("HEADER"); eat(';');
		bool schema = false;
		while (true) {
			ws();
			if (s.compare(p, 6, "ENDSEC") == 0) break;
			std::string w = word();
			auto a = list(); eat(';');
			if (w == "FILE_SCHEMA") { schema = true; VP_CHECK(a.size() == 1 && a[0].k == Val::LIST && a[0].l.size() >= 1 && a[0].l[0].k == Val::STR, "header", "FILE_SCHEMA without schema"); }
		}
		VP_CHECK(schema, "header", "no FILE_SCHEMA in the header");
		token("ENDSEC"); eat(';');
		token("DATA"); eat(';');
		for (;;) {
			ws();
			if (s.compare(p, 6, "ENDSEC") == 0) break;
			if (!is('#')) bad("instance expected");
			p++;
			size_t q = p;
			while (p < s.size() && isdigit((unsigned char)s[p])) p++;
			long id = atol(s.substr(q, p - q).c_str());
			VP_CHECK(p > q && id > 0, "syntax", "instance number %ld", id);
			VP_CHECK(!inst.count(id), "duplicate-instance", "#%ld is defined twice", id);
			eat('=');
			Inst in;
			if (is('(')) { p++; while (!is(')')) { Part t; t.name = word(); t.a = list(); in.push_back(t); } p++; VP_CHECK(!in.empty(), "syntax", "empty complex instance #%ld", id); }
			else { Part t; t.name = word(); t.a = list(); in.push_back(t); }
			eat(';');
			inst[id] = in;
			order.push_back(id);
		}
		token("ENDSEC"); eat(';');
		token("END-ISO-10303-21"); eat(';');
		ws();
		VP_CHECK(p == s.size(), "syntax", "bytes after the end marker: '%s'", s.substr(p, 40).c_str());
	}
};
static const Part* part(const Inst& i, const char* n) { for (auto& p : i) if (p.name == n) return &p; return nullptr; }

static bool near6(double got, double want) { return got == want || std::fabs(got - want) <= 5.0001e-6 * std::fabs(want); }

struct Reader {
	P21& f;
	Reader(P21& x) : f(x) {}
	const Inst& at(long id) { auto it = f.inst.find(id); VP_CHECK(it != f.inst.end(), "dangling-reference", "#%ld is not defined", id); return it->second; }
	const Inst& kind(const Val& v, const char* n, const char* from) {
		VP_CHECK(v.k == Val::REF, "reference-kind", "%s: a reference is expected", from);
		const Inst& i = at(v.i);
		VP_CHECK(part(i, n), "reference-kind", "%s refers to #%ld which is not a %s", from, v.i, n);
		return i;
	}
	void refs(const Val& v, std::set<long>& out) { if (v.k == Val::REF) { at(v.i); out.insert(v.i); } for (auto& x : v.l) refs(x, out); }
	static const std::vector<Val>& L(const Val& v, const char* what) { VP_CHECK(v.k == Val::LIST, "surface-syntax", "%s is not a list", what); return v.l; }
	std::vector<double> knots(const Val& mult, const Val& val, int degree, int n, const char* dir) {
		auto &m = L(mult, "multiplicities"), &k = L(val, "knots");
		VP_CHECK(m.size() == k.size() && m.size() >= 2, "surface-knots", "%zu multiplicities for %zu knots in %s", m.size(), k.size(), dir);
		std::vector<double> r;
		for (size_t i = 0; i < m.size(); i++) {
			VP_CHECK(m[i].k == Val::INT && m[i].i >= 1 && m[i].i <= degree + 1, "surface-knots", "multiplicity %ld in %s for degree %d", m[i].i, dir, degree);
			VP_CHECK(k[i].k == Val::REAL, "surface-knots", "a knot of %s is not a real", dir);
			VP_CHECK(i == 0 || k[i].d >= k[i - 1].d, "surface-knots", "knots of %s decrease", dir);
			for (int e = 0; e < m[i].i; e++) r.push_back(k[i].d);
		}
		VP_CHECK((int)r.size() == degree + 1 + n, "surface-knots", "%zu knots in %s for degree %d and %d points", r.size(), dir, degree, n);
		return r;
	}
	bool logical(const Val& v) { VP_CHECK(v.k == Val::ENUM && (v.s == "T" || v.s == "F" || v.s == "U"), "surface-syntax", "logical value expected"); return v.s == "T"; }
	void strict(const std::vector<double>& src, const Val& val, const char* dir) { // no repeated value in the list of knots
		std::set<double> d(src.begin(), src.end());
		VP_CHECK(L(val, "knots").size() == d.size(), "surface-multiplicity", "%zu knot values in %s instead of %zu distinct ones", val.l.size(), dir, d.size());
	}
	void compare(long id, const SurfDef& w, size_t n, std::set<long>& points) {
		const Inst& i = at(id);
		static const char* need[] = {"BOUNDED_SURFACE", "B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "GEOMETRIC_REPRESENTATION_ITEM", "RATIONAL_B_SPLINE_SURFACE", "REPRESENTATION_ITEM", "SURFACE"};
		for (auto x : need) VP_CHECK(part(i, x), "surface-entity", "surface %zu has no %s", n, x);
		auto& b = part(i, "B_SPLINE_SURFACE")->a;
		VP_CHECK(b.size() == 7 && b[0].k == Val::INT && b[1].k == Val::INT, "surface-syntax", "B_SPLINE_SURFACE with %zu attributes", b.size());
		VP_CHECK(b[0].i == w.du && b[1].i == w.dv, "surface-degree", "surface %zu: degrees %ld,%ld instead of %d,%d", n, b[0].i, b[1].i, w.du, w.dv);
		auto& net = L(b[2], "control net");
		VP_CHECK((int)net.size() == w.nu, "surface-net", "surface %zu: %zu lists of points instead of %d (one for each u)", n, net.size(), w.nu);
		for (int u = 0; u < w.nu; u++) {
			auto& row = L(net[u], "control points");
			VP_CHECK((int)row.size() == w.nv, "surface-net", "surface %zu: a list of %zu points instead of %d", n, row.size(), w.nv);
			for (int v = 0; v < w.nv; v++) {
				auto& p = kind(row[v], "CARTESIAN_POINT", "the control net");
				VP_CHECK(points.insert(row[v].i).second, "surface-points", "surface %zu: point #%ld is used twice", n, row[v].i);
				auto& a = part(p, "CARTESIAN_POINT")->a;
				VP_CHECK(a.size() == 2 && a[1].k == Val::LIST && a[1].l.size() == 3, "surface-syntax", "CARTESIAN_POINT");
				const Point3& q = w.p[u + (size_t)w.nu * v];
				double x[3] = {q._x, q._y, q._z};
				for (int c = 0; c < 3; c++) {
					VP_CHECK(a[1].l[c].k == Val::REAL, "surface-syntax", "a coordinate is not a real");
					VP_CHECK(near6(a[1].l[c].d, x[c]), "surface-point", "surface %zu: control point (%d,%d) coordinate %d is %.9g instead of %.9g", n, u, v, c, a[1].l[c].d, x[c]);
				}
			}
		}
		VP_CHECK(logical(b[4]) == w.cu && logical(b[5]) == w.cv, "surface-closed", "surface %zu: closed flags .%s.,.%s. instead of %d,%d", n, b[4].s.c_str(), b[5].s.c_str(), w.cu, w.cv);
		logical(b[6]);
		auto& k = part(i, "B_SPLINE_SURFACE_WITH_KNOTS")->a;
		VP_CHECK(k.size() == 5, "surface-syntax", "B_SPLINE_SURFACE_WITH_KNOTS with %zu attributes", k.size());
		auto ku = knots(k[0], k[2], w.du, w.nu, "u"), kv = knots(k[1], k[3], w.dv, w.nv, "v");
		strict(w.ku, k[2], "u"); strict(w.kv, k[3], "v");
		for (size_t e = 0; e < ku.size(); e++) VP_CHECK(near6(ku[e], w.ku[e]), "surface-knot", "surface %zu: u knot %zu is %.9g instead of %.9g", n, e, ku[e], w.ku[e]);
		for (size_t e = 0; e < kv.size(); e++) VP_CHECK(near6(kv[e], w.kv[e]), "surface-knot", "surface %zu: v knot %zu is %.9g instead of %.9g", n, e, kv[e], w.kv[e]);
		auto& r = part(i, "RATIONAL_B_SPLINE_SURFACE")->a;
		VP_CHECK(r.size() == 1 && (int)L(r[0], "weights").size() == w.nu, "surface-weights", "surface %zu: lists of weights", n);
		for (int u = 0; u < w.nu; u++) {
			auto& row = L(r[0].l[u], "weights");
			VP_CHECK((int)row.size() == w.nv, "surface-weights", "surface %zu: a list of %zu weights instead of %d", n, row.size(), w.nv);
			for (int v = 0; v < w.nv; v++) {
				VP_CHECK(row[v].k == Val::REAL, "surface-syntax", "a weight is not a real");
				VP_CHECK(near6(row[v].d, w.w[u + (size_t)w.nu * v]), "surface-weight", "surface %zu: weight (%d,%d) is %.9g instead of %.9g", n, u, v, row[v].d, w.w[u + (size_t)w.nu * v]);
			}
		}
	}
	void check(const std::vector<SurfDef>& want, Ctx& c) {
		// every reference resolves
		for (auto& e : f.inst) for (auto& p : e.second) for (auto& v : p.a) { std::set<long> r; refs(v, r); }
		c.count("instances parsed", (long)f.inst.size());
		// the root
		std::vector<long> roots;
		for (long id : f.order) if (part(f.inst[id], "SHAPE_DEFINITION_REPRESENTATION")) roots.push_back(id);
		VP_CHECK(roots.size() == 1, "root", "%zu SHAPE_DEFINITION_REPRESENTATION", roots.size());
		auto& sdr = part(at(roots[0]), "SHAPE_DEFINITION_REPRESENTATION")->a;
		VP_CHECK(sdr.size() == 2, "root", "SHAPE_DEFINITION_REPRESENTATION with %zu attributes", sdr.size());
		auto& pds = part(kind(sdr[0], "PRODUCT_DEFINITION_SHAPE", "the root"), "PRODUCT_DEFINITION_SHAPE")->a;
		VP_CHECK(pds.size() == 3, "root", "PRODUCT_DEFINITION_SHAPE");
		auto& pd = part(kind(pds[2], "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE"), "PRODUCT_DEFINITION")->a;
		VP_CHECK(pd.size() == 4, "root", "PRODUCT_DEFINITION");
		kind(pd[3], "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION");
		kind(sdr[1], "SHAPE_REPRESENTATION", "the root");
		long shape = sdr[1].i;
		// surfaces and faces
		std::vector<long> surfs;
		std::map<long, int> faceOf, reached;
		std::map<long, long> faceSurf;
		for (long id : f.order) {
			if (part(f.inst[id], "B_SPLINE_SURFACE")) surfs.push_back(id);
			if (auto* p = part(f.inst[id], "ADVANCED_FACE")) {
				VP_CHECK(p->a.size() == 4, "face", "ADVANCED_FACE with %zu attributes", p->a.size());
				kind(p->a[2], "B_SPLINE_SURFACE", "ADVANCED_FACE");
				VP_CHECK(logical(p->a[3]), "face", "ADVANCED_FACE #%ld reverses its surface", id);
				faceOf[p->a[2].i]++;
				faceSurf[id] = p->a[2].i;
			}
		}
		VP_CHECK(surfs.size() == want.size(), "surface-count", "%zu surfaces instead of %zu", surfs.size(), want.size());
		for (long s : surfs) VP_CHECK(faceOf[s] == 1, "face", "surface #%ld is used by %d faces", s, faceOf[s]);
		// reachability
		for (long id : f.order) if (auto* p = part(f.inst[id], "SHAPE_REPRESENTATION_RELATIONSHIP")) {
			VP_CHECK(p->a.size() == 4, "relationship", "SHAPE_REPRESENTATION_RELATIONSHIP");
			kind(p->a[2], "SHAPE_REPRESENTATION", "SHAPE_REPRESENTATION_RELATIONSHIP");
			VP_CHECK(p->a[2].i == shape, "relationship", "#%ld is not related to the root shape", id);
			auto& ab = part(kind(p->a[3], "ADVANCED_BREP_SHAPE_REPRESENTATION", "the relationship"), "ADVANCED_BREP_SHAPE_REPRESENTATION")->a;
			VP_CHECK(ab.size() == 3, "relationship", "ADVANCED_BREP_SHAPE_REPRESENTATION");
			for (auto& m : L(ab[1], "items")) {
				auto& ms = part(kind(m, "MANIFOLD_SOLID_BREP", "the shape"), "MANIFOLD_SOLID_BREP")->a;
				VP_CHECK(ms.size() == 2, "relationship", "MANIFOLD_SOLID_BREP");
				auto& cs = part(kind(ms[1], "CLOSED_SHELL", "the solid"), "CLOSED_SHELL")->a;
				VP_CHECK(cs.size() == 2, "relationship", "CLOSED_SHELL");
				for (auto& fc : L(cs[1], "faces")) { kind(fc, "ADVANCED_FACE", "the shell"); reached[faceSurf[fc.i]]++; }
			}
		}
		std::set<long> points;
		for (size_t k = 0; k < want.size(); k++) {
			VP_CHECK(reached[surfs[k]] == 1, "unreachable", "surface %zu is reached %d times from the root shape", k, reached[surfs[k]]);
			compare(surfs[k], want[k], k, points);
			c.count("surfaces rebuilt");
		}
		long np = 0;
		for (auto& e : f.inst) np += part(e.second, "CARTESIAN_POINT") != nullptr;
		VP_CHECK(np == (long)points.size(), "surface-points", "%ld points for %zu control points", np, points.size());
	}
};

static void random_surface(Gen& g, NurbsSurface& s) {
	int kind = g.i(0, 9);
	double m = g.mag();
	if (kind == 0) NurbsFactory::create_sphere(m, s);
	else if (kind == 1) NurbsFactory::create_torus(2 * m, m, s);
	else {
		SurfDef d = g.b(0.2) ? gen_surface(g, g.i(1, 9), 14, 1e-5, 300) : gen_surface(g, 4, g.b(0.1) ? 12 : 6, g.b(0.2) ? 1e-12 : 1e-5, 300);
		if (g.b(0.2)) for (auto& p : d.p) p = g.anypt();
		set(s, d, &g);
	}
}

long fixed_cases() { return 1; } // more than 2^16 instances
void run_case(Ctx& c) {
	Gen& g = c.g;
	bool big = c.index < fixed_cases();
	if (big) c.count("large files");
	auto w = std::make_unique<StepWriter>();
	int sessions = big ? 1 : g.i(1, 3);
	size_t total = 0;
	VP_CHECK(!w->is_open(), "writer-open", "a new writer is open");
	if (g.b(0.1)) w->close();
	for (int s = 0; s < sessions; s++) {
		if (g.b(0.1)) {
			w->open(c.scratch + "/no/such/dir.step");
			VP_CHECK(!w->is_open(), "writer-open", "the writer is open on an unwritable path");
			NurbsSurface x; random_surface(g, x);
			if (g.b()) w->write(x);
			if (g.b()) w->close();
			c.count("failed opens");
		}
		std::string path = c.scratch + fmt("/s%d.step", g.b(0.3) ? 0 : s);
		w->open(path);
		VP_CHECK(w->is_open(), "writer-open", "the writer does not open a writable path");
		std::vector<SurfDef> want;
		int n = big ? 210 : g.size(0, 6, 140);
		for (int k = 0; k < n; k++) {
			if (g.b(big ? 0.02 : 0.25)) {
				NurbsSolid sol;
				if (g.b(0.25)) { // many small faces
					int q = g.size(5, 24, 300);
					for (int e = 0; e < q; e++) {
						NurbsSurface x;
						if (g.b(0.8)) { double m = g.mag(); Point3 a = g.pt(m), b = g.pt(m), d = g.pt(m), o = g.pt(m); NurbsFactory::create_quad(a, b, d, o, x); }
						else set(x, gen_surface(g, 2, 4), &g);
						sol.add_surface(x);
					}
					c.count("solids of many faces");
				}
				else if (g.b()) { int q = g.i(0, 4); for (int e = 0; e < q; e++) { NurbsSurface x; random_surface(g, x); sol.add_surface(x); } }
				else if (g.b()) NurbsFactory::create_box(g.mag(), g.mag(), g.mag(), sol);
				else NurbsFactory::create_cylinder(g.mag(), g.mag(), sol);
				size_t before = want.size();
				for (auto& x : sol.surfaces()) want.push_back(def(x));
				w->write(sol);
				VP_CHECK(sol.surfaces().size() == want.size() - before, "writer-changes", "the solid changed");
				for (size_t e = 0; e < sol.surfaces().size(); e++) VP_CHECK(same(def(sol.surfaces()[e]), want[before + e]), "writer-changes", "the solid changed");
				c.count("solids written");
			} else {
				NurbsSurface x;
				if (big) { SurfDef d = gen_surface(g, 3, 24, 1e-5, 0); while (d.nu * d.nv < 330) d = gen_surface(g, 3, 24, 1e-5, 0); set(x, d, &g); }
				else random_surface(g, x);
				want.push_back(def(x));
				w->write(x);
				VP_CHECK(same(def(x), want.back()), "writer-changes", "the surface changed: %s", diff(def(x), want.back()).c_str());
				if (want.back().nu != want.back().nv) c.count("non-square surfaces");
			}
		}
		if (s == sessions - 1 && g.b(0.4)) { w.reset(); c.count("writers destroyed while open"); }
		else { w->close(); VP_CHECK(!w->is_open(), "writer-open", "open after close"); if (g.b(0.1)) w->close(); }
		std::string t;
		VP_CHECK(read_file(path, t), "no-file", "no file");
		P21 f(t);
		f.parse();
		Reader(f).check(want, c);
		if (want.empty()) c.count("empty files");
		if (s) c.count("writers reopened");
		total += want.size();
		for (auto& d : want) c.mix(hash(d));
	}
	for (int s = 0; s < 3; s++) unlink((c.scratch + fmt("/s%d.step", s)).c_str());
	c.nontrivial = total > 0;
	c.desc("%d writer sessions, %zu surfaces", sessions, total);
}
} // namespace vp
