// Common part of every harness: deterministic case generation, the verdict
// channel, counters for the evidence, coverage of the library, snapshots.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

#include "Geometry.h"
#include "Mesh.h"

namespace vp {
typedef long double ld;

// ---------------------------------------------------------------- random
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
};

extern std::vector<long> g_dictInt;      // integer literals found in the sources under test
extern std::vector<double> g_dictReal;   // real literals

struct Gen {
	Rng r;
	explicit Gen(uint64_t seed) : r(seed) { for (int i = 0; i < 4; i++) r.next(); }
	uint64_t u64() { return r.next(); }
	double u01() { return (double)(r.next() >> 11) * (1. / 9007199254740992.); }
	bool b(double p = 0.5) { return u01() < p; }
	// neighbour of a stream: the same choices, reals moved a little, some integers by one
	double jit = 0; int ijit = 0; uint64_t js = 0;
	int i(int lo, int hi) { // inclusive
		int v = lo + (int)(r.next() % (uint64_t)((int64_t)hi - lo + 1));
		if (ijit && hi > lo) { js = js * 6364136223846793005ull + 1442695040888963407ull; if ((int)((js >> 33) % 100) < ijit) v += v < hi ? 1 : -1; }
		return v;
	}
	double u(double lo, double hi) { double t = u01(); if (jit != 0) t += t < 0.5 ? jit : -jit; return lo + (hi - lo) * t; }
	double logu(double lo, double hi) { return std::exp(u(std::log(lo), std::log(hi))); }
	double sgn() { return b() ? 1. : -1.; }
	// a size: often small, sometimes large, sometimes a literal of the code (+-1)
	// big: with a few literals of the code between hi and big, one of them (or a little more) now and then
	int size(int lo, int hi, int big = 0) {
		double p = u01();
		if (big > hi && p > 0.98) {
			std::vector<long> cand;
			for (long v : g_dictInt) if (v > hi && v + 2 <= big) cand.push_back(v);
			for (long v : {64L, 128L, 256L, 1000L, 1024L, 4096L, 32768L, 65536L}) if (v > hi && v + 2 <= big) cand.push_back(v);
			if (!cand.empty()) { long v = cand[i(0, (int)cand.size() - 1)]; return (int)(b(0.6) ? v + i(-1, 2) : std::min<long>(big, v + i(0, (int)(v / 8 + 1)))); }
		}
		if (p < 0.08 && !g_dictInt.empty()) {
			long v = g_dictInt[i(0, (int)g_dictInt.size() - 1)] + i(-1, 1);
			if (v >= lo && v <= hi) return (int)v;
		}
		if (p < 0.55) { int h = std::min(hi, lo + 4); return i(lo, h); }
		if (p < 0.85) { int h = std::min(hi, lo + 16); return i(lo, h); }
		return i(lo, hi);
	}
	// a positive magnitude
	double mag(double lo = 1e-3, double hi = 1e3) {
		double p = u01();
		if (p < 0.06 && !g_dictReal.empty()) {
			double v = g_dictReal[i(0, (int)g_dictReal.size() - 1)];
			if (v >= lo && v <= hi) return v;
		}
		if (p < 0.15) { double v = (double)i(1, 10); if (v >= lo && v <= hi) return v; }
		if (p < 0.2 && lo <= 1. && hi >= 1.) return 1.;
		return logu(lo, hi);
	}
	// a parameter of [0,1]
	double param() {
		double p = u01();
		if (p < 0.06) return 0.;
		if (p < 0.12) return 1.;
		if (p < 0.16) return 0.5;
		if (p < 0.2) return i(0, 8) / 8.;
		if (p < 0.24 && !g_dictReal.empty()) {
			double v = g_dictReal[i(0, (int)g_dictReal.size() - 1)];
			if (v >= 0. && v <= 1.) return v;
		}
		if (p < 0.28) return logu(1e-9, 0.1);
		if (p < 0.32) return 1. - logu(1e-9, 0.1);
		return u(0., 1.);
	}
	Point3 pt(double m) { return Point3(u(-m, m), u(-m, m), u(-m, m)); }
	// the same, with the origin, points on axes and planes and repeated magnitudes now and then
	Point3 spt(double m) {
		Point3 p = pt(m);
		double r = u01();
		if (r > 0.15) return p;
		if (r < 0.03) return b() ? Point3(0., 0., 0.) : Point3(0., -0., 0.);
		double* q[3] = {&p._x, &p._y, &p._z};
		int k = i(0, 2);
		if (r < 0.07) { *q[k] = b() ? 0. : -0.; if (b()) *q[(k + 1) % 3] = 0.; }
		else if (r < 0.11) for (double* x : q) *x = i(-2, 2) * (m / 2);
		else *q[k] = *q[(k + 1) % 3] * sgn();
		return p;
	}
	// unit vector
	Point3 dir() {
		for (;;) {
			Point3 p(u(-1, 1), u(-1, 1), u(-1, 1));
			double n = std::sqrt(p._x * p._x + p._y * p._y + p._z * p._z);
			if (n > 0.1 && n <= 1.) return Point3(p._x / n, p._y / n, p._z / n);
		}
	}
	// any kind of coordinate: small integers, signed zero, tiny, huge
	double coord() {
		double p = u01();
		if (p < 0.25) return i(-5, 5);
		if (p < 0.35) return b() ? 0. : -0.;
		if (p < 0.45) return sgn() * logu(1e-300, 1e-3);
		if (p < 0.55) return sgn() * logu(1e3, 1e300);
		if (p < 0.6 && !g_dictReal.empty()) return g_dictReal[i(0, (int)g_dictReal.size() - 1)];
		return u(-10, 10);
	}
	Point3 anypt() { return Point3(coord(), coord(), coord()); }
	// any bit pattern a double may have: infinities, undefined values, denormals included
	double wild() {
		double p = u01();
		if (p < 0.06) return std::numeric_limits<double>::quiet_NaN();
		if (p < 0.1) return sgn() * std::numeric_limits<double>::infinity();
		if (p < 0.14) return sgn() * std::numeric_limits<double>::denorm_min() * i(1, 9);
		if (p < 0.18) return sgn() * std::numeric_limits<double>::max();
		return coord();
	}
	Point3 wildpt() { return Point3(wild(), wild(), wild()); }
	template <class T> void shuffle(std::vector<T>& v) {
		for (int k = (int)v.size() - 1; k > 0; k--) std::swap(v[k], v[i(0, k)]);
	}
};

// ---------------------------------------------------------------- verdict
struct Violation {
	std::string key, msg;
};
[[noreturn]] void fail(const std::string& key, const std::string& msg);

struct Ctx {
	Gen g;
	long index;
	bool thorough;
	std::string scratch; // private directory of this worker, to be used for files
	bool verbose;
	// evidence
	uint64_t sig = 1469598103934665603ull; // signature of the case, to count distinct ones
	bool nontrivial = false;
	std::string sample; // human readable description of the case
	Ctx(uint64_t seed, long idx) : g(seed), index(idx), thorough(false), verbose(false) {}
	void mix(uint64_t v) { sig = (sig ^ v) * 1099511628211ull; sig ^= sig >> 29; }
	void mixd(double d) { uint64_t v; memcpy(&v, &d, 8); mix(v); }
	void count(const char* name, long n = 1); // named event counters of the monitors
	void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string str(const Point3& p);

#define VP_CHECK(cond, key, ...) do { if (!(cond)) vp::fail(key, vp::fmt(__VA_ARGS__)); } while (0)

// to be defined by each harness
extern const char* kRule;              // how cases are made, what makes one non-trivial
int lowest_fd(); // the number the next descriptor would get
// a call that, each time it is made, leaves one more descriptor open
template <class F> void no_descriptor_left(int before, const char* what, F f) {
	int a = lowest_fd();
	if (a <= before) return;
	f(); int b = lowest_fd();
	f(); int e = lowest_fd();
	f(); int h = lowest_fd();
	if (a < b && b < e && e < h) throw Violation{"descriptor-leak", fmt("%s: each call leaves one more descriptor open", what)};
}
void run_case(Ctx& c);
// optional: number of fixed (enumerated) cases that come first, whatever the seed
long fixed_cases();
int extra_main(int argc, char** argv);
int run_extra(const std::vector<std::string>& args, std::string* out);

// ---------------------------------------------------------------- long double points
struct V {
	ld x, y, z;
	V() : x(0), y(0), z(0) {}
	V(ld a, ld b, ld c) : x(a), y(b), z(c) {}
	V(const Point3& p) : x(p._x), y(p._y), z(p._z) {}
	V operator+(const V& o) const { return V(x + o.x, y + o.y, z + o.z); }
	V operator-(const V& o) const { return V(x - o.x, y - o.y, z - o.z); }
	V operator*(ld k) const { return V(x * k, y * k, z * k); }
	V operator/(ld k) const { return V(x / k, y / k, z / k); }
	ld dot(const V& o) const { return x * o.x + y * o.y + z * o.z; }
	V cross(const V& o) const { return V(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
	ld n2() const { return dot(*this); }
	ld n() const { return sqrtl(n2()); }
	Point3 p() const { return Point3((double)x, (double)y, (double)z); }
};
inline std::string str(const V& v) { return fmt("(%.17Lg, %.17Lg, %.17Lg)", v.x, v.y, v.z); }
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
inline bool same_bits(const Point3& a, const Point3& b) { return same_bits(a._x, b._x) && same_bits(a._y, b._y) && same_bits(a._z, b._z); }
inline bool finite(const Point3& p) { return std::isfinite(p._x) && std::isfinite(p._y) && std::isfinite(p._z); }
inline ld absmax(const V& v) { if (!(v.x == v.x && v.y == v.y && v.z == v.z)) return std::numeric_limits<ld>::infinity(); return std::max(fabsl(v.x), std::max(fabsl(v.y), fabsl(v.z))); }

// ---------------------------------------------------------------- mesh snapshots
typedef std::array<int, 3> Tri;
struct Snap { // everything that can be observed of a mesh
	std::vector<Point3> v;
	std::vector<Tri> t;      // every triangle, removed or not
	std::vector<char> dead;
	int color = -1;
	std::vector<Tri> live() const { std::vector<Tri> r; for (size_t k = 0; k < t.size(); k++) if (!dead[k]) r.push_back(t[k]); return r; }
	size_t nb_live() const { size_t n = 0; for (char d : dead) n += !d; return n; }
};
Snap snap(const Mesh& m);
void expect_same(const Snap& got, const Snap& want, const char* key, const char* what); // bit exact
bool same(const Snap& a, const Snap& b);
inline uint64_t hash_snap(const Snap& s) {
	uint64_t h = 1469598103934665603ull;
	auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
	for (auto& p : s.v) for (double d : {p._x, p._y, p._z}) { uint64_t q; memcpy(&q, &d, 8); mix(q); }
	for (size_t k = 0; k < s.t.size(); k++) { for (int a : s.t[k]) mix((uint64_t)a + 7); mix((uint64_t)s.dead[k] + 3); }
	mix((uint64_t)s.color);
	return h;
}

// directed edges not cancelled by their opposite: edge -> (count forward - count backward) for a<b
typedef std::map<std::pair<int, int>, int> Border;
Border border(const std::vector<Tri>& t);
ld area(const std::vector<Point3>& v, const std::vector<Tri>& t);
ld volume(const std::vector<Point3>& v, const std::vector<Tri>& t, const V& origin = V());
V vector_area(const std::vector<Point3>& v, const std::vector<Tri>& t);
ld extent(const std::vector<Point3>& v); // max abs coordinate
// index of coincident vertices (within tol) -> representative; uses a grid
std::vector<int> weld(const std::vector<Point3>& v, double tol);
// closedness of an indexed triangle soup: empty string when closed & consistently oriented
std::string why_not_closed(const std::vector<Tri>& t);
// rotation so that the smallest index comes first (orientation kept)
inline Tri canon(Tri a) {
	int k = (a[1] < a[0] && a[1] <= a[2]) ? 1 : (a[2] < a[0] && a[2] < a[1]) ? 2 : 0;
	return Tri{a[k], a[(k + 1) % 3], a[(k + 2) % 3]};
}
// removes from the multiset the two triangles of the quad, split along either diagonal
template <class T, class F> bool take(std::multiset<T>& s, int a, int b, int d, int e, F tri) {
	for (int o = 0; o < 2; o++) {
		T t1 = o ? tri(a, b, e) : tri(a, b, d), t2 = o ? tri(b, d, e) : tri(a, d, e);
		auto i1 = s.find(t1);
		if (i1 == s.end()) continue;
		auto i2 = s.find(t2);
		if (i2 == s.end() || (i2 == i1 && s.count(t1) < 2)) continue;
		s.erase(i1);
		s.erase(s.find(t2));
		return true;
	}
	return false;
}
// random garbage mesh used as former content of an output object
void dirty(Gen& g, Mesh& m);

// files
bool read_file(const std::string& path, std::string& out);
void write_file(const std::string& path, const std::string& data);

size_t heap_bytes(); // currently allocated by the process (0 if unknown)
} // namespace vp
