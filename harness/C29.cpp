// C29: faults while a file is being loaded.
#include "vp.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include <memory>
#include <errno.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

// ------------------------------------------------------------ faults injected in read(2)
enum Fault { None, Error, ErrorOnce, Short, Interrupted, End };
static Fault g_fault = None;
static long g_countdown = 0, g_delivered = 0, g_calls = 0;
static int g_errno = EIO, g_part = 3;
static long g_left = -1; // bytes to be read before the fault, -1: the fault is at a call
static bool g_by_bytes = false;
// the bytes to ask for, or -1: error, -2: end of file
static long hit(size_t n) {
	if (g_fault == None) return (long)n;
	g_calls++;
	if (g_by_bytes) {
		if (g_left > 0) { long k = std::min((long)n, g_left); g_left -= k; return k; }
		if (g_fault == Short || g_fault == Interrupted) g_by_bytes = false;
	}
	else if (g_countdown-- > 0) return (long)n;
	switch (g_fault) {
	case Error: g_delivered++; errno = g_errno; return -1;
	case ErrorOnce: if (g_delivered == 0) { g_delivered++; errno = g_errno; return -1; } return (long)n;
	case Interrupted: if (g_delivered < 3) { g_delivered++; errno = EINTR; return -1; } return (long)n;
	case End: g_delivered++; return -2;
	case Short: if (n > 1) { g_delivered++; return (long)std::max<size_t>(1, n / (size_t)g_part); } return (long)n;
	default: return (long)n;
	}
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
	long k = hit(n);
	return k == -1 ? -1 : k == -2 ? 0 : syscall(SYS_read, fd, p, (size_t)k);
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int n) {
	long k = n > 0 ? hit(v[0].iov_len) : 0;
	if (k == -1) return -1;
	if (k == -2) return 0;
	if (n > 0 && (size_t)k != v[0].iov_len) { struct iovec w = v[0]; w.iov_len = (size_t)k; return syscall(SYS_readv, fd, &w, 1); }
	return syscall(SYS_readv, fd, v, n);
}

using namespace vp;
namespace vp {
const char* kRule = "case = one good STL, OBJ or BMP file (written here or by the library) loaded under faults: an error, a single error, an end of file, a short read or an interruption at each read call (sampled when there are many) and after 24 numbers of bytes, paths that cannot be read; then loaded without fault; non-trivial = always";

static std::string stl(Gen& g, int n) {
	std::string s(80, g.b() ? '\0' : (char)g.i(0, 255));
	s.append((char*)&n, 4);
	for (int k = 0; k < n; k++) { for (int e = 0; e < 12; e++) { float f = (float)g.u(-10, 10); s.append((char*)&f, 4); } s.append(2, '\0'); }
	return s;
}
static std::string obj(Gen& g, int nv, int nt) {
	std::string s;
	if (g.b(0.3)) s += "# a comment\nmtllib none\n";
	for (int k = 0; k < nv; k++) s += fmt("v %g %g %g\n", g.u(-9, 9), g.u(-9, 9), g.u(-9, 9));
	for (int k = 0; k < nt; k++) s += fmt("f %d %d %d\n", g.i(1, nv), g.i(1, nv), g.i(1, nv));
	if (g.b(0.3)) while (s.back() == '\n') s.pop_back();
	return s;
}
static std::string bmp(Gen& g, int w, int h) {
	int b = g.b(0.33) ? 1 : g.b() ? 3 : 4;
	int stride = (w * b + 3) / 4 * 4, off = 54 + (b == 1 ? 1024 : 0) + (g.b(0.3) ? g.i(1, 9000) : 0);
	std::string s(off, '\0');
	auto p32 = [&](int p, int v) { memcpy(&s[p], &v, 4); };
	s[0] = 'B'; s[1] = 'M';
	p32(2, off + stride * h); p32(10, off); p32(14, 40); p32(18, w); p32(22, h); p32(26, 1 | (b * 8) << 16);
	for (int k = 0; k < stride * h; k++) s += (char)g.i(0, 255);
	return s;
}

struct Obj { // what is loaded into
	int kind; Mesh m; Image im;
	bool load(const std::string& p) { return kind == 0 ? STLFile::load(p, m) : kind == 1 ? OBJFile::load(p, m) : ImageIoBmp::read(p, &im); }
	uint64_t look() {
		uint64_t h = 77;
		auto u = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; };
		if (kind == 2) { u((uint64_t)im.width()); u((uint64_t)im.height()); u((uint64_t)im.planes()); for (int k = 0; k < im.size(); k++) u(im.data()[k]); }
		else u(hash_snap(snap(m)));
		return h;
	}
	void valid() { // whatever was loaded
		if (kind == 2) { for (int y = 0; y < im.height(); y++) for (int x = 0; x < im.width(); x++) for (int k = 0; k < im.planes(); k++) *im.pixel(x, y, k) ^= 1; return; }
		Snap s = snap(m);
		for (auto& t : s.t) for (int i : t) VP_CHECK(i >= 0 && i < (int)s.v.size(), "mesh-index", "a triangle refers to vertex %d of %zu", i, s.v.size());
	}
};

void run_case(Ctx& c) {
	Gen& g = c.g;
	struct Reset { ~Reset() { g_fault = None; } } reset;
	static const char* names[] = {"STL", "OBJ", "BMP"};
	static const char* faults[] = {"none", "read error", "single read error", "short read", "interrupted read", "early end"};
	int kind = g.i(0, 2);
	bool big = g.b(0.3);
	std::string path = c.scratch + "/f", s;
	unlink(path.c_str());
	if (kind == 0) s = stl(g, big ? g.i(160, 2000) : g.size(0, 170));
	else if (kind == 1) s = obj(g, big ? g.i(200, 3000) : g.size(1, 200), big ? g.i(0, 2000) : g.size(0, 200));
	else s = big ? bmp(g, g.i(1, 400), g.i(1, 120)) : bmp(g, g.size(1, 60), g.size(1, 40));
	write_file(path, s);
	if (g.b(0.3)) { // written by the library
		Obj o; o.kind = kind;
		VP_CHECK(o.load(path), "refused", "a good %s file is refused", names[kind]);
		std::string p2 = c.scratch + "/g";
		if (kind == 0 ? STLFile::save(p2, o.m) : kind == 1 ? OBJFile::save(p2, o.m) : ImageIoBmp::write(p2, &o.im)) { VP_CHECK(read_file(p2, s), "incomplete", "no file after a success"); write_file(path, s); c.count("files written by the library"); }
		unlink(p2.c_str());
	}
	int fd0 = lowest_fd();
	Obj ref; ref.kind = kind;
	g_fault = Short; g_countdown = 1L << 40; g_delivered = g_calls = 0;
	bool ok = ref.load(path);
	long calls = g_calls;
	g_fault = None;
	VP_CHECK(ok, "refused", "a good %s file of %zu bytes is refused", names[kind], s.size());
	uint64_t want = ref.look();
	c.mix(kind); c.mix(want); c.mix((uint64_t)calls);
	c.desc("%s file of %zu bytes, %ld read calls", names[kind], s.size(), calls);
	c.nontrivial = true;
	c.count(names[kind]); c.count("files of several reads", calls > 4); c.count("read calls seen", calls);

	std::vector<std::pair<Fault, long>> plan;
	for (int f = Error; f <= End; f++) {
		if (calls <= 12) for (long k = 0; k <= calls; k++) plan.push_back({(Fault)f, k});
		else { for (long k : {0L, 1L, 2L, calls - 3, calls - 2, calls - 1, calls}) plan.push_back({(Fault)f, k}); for (int k = 0; k < 4; k++) plan.push_back({(Fault)f, g.i(0, (int)calls)}); }
	}
	// the same after any number of bytes (-1 - bytes)
	long size = (long)s.size();
	for (int k = 0; k < 24; k++) {
		long at = g.b(0.4) ? size - g.i(0, 70) : g.b(0.2) ? g.i(0, 130) : (long)(g.u64() % (uint64_t)(size + 1));
		if (g.b(0.15)) at = size - g.i(0, 3);
		plan.push_back({(Fault)g.i(Error, End), -1 - std::max(0L, std::min(size, at))});
	}
	std::unique_ptr<Obj> used;
	for (auto& p : plan) {
		std::unique_ptr<Obj> o;
		if (used && g.b()) o = std::move(used); else { o.reset(new Obj); o->kind = kind; }
		static const int errs[] = {EIO, EBADF, ESTALE, ENOMEM, EAGAIN};
		g_errno = errs[g.i(0, 4)]; g_part = g.b(0.2) ? 1 << 20 : g.i(2, 9);
		if (g_part > 9 && s.size() > 3000) g_part = 9;
		g_by_bytes = p.second < 0; g_left = -1 - p.second;
		g_countdown = p.second; g_delivered = g_calls = 0; g_fault = p.first;
		bool r = o->load(path);
		g_fault = None;
		bool soft = p.first == Short || p.first == Interrupted;
		g_by_bytes = false;
		std::string where = p.second >= 0 ? fmt("at read call %ld of %ld", p.second, calls) : fmt("after %ld of %ld bytes", -1 - p.second, size);
		if (!g_delivered || soft) VP_CHECK(r, "failure-reported", "%s: failure is reported although all the bytes could be read (%s %s, %ld delivered)", names[kind], faults[p.first], where.c_str(), g_delivered);
		if (r && !(kind == 1 && p.first == End)) VP_CHECK(o->look() == want, "success-reported", "%s: success is reported after a %s %s, what is loaded differs from the file", names[kind], faults[p.first], where.c_str());
		if (g_delivered) { c.count(faults[p.first]); if (p.second < 0) c.count("faults at a byte"); }
		c.count(r ? "successes under fault" : "failures reported");
		o->valid();
		if (g.b()) { // a later load works
			VP_CHECK(o->load(path) && o->look() == want, "later-load", "%s: a load after a %s fails or differs", names[kind], faults[p.first]);
			c.count("later loads");
		}
		used = std::move(o);
	}
	// nothing to be read
	std::string bad[] = {c.scratch, c.scratch + "/none", "", c.scratch + "/" + std::string(300, 'n'), path + "/below-a-file", "/proc/self/mem"};
	for (auto& b : bad) {
		Obj o; o.kind = kind;
		VP_CHECK(!o.load(b), "success-reported", "%s: success is reported for '%s', which cannot be read", names[kind], b.substr(0, 100).c_str());
		o.valid();
		c.count("unreadable paths");
	}
	no_descriptor_left(fd0, names[kind], [&] { for (auto& b : bad) ref.load(b); ref.load(path); for (int f = Error; f <= End; f++) for (int k = 0; k < 3; k++) { g_fault = (Fault)f; g_countdown = k; g_delivered = g_calls = 0; ref.load(path); g_fault = None; } });
	unlink(path.c_str());
}
} // namespace vp
