// C22: storage faults during saves.
#include "vp.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include <memory>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>

// ------------------------------------------------------------ faults injected in write(2)
static bool g_inject = false;
static long g_countdown = 0;   // calls before the fault
static int g_fault = 0;        // errno of the fault, 0: short write, EINTR: retried by the caller
static long g_delivered = 0, g_calls = 0;
static ssize_t raw_writev(int fd, const struct iovec* v, int n) { return syscall(SYS_writev, fd, v, n); }
static bool hit() { if (!g_inject) return false; g_calls++; return g_countdown-- <= 0; }
extern "C" ssize_t write(int fd, const void* p, size_t n) {
	if (hit()) {
		if (g_fault == EINTR) { if (g_delivered++ < 3) { errno = EINTR; return -1; } }
		else if (g_fault) { g_delivered++; errno = g_fault; return -1; }
		else if (n > 1) { g_delivered++; return syscall(SYS_write, fd, p, (n + 2) / 3); }
	}
	return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
	if (hit()) {
		if (g_fault == EINTR) { if (g_delivered++ < 3) { errno = EINTR; return -1; } }
		else if (g_fault) { g_delivered++; errno = g_fault; return -1; }
		else if (n > 0 && v[0].iov_len > 1) { g_delivered++; struct iovec w = v[0]; w.iov_len = (w.iov_len + 1) / 2; return raw_writev(fd, &w, 1); }
	}
	return raw_writev(fd, v, n);
}

using namespace vp;
namespace vp {
const char* kRule = "case = one mesh or image saved as STL, OBJ (also by OBJWriter) or BMP under faults: file-size limit at every byte offset (sampled for files above 3 KB), full device, write errors, short and interrupted writes at random calls, no free descriptor, paths that cannot be created; then saved without fault; non-trivial = always";

static void limit(rlim_t v) {
	rlimit r;
	getrlimit(RLIMIT_FSIZE, &r);
	r.rlim_cur = std::min(v, r.rlim_max);
	setrlimit(RLIMIT_FSIZE, &r);
}
struct Unlimited { ~Unlimited() { limit(RLIM_INFINITY); g_inject = false; } };

struct Target {
	int kind; // 0 STL, 1 OBJ, 2 BMP, 3 OBJWriter
	Mesh m; Image im;
	std::vector<Point3> poly;
	std::unique_ptr<OBJWriter> w;
	Snap before; std::vector<unsigned char> pix;
	bool save(const std::string& p) {
		switch (kind) {
		case 0: return STLFile::save(p, m);
		case 1: return OBJFile::save(p, m);
		case 2: return ImageIoBmp::write(p, &im);
		default:
			w->open(p);
			if (!w->is_open()) return false;
			w->write(m);
			w->write(poly);
			return w->close();
		}
	}
	void unchanged(const char* what) {
		if (kind == 2) VP_CHECK(pix == std::vector<unsigned char>(im.data(), im.data() + im.size()), "object-changed", "%s changed the image", what);
		else expect_same(snap(m), before, "object-changed", what);
	}
};

static void attempt(Target& t, const std::string& path, const std::string& full, const char* what, bool mustFail, bool mustPass, Ctx& c) {
	bool ok = t.save(path);
	g_inject = false;
	limit(RLIM_INFINITY);
	t.unchanged(what);
	VP_CHECK(!(ok && mustFail), "success-reported", "%s: success is reported although the file could not be written (%zu bytes)", what, full.size());
	VP_CHECK(ok || !mustPass, "failure-reported", "%s: failure is reported although nothing failed", what);
	if (ok) {
		std::string s;
		VP_CHECK(read_file(path, s) && s == full, "incomplete", "%s: success is reported, the file holds %zu bytes instead of %zu or differs", what, s.size(), full.size());
	}
	c.count(ok ? "successes under fault" : "failures reported");
}

void run_case(Ctx& c) {
	Gen& g = c.g;
	static bool once = (signal(SIGXFSZ, SIG_IGN), true);
	(void)once;
	Unlimited guard;
	Target t;
	t.kind = g.i(0, 3);
	static const char* names[] = {"STL", "OBJ", "BMP", "OBJ writer"};
	bool big = c.index % 10 == 3;
	if (t.kind == 2) {
		t.im.resize(big ? g.i(30, 120) : g.size(1, 25), big ? g.i(30, 100) : g.size(1, 20), g.b(0.33) ? 1 : g.b() ? 3 : 4);
		for (int k = 0; k < t.im.size(); k++) t.im.data()[k] = (unsigned char)g.i(0, 255);
		t.pix.assign(t.im.data(), t.im.data() + t.im.size());
	} else {
		int nv = big ? g.i(150, 500) : g.b(0.06) ? 0 : g.size(1, 25), nt = big ? g.i(100, 500) : nv ? g.size(0, 30) : 0;
		if (!nv) c.count("meshes without vertex");
		for (int k = 0; k < nv; k++) t.m.add_vertex(g.pt(g.mag()));
		for (int k = 0; k < nt; k++) t.m.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
		for (int k = 0; k < nt; k++) if (g.b(0.1)) t.m.unlink_triangle(k);
		for (int k = nv ? g.i(0, 5) : 0; k > 0; k--) t.poly.push_back(g.pt(5));
		if (t.kind == 3) t.w = std::make_unique<OBJWriter>();
	}
	t.before = snap(t.m);
	std::string path = c.scratch + "/f";
	unlink(path.c_str());
	int fd0 = lowest_fd();
	VP_CHECK(t.save(path), "failure-reported", "%s: a save without fault reports failure", names[t.kind]);
	std::string full;
	VP_CHECK(read_file(path, full), "incomplete", "%s: no file after a success", names[t.kind]);
	size_t n = full.size();
	c.mix(t.kind); c.mix(n); c.mix(hash_snap(t.before)); for (size_t k = 0; k < t.pix.size() && k < 32; k++) c.mix(t.pix[k]);
	c.desc("%s file of %zu bytes", names[t.kind], n);
	c.nontrivial = true;

	// the limit is hit at every byte
	std::vector<size_t> at;
	if (n <= 3000) for (size_t k = 0; k <= n; k++) at.push_back(k);
	else {
		for (size_t k : {(size_t)0, (size_t)1, (size_t)8190, (size_t)8191, (size_t)8192, (size_t)8193, (size_t)16382, (size_t)16384, (size_t)4095, (size_t)4096, n - 4, n - 3, n - 2, n - 1, n}) if (k <= n) at.push_back(k);
		for (int k = 0; k < 60; k++) at.push_back((size_t)(g.u64() % (n + 1)));
		for (size_t k = n > 200 ? n - 200 : 0; k < n; k += 1 + (size_t)g.i(0, 6)) at.push_back(k);
	}
	for (size_t k : at) {
		if (g.b(0.05)) unlink(path.c_str());
		else if (g.b(0.05)) { write_file(path, std::string(n + (size_t)g.i(0, 3000), 'x')); c.count("longer former files"); }
		limit(k);
		std::string what = fmt("%s, storage limited to %zu of %zu bytes", names[t.kind], k, n);
		attempt(t, path, full, what.c_str(), k < n, k == n, c);
		c.count("offsets tried");
		if (k == n) c.count("limits just sufficient");
	}
	c.count("complete sweeps of the offsets", n <= 3000);
	// full device
	struct stat st;
	if (stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode)) {
		attempt(t, "/dev/full", full, fmt("%s on a full device", names[t.kind]).c_str(), true, false, c);
		c.count("full devices");
	}
	// faults in the write calls
	for (int k = 0; k < 12; k++) {
		static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG, 0, EINTR};
		int e = errs[g.i(0, 5)];
		g_fault = e; g_countdown = g.b() ? 0 : g.i(0, (int)(n / 4096) + 2); g_delivered = g_calls = 0;
		bool soft = e == 0 || e == EINTR;
		if (g.b(0.3)) { write_file(path, std::string((size_t)g.i(0, 2 * (int)n + 100), 'y')); c.count("former files of any size"); }
		g_inject = true;
		bool ok = t.save(path);
		g_inject = false;
		t.unchanged("a write fault");
		if (g_delivered && !soft) VP_CHECK(!ok, "success-reported", "%s: success is reported although write() call failed with errno %d", names[t.kind], e);
		if (!g_delivered) VP_CHECK(ok, "failure-reported", "%s: failure is reported although nothing failed", names[t.kind]);
		if (ok) { std::string s; VP_CHECK(read_file(path, s) && s == full, "incomplete", "%s: success is reported after a short or interrupted write, the file differs", names[t.kind]); }
		c.count(!g_delivered ? "faults after the last write" : soft ? "short or interrupted writes" : "write errors");
	}
	// paths that cannot be created
	std::string bad[] = {c.scratch + "/no/such/dir/f", c.scratch, "", c.scratch + "/" + std::string(300, 'n'), path + "/below-a-file"};
	for (auto& b : bad) {
		VP_CHECK(!t.save(b), "success-reported", "%s: success is reported for the path '%s'", names[t.kind], b.substr(0, 100).c_str());
		t.unchanged("an impossible path");
		c.count("impossible paths");
	}
	// no free descriptor
	{
		rlimit r; getrlimit(RLIMIT_NOFILE, &r);
		rlimit z = r; z.rlim_cur = 0;
		setrlimit(RLIMIT_NOFILE, &z);
		bool ok = t.save(path);
		setrlimit(RLIMIT_NOFILE, &r);
		VP_CHECK(!ok, "success-reported", "%s: success is reported although no file could be opened", names[t.kind]);
		c.count("no descriptor");
	}
	// failed saves keep no memory
	if (g.b(0.3)) {
		auto fails = [&] {
			for (int k = 0; k < 4; k++) {
				g_fault = ENOSPC; g_countdown = k; g_delivered = g_calls = 0;
				g_inject = true;
				t.save(path);
				g_inject = false;
				t.save(bad[k]);
			}
		};
		fails(); fails();
		size_t b1 = heap_bytes();
		fails();
		size_t b2 = heap_bytes();
		if (b2 > b1) {
			fails();
			size_t b3 = heap_bytes();
			VP_CHECK(b3 <= b2, "leak", "%s: each repetition of failed saves leaves %zd more bytes allocated", names[t.kind], (ssize_t)(b3 - b2));
		}
		c.count("failed saves measured");
	}
	// and a later save works
	if (g.b()) { write_file(path, std::string(n + (size_t)g.i(1, 9000), '\0')); c.count("longer former files"); }
	VP_CHECK(t.save(path), "later-save", "%s: a save after faults reports failure", names[t.kind]);
	std::string s;
	VP_CHECK(read_file(path, s) && s == full, "later-save", "%s: the file saved after faults differs", names[t.kind]);
	c.count(names[t.kind]);
	no_descriptor_left(fd0, names[t.kind], [&] {
		t.save(path);
		for (auto& b : bad) t.save(b);
		for (int k = 0; k < 9; k++) { g_fault = ENOSPC; g_countdown = k; g_delivered = g_calls = 0; g_inject = true; t.save(path); g_inject = false; }
		rlimit r, z; getrlimit(RLIMIT_FSIZE, &r); z = r;
		for (size_t k : {(size_t)0, n / 2, n ? n - 1 : 0}) { z.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &z); t.save(path); setrlimit(RLIMIT_FSIZE, &r); }
	});
	unlink(path.c_str());
}
} // namespace vp
