#include "vp.h"
#include <errno.h>
#include <spawn.h>
#include <sys/wait.h>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <unordered_map>

#include <fcntl.h>
#include <unistd.h>
namespace vp { int lowest_fd() { int f = open("/dev/null", O_RDONLY); if (f >= 0) close(f); return f; } }
namespace vp {
std::vector<long> g_dictInt;
std::vector<double> g_dictReal;

std::string fmt(const char* f, ...) {
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}
std::string str(const Point3& p) { return fmt("(%.17g, %.17g, %.17g)", p._x, p._y, p._z); }
void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }

static std::map<std::string, long> g_counts;
void Ctx::count(const char* name, long n) { g_counts[name] += n; }
void Ctx::desc(const char* f, ...) {
	char buf[1024];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	if (verbose) { printf("  %s\n", buf); fflush(stdout); }
	if (sample.size() < 1500) { if (!sample.empty()) sample += "; "; sample += buf; }
}

// ---------------------------------------------------------------- snapshots
Snap snap(const Mesh& m) {
	Snap s;
	int nv = m.nb_vertices(), nt = m.nb_triangles();
	s.v.resize(nv);
	for (int k = 0; k < nv; k++) m.get_vertex(k, s.v[k]);
	s.t.resize(nt); s.dead.resize(nt);
	for (int k = 0; k < nt; k++) {
		m.get_triangle_vertices(k, s.t[k][0], s.t[k][1], s.t[k][2]);
		s.dead[k] = m.is_triangle_unlinked(k);
	}
	s.color = m.get_color();
	return s;
}
bool same(const Snap& a, const Snap& b) {
	if (a.v.size() != b.v.size() || a.t != b.t || a.dead != b.dead || a.color != b.color) return false;
	for (size_t k = 0; k < a.v.size(); k++) if (!same_bits(a.v[k], b.v[k])) return false;
	return true;
}
void expect_same(const Snap& g, const Snap& w, const char* key, const char* what) {
	VP_CHECK(g.v.size() == w.v.size(), key, "%s: %zu vertices instead of %zu", what, g.v.size(), w.v.size());
	VP_CHECK(g.t.size() == w.t.size(), key, "%s: %zu triangles instead of %zu", what, g.t.size(), w.t.size());
	for (size_t k = 0; k < w.v.size(); k++)
		VP_CHECK(same_bits(g.v[k], w.v[k]), key, "%s: vertex %zu is %s instead of %s", what, k, str(g.v[k]).c_str(), str(w.v[k]).c_str());
	for (size_t k = 0; k < w.t.size(); k++) {
		VP_CHECK(g.t[k] == w.t[k], key, "%s: triangle %zu is %d %d %d instead of %d %d %d", what, k, g.t[k][0], g.t[k][1], g.t[k][2], w.t[k][0], w.t[k][1], w.t[k][2]);
		VP_CHECK(g.dead[k] == w.dead[k], key, "%s: triangle %zu removed=%d instead of %d", what, k, g.dead[k], w.dead[k]);
	}
	VP_CHECK(g.color == w.color, key, "%s: color %d instead of %d", what, g.color, w.color);
}
Border border(const std::vector<Tri>& t) {
	Border b;
	for (auto& q : t)
		for (int k = 0; k < 3; k++) {
			int a = q[k], c = q[(k + 1) % 3];
			if (a == c) continue;
			auto key = a < c ? std::make_pair(a, c) : std::make_pair(c, a);
			int& n = b[key];
			n += a < c ? 1 : -1;
			if (n == 0) b.erase(key);
		}
	return b;
}
ld area(const std::vector<Point3>& v, const std::vector<Tri>& t) {
	ld s = 0;
	for (auto& q : t) { V a(v[q[0]]), b(v[q[1]]), c(v[q[2]]); s += (b - a).cross(c - a).n(); }
	return s / 2;
}
V vector_area(const std::vector<Point3>& v, const std::vector<Tri>& t) {
	V s;
	for (auto& q : t) { V a(v[q[0]]), b(v[q[1]]), c(v[q[2]]); s = s + (b - a).cross(c - a); }
	return s / 2;
}
ld volume(const std::vector<Point3>& v, const std::vector<Tri>& t, const V& o) {
	ld s = 0;
	for (auto& q : t) { V a = V(v[q[0]]) - o, b = V(v[q[1]]) - o, c = V(v[q[2]]) - o; s += a.dot((b - a).cross(c - a)); }
	return s / 6;
}
ld extent(const std::vector<Point3>& v) {
	ld m = 0;
	for (auto& p : v) m = std::max(m, absmax(V(p)));
	return m;
}
std::vector<int> weld(const std::vector<Point3>& v, double tol) {
	std::vector<int> rep(v.size());
	std::map<std::array<long long, 3>, std::vector<int>> cells;
	auto cell = [&](const Point3& p) { return std::array<long long, 3>{(long long)std::floor(p._x / tol), (long long)std::floor(p._y / tol), (long long)std::floor(p._z / tol)}; };
	for (size_t k = 0; k < v.size(); k++) {
		auto c = cell(v[k]);
		int found = -1;
		for (int dx = -1; dx <= 1 && found < 0; dx++)
			for (int dy = -1; dy <= 1 && found < 0; dy++)
				for (int dz = -1; dz <= 1 && found < 0; dz++) {
					auto it = cells.find({c[0] + dx, c[1] + dy, c[2] + dz});
					if (it == cells.end()) continue;
					for (int j : it->second)
						if ((V(v[j]) - V(v[k])).n() < tol) { found = j; break; }
				}
		if (found < 0) { cells[c].push_back((int)k); rep[k] = (int)k; }
		else rep[k] = found;
	}
	return rep;
}
std::string why_not_closed(const std::vector<Tri>& t) {
	std::map<std::pair<int, int>, int> e;
	for (auto& q : t)
		for (int k = 0; k < 3; k++) {
			if (q[k] == q[(k + 1) % 3]) return fmt("triangle %d %d %d is degenerate", q[0], q[1], q[2]);
			int& n = e[{q[k], q[(k + 1) % 3]}];
			if (++n > 1) return fmt("directed edge %d->%d is used twice", q[k], q[(k + 1) % 3]);
		}
	for (auto& x : e)
		if (!e.count({x.first.second, x.first.first})) return fmt("edge %d->%d has no opposite", x.first.first, x.first.second);
	return "";
}
void dirty(Gen& g, Mesh& m) {
	int nv = g.size(1, 20);
	for (int k = 0; k < nv; k++) m.add_vertex(g.pt(3.));
	int nt = g.b(0.15) ? 0 : g.size(0, 12); // points only, sometimes
	for (int k = 0; k < nt; k++) m.add_triangle(g.i(0, nv - 1), g.i(0, nv - 1), g.i(0, nv - 1));
	double gone = g.b(0.15) ? 1. : g.b(0.2) ? 0. : 0.3; // all removed, sometimes
	for (int k = 0; k < nt; k++) if (g.b(gone)) m.unlink_triangle(k);
	if (g.b()) m.set_color(g.i(0, 0xffffff));
}
bool read_file(const std::string& path, std::string& out) {
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) return false;
	out.clear();
	char buf[65536]; size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
	fclose(f);
	return true;
}
void write_file(const std::string& path, const std::string& data) {
	FILE* f = fopen(path.c_str(), "wb");
	if (!f) { fprintf(stderr, "HARNESS: cannot write %s\n", path.c_str()); _exit(3); }
	if (fwrite(data.data(), 1, data.size(), f) != data.size()) { fprintf(stderr, "HARNESS: short write %s\n", path.c_str()); _exit(3); }
	fclose(f);
}
__attribute__((weak)) long fixed_cases() { return 0; }
__attribute__((weak)) int extra_main(int, char**) { return 3; }
std::string g_dictPath;
// runs this program in a new process: extra_main(args); its standard output in *out
int run_extra(const std::vector<std::string>& args, std::string* out) {
	std::vector<std::string> a = {"self"};
	if (!g_dictPath.empty()) { a.push_back("--dict"); a.push_back(g_dictPath); }
	a.push_back("--extra");
	a.insert(a.end(), args.begin(), args.end());
	std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
	int fd[2]; if (pipe(fd)) return -1;
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_adddup2(&fa, fd[1], 1); posix_spawn_file_actions_addclose(&fa, fd[0]); posix_spawn_file_actions_addclose(&fa, fd[1]);
	pid_t pid; int rc = posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, v.data(), environ);
	posix_spawn_file_actions_destroy(&fa); close(fd[1]);
	if (rc) { close(fd[0]); return -1; }
	out->clear(); char b[4096]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) out->append(b, (size_t)n);
	close(fd[0]);
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
} // namespace vp

extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
namespace vp { size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; } }

// ---------------------------------------------------------------- coverage of the library
struct CovModule { uint8_t* start; uint8_t* stop; };
static CovModule g_mod[256];
static int g_nmod = 0;
static const uintptr_t* g_pcs[256][2];
static int g_npcs = 0;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_bool_flag_init(uint8_t* a, uint8_t* b) {
	for (int k = 0; k < g_nmod; k++) if (g_mod[k].start == a) return;
	if (g_nmod < 256 && a < b) g_mod[g_nmod++] = {a, b};
}
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_pcs_init(const uintptr_t* a, const uintptr_t* b) {
	for (int k = 0; k < g_npcs; k++) if (g_pcs[k][0] == a) return;
	if (g_npcs < 256 && a < b) { g_pcs[g_npcs][0] = a; g_pcs[g_npcs][1] = b; g_npcs++; }
}

// ---------------------------------------------------------------- driver side
static uint64_t case_seed(uint64_t seed, long idx) {
	vp::Rng r(seed * 0x2545F4914F6CDD1Dull + 77);
	uint64_t a = r.next();
	vp::Rng q(a ^ ((uint64_t)idx * 0x9E3779B97F4A7C15ull));
	return q.next();
}
static std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += vp::fmt("\\u%04x", c);
		else o += c;
	}
	return o;
}

static void write_out(const std::string& out, const std::vector<std::array<std::string, 3>>& viol, long cases,
	const std::unordered_set<uint64_t>& sigs, const std::vector<std::string>& samples) {
	std::string tmp = out + ".tmp";
	FILE* f = fopen(tmp.c_str(), "w");
	if (!f) _exit(3);
	fprintf(f, "{\"rule\": \"%s\", \"cases\": %ld, \"violations\": [", jesc(vp::kRule).c_str(), cases);
	for (size_t k = 0; k < viol.size(); k++)
		fprintf(f, "%s{\"case\": %s, \"key\": \"%s\", \"msg\": \"%s\"}", k ? ", " : "", viol[k][0].c_str(), jesc(viol[k][1]).c_str(), jesc(viol[k][2]).c_str());
	fprintf(f, "], \"counts\": {");
	bool first = true;
	for (auto& x : vp::g_counts) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(x.first).c_str(), x.second); first = false; }
	fprintf(f, "}, \"sigs\": [");
	first = true;
	for (uint64_t s : sigs) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
	fprintf(f, "], \"samples\": [");
	for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(samples[k]).c_str());
	// edges of the library executed by this process, as hex bitmap, and function entries
	fprintf(f, "], \"edges\": \"");
	size_t total = 0;
	for (int k = 0; k < g_nmod; k++) {
		int nib = 0, nb = 0;
		for (uint8_t* p = g_mod[k].start; p < g_mod[k].stop; p++) {
			total++;
			nib |= (*p ? 1 : 0) << nb;
			if (++nb == 4) { fputc("0123456789abcdef"[nib], f); nib = nb = 0; }
		}
		if (nb) fputc("0123456789abcdef"[nib], f);
	}
	fprintf(f, "\", \"edges_total\": %zu, \"functions\": \"", total);
	size_t nf = 0;
	if (g_nmod == g_npcs)
		for (int k = 0; k < g_nmod; k++) {
			size_t n = g_mod[k].stop - g_mod[k].start;
			for (size_t j = 0; j < n && g_pcs[k][0] + 2 * j < g_pcs[k][1]; j++)
				if (g_pcs[k][0][2 * j + 1] & 1) { nf++; fputc(g_mod[k].start[j] ? '1' : '0', f); }
		}
	fprintf(f, "\", \"functions_total\": %zu}\n", nf);
	fclose(f);
	rename(tmp.c_str(), out.c_str());
}

int main(int argc, char** argv) {
	long from = 0, to = 0, step = 1, one = -1;
	uint64_t seed = 1;
	bool thorough = false, verbose = false;
	std::string out, progress, scratch, dict;
	for (int k = 1; k < argc; k++) {
		std::string a = argv[k];
		auto val = [&]() { if (k + 1 >= argc) _exit(3); return std::string(argv[++k]); };
		if (a == "--from") from = atol(val().c_str());
		else if (a == "--to") to = atol(val().c_str());
		else if (a == "--step") step = atol(val().c_str());
		else if (a == "--case") one = atol(val().c_str());
		else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--thorough") thorough = true;
		else if (a == "--verbose") verbose = true;
		else if (a == "--out") out = val();
		else if (a == "--progress") progress = val();
		else if (a == "--scratch") scratch = val();
		else if (a == "--dict") dict = val();
		else if (a == "--pcs") { // symbolised list of the instrumented edges
			char buf[512];
			for (int m = 0; m < g_npcs; m++) for (const uintptr_t* q = g_pcs[m][0]; q < g_pcs[m][1]; q += 2) {
				if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc((void*)q[0], "%f %s:%l:%c", buf, sizeof buf);
				printf("%s\n", buf);
			}
			return 0;
		}
		else if (a == "--extra") { // a run in a process where nothing was used before
			if (!dict.empty()) { std::ifstream f(dict); std::string kind; double v; while (f >> kind >> v) { if (kind == "i") vp::g_dictInt.push_back((long)v); else vp::g_dictReal.push_back(v); } }
			fflush(stdout);
			int rc = vp::extra_main(argc - k - 1, argv + k + 1);
			fflush(stdout);
			_exit(rc);
		}
		else if (a == "--fixed") { printf("%ld\n", vp::fixed_cases()); return 0; }
		else { fprintf(stderr, "HARNESS: unknown argument %s\n", a.c_str()); return 3; }
	}
	vp::g_dictPath = dict;
	if (!dict.empty()) {
		std::ifstream f(dict);
		std::string kind; double v;
		while (f >> kind >> v) { if (kind == "i") vp::g_dictInt.push_back((long)v); else vp::g_dictReal.push_back(v); }
	}
	if (scratch.empty()) { fprintf(stderr, "HARNESS: --scratch is needed\n"); return 3; }
	if (!verbose && one < 0) { // the library prints on standard output
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 1);
	}
	volatile long* prog = nullptr;
	if (!progress.empty()) {
		int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 64)) return 3;
		prog = (volatile long*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	if (one >= 0) { from = one; to = one + 1; step = 1; }

	std::vector<std::array<std::string, 3>> viol;
	std::unordered_set<uint64_t> sigs;
	std::vector<std::string> samples;
	std::set<std::string> keys;
	long cases = 0;
	if (prog) prog[0] = from;
	for (long k = from; k < to; k += step) {
		if (prog) { prog[0] = k; prog[1] = cases; }
		vp::Ctx c(case_seed(seed, k), k);
		if (k < vp::fixed_cases()) c.g = vp::Gen(case_seed(12345, k));
		c.thorough = thorough; c.scratch = scratch; c.verbose = verbose;
		try {
			vp::run_case(c);
		} catch (const vp::Violation& v) {
			if (verbose || one >= 0) printf("violation case=%ld key=%s: %s\n", k, v.key.c_str(), v.msg.c_str());
			if (keys.insert(v.key).second || viol.size() < 5) viol.push_back({std::to_string(k), v.key, v.msg + " [" + c.sample + "]"});
			c.nontrivial = true;
		} catch (const std::exception& e) {
			viol.push_back({std::to_string(k), "exception", std::string(e.what()) + " [" + c.sample + "]"});
			if (verbose || one >= 0) printf("violation case=%ld key=exception: %s\n", k, e.what());
		}
		cases++;
		if (c.nontrivial) sigs.insert(c.sig);
		if (samples.size() < 3 && c.nontrivial && !c.sample.empty() && (cases % 7) == 1) samples.push_back(vp::fmt("case %ld: ", k) + c.sample);
		if (viol.size() >= 12) break;
	}
	if (prog) prog[0] = -1;
	if (!out.empty()) write_out(out, viol, cases, sigs, samples);
	fflush(stdout);
	_exit(viol.empty() ? 0 : 1);
}
