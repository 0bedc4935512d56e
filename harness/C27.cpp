// C27: threads on different objects, and readers of the same unmodified object, never interfere.
// Built with the thread sanitizer: a data race ends the process with a report.
#include "tasks.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace vp {
const char* kRule = "2 to 6 threads each doing a list of operations of the catalogue on objects and files of its own, and/or reading shared objects that nobody modifies, with random pauses; every digest is compared with the one of the same operation done alone; non-trivial when operations of two threads overlapped; signature = the lists and the order in which operations started";
static const int ROUNDS = 4;
long fixed_cases() { return (long)(nb_tasks() + nb_shared()) * ROUNDS; } // each operation first used by several threads of a process
int extra_main(int n, char** a) {
	if (n < 4) return 3;
	int k = atoi(a[0]); uint64_t seed = strtoull(a[1], 0, 10); int same = atoi(a[2]); std::string dir = a[3];
	const int T = 4;
	Shared sh; Gen gs(seed + 77); bool shared = k >= nb_tasks();
	if (shared) sh.make(gs);
	std::atomic<int> ready{0};
	const int N = 8; uint64_t got[T][N];
	auto one = [&](int t, int j, const std::string& d) { std::string ch; Gen g(seed + (uint64_t)(same ? j : (j + t) % N)); if (shared) return read_shared(sh, k - nb_tasks(), g, d); Work w; w.dir = d; return run_task(k, g, w, &ch); };
	std::vector<std::thread> th;
	for (int t = 0; t < T; t++) { std::string d = dir + fmt("/t%d", t); mkdir(d.c_str(), 0700); th.emplace_back([&, t, d] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {} for (int j = 0; j < N; j++) got[t][j] = one(t, j, d); }); }
	for (auto& t : th) t.join();
	for (int t = 0; t < T; t++) for (int j = 0; j < N; j++) if (one(t, j, dir + fmt("/t%d", t)) != got[t][j]) { printf("\nINTERFERENCE thread %d\n", t); return 9; }
	printf("\nDONE\n");
	return 0;
}

struct Op { bool shared; int k; uint64_t seed; int pause; uint64_t want; uint64_t got; };

void run_case(Ctx& c) {
	Gen& g = c.g;
	if (c.index < fixed_cases()) {
		int k = (int)(c.index % (nb_tasks() + nb_shared())), same = g.b(0.7); uint64_t seed = g.u64() >> 1;
		const char* nm = k < nb_tasks() ? task_name(k) : shared_name(k - nb_tasks());
		std::string d = c.scratch + "/first", out; mkdir(d.c_str(), 0700);
		int rc = run_extra({std::to_string(k), std::to_string(seed), std::to_string(same), d}, &out);
		c.mix((uint64_t)k); c.mix(seed); c.nontrivial = true;
		c.desc("%s first used by 4 threads of a new process", nm);
		VP_CHECK(out.find("\nINTERFERENCE") == std::string::npos, "first-use", "%s, first used by several threads: another result than alone", nm);
		VP_CHECK(rc == 0 && out.find("\nDONE") != std::string::npos, "first-use", "%s, first used by several threads of a process: it ends with %d%s", nm, rc, rc == 77 ? " (report of the sanitizer: data race)" : "");
		c.count("first uses by several threads");
		return;
	}
	int nt = g.i(2, 6), mode = g.i(0, 3); // 0: the same operation everywhere, 1: mix, 2: readers, 3: all
	int k0 = (int)(g.u64() % (uint64_t)nb_tasks()), s0 = (int)(g.u64() % (uint64_t)nb_shared());
	Shared sh; sh.make(g);
	uint64_t shTag = g.u64();
	std::vector<std::vector<Op>> ops(nt);
	for (int t = 0; t < nt; t++) {
		int n = g.i(2, 6);
		for (int j = 0; j < n; j++) {
			Op o; o.shared = mode == 2 || (mode == 3 && g.b());
			o.k = o.shared ? (g.b(0.4) ? s0 : (int)(g.u64() % (uint64_t)nb_shared())) : (mode == 0 || g.b(0.3)) ? k0 : (int)(g.u64() % (uint64_t)nb_tasks());
			o.seed = g.u64(); o.pause = g.i(0, 4) ? 0 : g.i(1, 60); o.want = o.got = 0; ops[t].push_back(o);
			c.mix((uint64_t)o.k * 2 + o.shared);
		}
		std::string d = c.scratch + fmt("/t%d", t); mkdir(d.c_str(), 0700);
	}
	c.mix(shTag);
	auto doOp = [&](Op& o, Work& w, const std::string& d) {
		std::string ch;
		return o.shared ? read_shared(sh, o.k, Gen(o.seed), d) : run_task(o.k, Gen(o.seed), w, &ch);
	};
	auto alone = [&] { for (int t = 0; t < nt; t++) { Work w; w.dir = c.scratch + fmt("/t%d", t); for (auto& o : ops[t]) o.want = doOp(o, w, w.dir); } };
	bool first = g.b(0.7); // in the other cases the threads come first, before anything was used
	if (first) alone();
	std::atomic<int> ready{0}, running{0}, overlaps{0}, seq{0};
	std::vector<std::vector<int>> order(nt);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		Work w; w.dir = c.scratch + fmt("/t%d", t);
		ready.fetch_add(1, std::memory_order_relaxed);
		while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
		for (auto& o : ops[t]) {
			for (int p = 0; p < o.pause; p++) sched_yield();
			order[t].push_back(seq.fetch_add(1, std::memory_order_relaxed)); // relaxed: the counters must not order the operations
			if (running.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed);
			o.got = doOp(o, w, w.dir);
			running.fetch_sub(1, std::memory_order_relaxed);
		}
	});
	for (auto& t : th) t.join();
	if (!first) alone();
	long nops = 0;
	std::vector<std::pair<int, int>> sched;
	for (int t = 0; t < nt; t++) for (size_t j = 0; j < ops[t].size(); j++) {
		Op& o = ops[t][j]; nops++;
		sched.push_back({order[t][j], t});
		VP_CHECK(o.got == o.want, "interference", "thread %d of %d, operation %zu (%s%s): another result than alone", t, nt, j, o.shared ? "shared: " : "", o.shared ? shared_name(o.k) : task_name(o.k));
		c.count(o.shared ? fmt("shared: %s", shared_name(o.k)).c_str() : task_name(o.k));
	}
	std::sort(sched.begin(), sched.end());
	for (auto& p : sched) c.mix((uint64_t)p.second + 1);
	c.count("operations", nops); c.count("threads", nt); c.count("overlapping operations", overlaps.load());
	c.count(mode == 0 ? "same operation everywhere" : mode == 1 ? "mixed operations" : mode == 2 ? "readers only" : "readers and workers");
	c.nontrivial = overlaps.load() > 0;
	c.desc("%d threads, %ld operations, %d overlapping", nt, nops, overlaps.load());
}
} // namespace vp
