// C28: results depend only on the arguments, not on what the objects were used for before.
#include "tasks.h"
#include <sys/stat.h>
#include <unistd.h>

namespace vp {
const char* kRule = "one operation of the catalogue with generated arguments, done with fresh result objects, with result objects used by several other operations before, again on the same objects, and in a copied state; non-trivial when the objects had been used; signature = operation, arguments, former uses";
static const int ROUNDS = 8, FIRST = 5;
long fixed_cases() { return (long)nb_tasks() * ROUNDS; } // each operation as the first of a process
int extra_main(int n, char** a) {
	if (n < 3) return 3;
	std::string ch;
	uint64_t seed = strtoull(a[1], 0, 10);
	Digest D;
	for (int j = 0; j < FIRST; j++) { Work w; w.dir = a[2]; D.u(run_task(atoi(a[0]), Gen(seed + j), w, &ch)); }
	printf("\nDIGEST %llu\n", (unsigned long long)D.h);
	return 0;
}

static std::string sub(Ctx& c, const char* n) { std::string d = c.scratch + "/" + n; mkdir(d.c_str(), 0700); return d; }
static void wipe(const std::string& d) { for (const char* n : {"t.stl", "t.obj", "w.obj", "w.step", "i.bmp"}) unlink((d + "/" + n).c_str()); }

void run_case(Ctx& c) {
	Gen& g = c.g;
	int k = (int)(g.u64() % (uint64_t)nb_tasks());
	uint64_t seed = g.u64();
	bool first = c.index < fixed_cases();
	if (first) k = (int)(c.index % nb_tasks());
	std::string d1 = sub(c, "a"), d2 = sub(c, "b"), changed;
	wipe(d1); wipe(d2);
	auto fresh = [&](const std::string& d) { Work w; w.dir = d; return run_task(k, Gen(seed), w, &changed); };
	// the same choices with reals moved a little (q) or much (far)
	bool near0 = g.b(0.5);
	Gen q(seed), far(seed);
	far.jit = g.u(0.05, 0.3); far.ijit = g.b() ? 0 : 20; far.js = seed;
	if (g.b(0.7)) q.jit = g.logu(1e-13, 1e-3);
	if (q.jit == 0 || g.b(0.3)) { q.ijit = g.i(3, 40); q.js = g.u64(); }
	auto other = [&](Gen a) { Work x; x.dir = d2; return run_task(k, a, x, &changed); };
	uint64_t near = 0;
	if (near0) { near = other(q); if (g.b(0.8)) other(far); changed.clear(); }
	uint64_t want = fresh(d1);
	VP_CHECK(changed.empty(), "input-changed", "%s: %s was changed", task_name(k), changed.c_str());
	c.mix((uint64_t)k); c.mix(want);
	c.count(task_name(k));
	// objects and files used before for anything
	Work w; w.dir = d2;
	int before = g.size(1, 6); std::string uses;
	if (g.b(0.5)) { odd_states(g, w); c.count("odd states"); }
	for (int j = 0; j < before; j++) {
		int o = g.b(0.35) ? k : (int)(g.u64() % (uint64_t)nb_tasks()); // often the same operation with other arguments
		changed.clear();
		run_task(o, Gen(g.u64()), w, &changed);
		VP_CHECK(changed.empty(), "input-changed", "%s with used objects: %s was changed", task_name(o), changed.c_str());
		uses += std::string(j ? ", " : "") + task_name(o); c.mix((uint64_t)o);
	}
	if (g.b(0.3)) { odd_states(g, w); c.count("odd states"); uses += ", odd states"; }
	c.nontrivial = true;
	c.count("former uses", before);
	c.desc("%s after %s", task_name(k), uses.c_str());
	uint64_t got = run_task(k, Gen(seed), w, &changed);
	VP_CHECK(changed.empty(), "input-changed", "%s with used objects: %s was changed", task_name(k), changed.c_str());
	VP_CHECK(got == want, "history", "%s gives another result when its objects were used before for: %s", task_name(k), uses.c_str());
	int n = g.i(1, 3);
	for (int j = 0; j < n; j++) {
		got = run_task(k, Gen(seed), w, &changed);
		VP_CHECK(changed.empty(), "input-changed", "%s repeated: %s was changed", task_name(k), changed.c_str());
		VP_CHECK(got == want, "repetition", "%s gives another result when repeated with the same arguments (time %d)", task_name(k), j + 2);
		c.count("repetitions");
	}
	// nor does the same operation with nearly the same arguments
	if (near0) {
		for (int j = 0; j < 2; j++) {
			got = other(q);
			VP_CHECK(got == near, "near-arguments", "%s gives another result just after the same operation with nearly the same arguments (reals moved by %g)", task_name(k), q.jit);
			if (j) other(far);
			got = fresh(d1);
			VP_CHECK(got == want, "near-arguments", "%s gives another result after the same operation with nearly the same arguments (reals moved by %g)", task_name(k), q.jit);
		}
		if (near != want) c.count("nearly the same arguments");
	}
	if (first) {
		std::string d3 = sub(c, "x"), out; wipe(d3);
		Digest all; // in another order here
		std::vector<uint64_t> hs(FIRST);
		for (int j = FIRST - 1; j >= 0; j--) { Work x; x.dir = d3; hs[j] = run_task(k, Gen(seed + j), x, &changed); }
		for (uint64_t h : hs) all.u(h);
		VP_CHECK(hs[0] == want, "process-history", "%s gives another result with fresh objects later in the process", task_name(k));
		wipe(d3);
		int rc = run_extra({std::to_string(k), std::to_string(seed), d3}, &out);
		size_t at = out.rfind("\nDIGEST ");
		VP_CHECK(rc == 0 && at != std::string::npos, "first-use", "%s alone in a new process ends with %d", task_name(k), rc);
		VP_CHECK(strtoull(out.c_str() + at + 8, 0, 10) == all.h, "first-use", "%s gives another result in a new process", task_name(k));
		wipe(d3); c.count("new processes");
	}
	// nothing that was done in the process in between matters
	got = fresh(d1);
	VP_CHECK(got == want, "process-history", "%s gives another result with fresh objects later in the process, after: %s", task_name(k), uses.c_str());
	c.count("later in the process");
}
} // namespace vp
