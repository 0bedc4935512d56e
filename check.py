#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [--seed N] [--case K] [--jobs N]

Builds /repo's current tree with sanitizers, runs the monitor of one property
over generated executions, writes evidence/<property>.json.
Exit 0: held on everything observed. 1: VIOLATION line printed. 2: no answer."""
import fcntl, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
STALL = 45          # s without progress inside one case before it is re-run alone
ALONE = 170         # s a case run alone may take before it is called a hang
BUDGET = dict(quick=560, thorough=6 * 3600)


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def digest(top, exts):
    h = hashlib.sha1()
    for base, dirs, names in os.walk(top):
        dirs.sort()
        for n in sorted(names):
            if n.endswith(exts):
                p = os.path.join(base, n)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as f:
                    h.update(hashlib.sha1(f.read()).digest())
    return h.hexdigest()


def refresh(d):
    """Ninja compares times; a file put back with an old time must be rebuilt too, so compare contents."""
    src = os.path.join(REPO, "src")
    now = [digest(src, (".cpp", ".c", ".txt", ".cmake")), digest(src, (".h", ".hpp", ".inl")) + digest(os.path.join(HERE, "harness"), (".h", ".cpp", ".txt"))]
    rec = os.path.join(d, "contents.json")
    try:
        old = json.load(open(rec))
    except Exception:
        old = [None, None]
    if old != now:
        top = d if old[1] != now[1] else os.path.join(d, "lib")
        for base, _, names in os.walk(top):
            for n in names:
                if n.endswith(".o"):
                    os.unlink(os.path.join(base, n))
        with open(rec, "w") as f:
            json.dump(now, f)


def build(flavor, target):
    d = os.path.join(BUILD, flavor + "-" + hashlib.sha1(REPO.encode()).hexdigest()[:6])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        refresh(d)
        env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        log = os.path.join(d, "build-%s.log" % target)
        for attempt in (0, 1):
            with open(log, "w") as f:
                rc = subprocess.call(["cmake", "-S", os.path.join(HERE, "harness"), "-B", d, "-G", "Ninja",
                                      "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang",
                                      "-DVP_FLAVOR=" + flavor, "-DVP_REPO=" + REPO], stdout=f, stderr=f, env=env)
                if rc == 0:
                    rc = subprocess.call(["ninja", "-C", d, target], stdout=f, stderr=f, env=env)
            if rc == 0:
                break
            if attempt == 0:  # a stale build directory must not be an alarm
                for n in ("CMakeCache.txt", "build.ninja"):
                    try:
                        os.unlink(os.path.join(d, n))
                    except OSError:
                        pass
        if rc != 0:
            print(open(log).read()[-3000:])
            die("build failed")
    return os.path.join(d, target)


def literals(path):
    """Numeric literals of the sources: used as interesting values by the generators."""
    ints, reals = set(), set()
    src = os.path.join(REPO, "src")
    for n in sorted(os.listdir(src)):
        if n.endswith((".cpp", ".h")):
            s = open(os.path.join(src, n), encoding="latin-1").read()
            s = re.sub(r"//[^\n]*|/\*.*?\*/|\"[^\"\n]*\"", " ", s, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+)[uUlLfF]*(?![\w.])", s):
                t = m.group(1)
                try:
                    if t.lower().startswith("0x"):
                        ints.add(int(t, 16))
                    elif re.fullmatch(r"\d+", t):
                        ints.add(int(t))
                    else:
                        reals.add(float(t))
                except ValueError:
                    pass
            for m in re.finditer(r"(?<![\w.])(\d{1,9})\s*(<<|\*)\s*(\d{1,9})(?![\w.])", s):  # 1 << 16, 64 * 1024
                a, b = int(m.group(1)), int(m.group(3))
                ints.add(a * b if m.group(2) == "*" else (a << b if b < 31 else 0))
            for m in re.finditer(r"'([^'\\])'", s):
                ints.add(ord(m.group(1)))
    with open(path, "w") as f:
        for v in sorted(ints):
            if 2 < v < 2 ** 31:
                f.write("i %d\n" % v)
        for v in sorted(reals | {float(i) for i in ints if 0 < i < 1000}):
            if v not in (0.,):
                f.write("r %r\n" % v)


def known(pid):
    k = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                k.append((m.group(2), m.group(3)))
    return k


def crash_key(err, rc):
    m = re.search(r"SUMMARY: (\w+)Sanitizer: (\S+)(?:.* in (.*))?", err)
    a = re.search(r"([\w.]+): ?\d+: (.*): Assertion [`'](.*)' failed", err)
    if a:
        return "assertion:" + re.sub(r"\W+", "_", a.group(1) + ":" + a.group(3))[:80]
    u = re.search(r"/([\w.]+):\d+:\d+: runtime error: (.*)", err)
    if u:
        return "undefined-behaviour:" + re.sub(r"\W+", "_", u.group(1) + ":" + re.sub(r"[-+\d.e]+", "", u.group(2)))[:90]
    if "hard rss limit" in err or "out-of-memory" in err or "allocation-size-too-big" in err or "bad_alloc" in err or "calloc-overflow" in err:
        return "memory-exhaustion"
    if m:
        return (m.group(1) + ":" + m.group(2) + ":" + re.sub(r"\W+", "_", m.group(3) or ""))[:100]
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


class Worker:
    def __init__(self, run, w, frm):
        self.run, self.w, self.frm = run, w, frm
        self.start()

    def start(self):
        r = self.run
        self.out = os.path.join(r.tmp, "out-%d-%d.json" % (self.w, self.frm))
        self.progf = os.path.join(r.tmp, "prog-%d-%d" % (self.w, self.frm))
        self.errf = os.path.join(r.tmp, "err-%d-%d" % (self.w, self.frm))
        self.scratch = os.path.join(r.tmp, "s%d" % self.w)
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        with open(self.progf, "wb") as f:
            f.write(struct.pack("q", self.frm) + b"\0" * 56)
        self.proc = r.spawn(["--from", str(self.frm), "--to", str(r.total), "--step", str(r.jobs), "--out", self.out,
                             "--progress", self.progf, "--scratch", self.scratch], self.errf)
        self.last, self.since = self.frm, time.time()

    def progress(self):
        try:
            with open(self.progf, "rb") as f:
                return struct.unpack("q", f.read(8))[0]
        except Exception:
            return self.frm


class Run:
    def __init__(self, pid, tier, seed, jobs):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.jobs = jobs or self.cfg.get("jobs", 8)
        self.total = self.cfg[tier]
        self.flavor = self.cfg.get("flavor", "asan")
        self.exe = build(self.flavor, pid)
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        os.chmod(self.tmp, 0o755)
        self.dict = os.path.join(self.tmp, "dict")
        literals(self.dict)
        self.viol = []  # (case, key, msg)
        self.inconclusive = []

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:allocator_may_return_null=0:handle_abort=1:max_malloc_fill_size=1048576:strict_string_checks=1:detect_odr_violation=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4"
        return e

    def spawn(self, args, errf):
        cmd = [self.exe, "--seed", str(self.seed), "--dict", self.dict] + args
        if self.tier == "thorough":
            cmd.append("--thorough")
        with open(errf, "wb") as f:
            return subprocess.Popen(cmd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=self.env(), cwd=self.tmp)

    def alone(self, case, limit):
        """run one case in its own process -> (rc or None on timeout, output)"""
        s = os.path.join(self.tmp, "alone")
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        errf = os.path.join(self.tmp, "alone.err")
        p = self.spawn(["--case", str(case), "--scratch", s], errf)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        return rc, open(errf, errors="replace").read()

    def go(self):
        t0 = time.time()
        pending = [Worker(self, w, w) for w in range(self.jobs)]
        outs, crashes = [], 0
        harness_error = None
        while pending:
            time.sleep(0.02)
            for wk in list(pending):
                rc = wk.proc.poll()
                if rc is None:
                    p = wk.progress()
                    if p != wk.last:
                        wk.last, wk.since = p, time.time()
                    elif time.time() - wk.since > STALL:
                        wk.proc.kill()
                        wk.proc.wait()
                        pending.remove(wk)
                        arc, aout = self.alone(p, ALONE)
                        if arc is None:
                            self.viol.append((p, "hang", "the case does not end (%d s alone)" % ALONE))
                        elif arc != 0:
                            self.viol.append((p, crash_key(aout, arc), aout[-3000:]))
                        else:
                            self.inconclusive.append("case %d stalled once, ended when run alone" % p)
                        if p + self.jobs < self.total and not self.viol:
                            pending.append(Worker(self, wk.w, p + self.jobs))
                    continue
                pending.remove(wk)
                err = open(wk.errf, errors="replace").read()
                if rc in (0, 1) and os.path.exists(wk.out):
                    outs.append(wk.out)
                    continue
                if rc == 3 or "HARNESS:" in err:
                    harness_error = err[-2000:] or "harness exit 3"
                    continue
                case = wk.progress()
                crashes += 1
                if rc == -signal.SIGKILL and "rss limit" not in err:
                    arc, aout = self.alone(case, ALONE)
                    if arc is None:
                        self.viol.append((case, "hang", "does not end"))
                    elif arc != 0:
                        self.viol.append((case, crash_key(aout, arc), aout[-3000:]))
                    else:
                        self.inconclusive.append("worker killed at case %d" % case)
                else:
                    self.viol.append((case, crash_key(err, rc), err[-4000:]))
                if crashes < 10 and case + self.jobs < self.total and case >= 0:
                    pending.append(Worker(self, wk.w, case + self.jobs))
            if (self.viol and time.time() - t0 > 240) or time.time() - t0 > BUDGET[self.tier]:
                for wk in pending:
                    wk.proc.kill()
                    wk.proc.wait()
                if not self.viol:
                    self.inconclusive.append("stopped at the time budget")
                pending = []
        # merge
        cov = dict(cases=0, sigs=set(), counts={}, samples=[], edges=0, edges_total=0, functions=0, functions_total=0, rule="")
        bits = fbits = 0
        for o in outs:
            d = json.load(open(o))
            cov["cases"] += d["cases"]
            cov["sigs"].update(d["sigs"])
            cov["rule"] = d["rule"]
            for k, v in d["counts"].items():
                cov["counts"][k] = cov["counts"].get(k, 0) + v
            cov["samples"] += d["samples"]
            if d["edges"]:
                bits |= int(d["edges"], 16)
            if d["functions"]:
                fbits |= int("1" + d["functions"], 2)
            cov["edges_total"], cov["functions_total"] = d["edges_total"], d["functions_total"]
            for v in d["violations"]:
                self.viol.append((int(v["case"]), v["key"], v["msg"]))
        cov["edges"] = bin(bits).count("1")
        cov["functions"] = max(0, bin(fbits).count("1") - 1)
        self.wall = time.time() - t0
        if harness_error and not self.viol:
            die("harness: " + harness_error)
        return cov

    def finish(self, cov):
        ed = os.path.join(HERE, "evidence")
        rd = os.path.join(ed, "replay")
        os.makedirs(rd, exist_ok=True)
        kn = known(self.pid)
        real, seen = {}, {}
        for case, key, msg in sorted(self.viol, key=lambda v: v[0]):
            hit = [k for k in kn if k[0] == key]
            if hit:
                seen.setdefault(key, hit[0][1])
            else:
                real.setdefault(key, (case, msg))
        lines = []
        for key, (case, msg) in real.items():
            path = os.path.join(rd, "%s-%s.txt" % (self.pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write("property %s violated\nkey: %s\ncase: %d  seed: %d  tier: %s\nreplay: cd /verif && python3 check.py %s %s --seed %d --case %d\n\n%s\n"
                        % (self.pid, key, case, self.seed, self.tier, self.pid, self.tier, self.seed, case, msg))
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s: case %d: %s" % (key, case, msg.strip()[:600]))
        cfg = self.cfg
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=cfg["level"],
                  coverage=dict(evaluations=cov["cases"], distinct_nontrivial=len(cov["sigs"]), rule=cov["rule"],
                                samples=cov["samples"][:6] or ["(none)"],
                                observed=cov["counts"],
                                library_edges_executed=cov["edges"], library_edges_instrumented=cov["edges_total"],
                                library_functions_entered=cov["functions"], library_functions_instrumented=cov["functions_total"],
                                sanitizers=("thread" if self.flavor == "tsan" else "address, undefined, float-cast-overflow"),
                                known_findings_seen=sorted(seen), notes=self.inconclusive),
                  assumptions=cfg.get("assumptions", []), wall_s=round(self.wall, 2), violations=len(real))
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key, text in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d/%d library edges, %.1f s" %
              (self.pid, self.tier, self.seed, cov["cases"], len(cov["sigs"]), cov["edges"], cov["edges_total"], self.wall))
        for n in self.inconclusive:
            print("note:", n)
        if lines:
            for line in lines:
                print(line)
            return 1
        if cov["cases"] == 0 or len(cov["sigs"]) * 50 < cov["cases"] or cov["cases"] * 5 < self.total:
            print("ERROR: too little was observed")
            return 2
        missing = [k for k in cfg.get("must_observe", []) if not cov["counts"].get(k)]
        if missing:
            print("ERROR: never observed:", ", ".join(missing))
            return 2
        return 0


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    while a:
        x = a.pop(0)
        if x.startswith("--"):
            opt[x[2:]] = int(a.pop(0))
        else:
            pos.append(x)
    if not pos or pos[0] not in CHECKS:
        die("usage: " + __doc__)
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        die("unknown tier")
    try:
        seed = opt.get("seed", int(os.environ.get("VERIF_SEED", "1") or "1"))
    except ValueError:
        seed = 1
    r = Run(pos[0], tier, seed, opt.get("jobs"))
    rc = 2
    try:
        if "case" in opt:
            code, out = r.alone(opt["case"], 600)
            print(out)
            print("exit", code)
            rc = 0 if code == 0 else 1
        else:
            rc = r.finish(r.go())
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
