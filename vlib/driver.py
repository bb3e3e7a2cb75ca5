"""Runs the stages of a check, classifies what the monitors reported, writes the evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from . import build, races

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

BASE_ENV = {
    "OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0", "OMP_DYNAMIC": "false", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "LSAN_OPTIONS": "exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:die_after_fork=0:history_size=6:report_signal_unsafe=0",
}
DROP_ENV = ("OMP_NUM_THREADS", "OMP_SCHEDULE", "OMP_THREAD_LIMIT", "OMP_PROC_BIND", "OMP_PLACES", "GOMP_CPU_AFFINITY", "LD_PRELOAD")

def clean_env(extra=None):
    e = dict(os.environ)
    for k in DROP_ENV:
        e.pop(k, None)
    e.update(BASE_ENV)
    if extra:
        e.update(extra)
    return e

class HarnessError(Exception):
    pass

class Stage:
    """One workload x one instrumented build."""
    def __init__(self, variant, q, t, prop=None, mode=0, timeout=120, kinds=("oracle", "crash", "hang"), maxthreads=8, jobs=8, flags=(), env=None, minimum=0.2, keymap=None, name=None, sources=None):
        self.variant, self.q, self.t, self.prop, self.mode = variant, q, t, prop, mode
        self.timeout, self.kinds, self.maxthreads, self.jobs = timeout, kinds, maxthreads, jobs
        self.flags, self.env, self.minimum = list(flags), env or {}, minimum
        self.name = name

SOURCES = ["mon.cpp", "gen.cpp", "files.cpp", "p_ech.cpp", "p_basic.cpp", "p_struct.cpp", "p_linalg.cpp"]

def sources():
    s = list(SOURCES)
    for x in ("p_cross.cpp", "p_huge.cpp", "p_large.cpp"):
        if os.path.exists(os.path.join(VERIF, "src", x)):
            s.append(x)
    return s

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+) (\S+?):(\d+)")
def classify_log(text):
    """a stable key for a crash log: what happened and in which function of /repo"""
    m = re.search(r"Assertion [`'\"](.*?)' failed", text)
    if m:
        f = re.search(r"(\w+\.\w+):\d+: (\w+): Assertion", text)
        return "assert:%s:%s" % (f.group(2) if f else "?", m.group(1)[:80])
    what = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    if m:
        what = m.group(2)
    m2 = re.search(r"([\w./-]+):(\d+):\d+: runtime error: (.*)", text)
    if m2:
        what = "ub:" + re.sub(r"-?\d[\w.+]*", "N", m2.group(3))[:80]
    if what is None:
        return None
    pos = text.find("runtime error") if m2 else text.find("ERROR: ")
    fn = "?"
    for f in FRAME.finditer(text, pos):
        if "/src/spasm" in f.group(2) or "/src/mmio" in f.group(2) or "/src/sha" in f.group(2) or "/tools/" in f.group(2) or os.path.join(build.REPO, "src") in f.group(2):
            if "/verif/" not in f.group(2):
                fn = f.group(1)
                break
    return "%s in %s" % (what, fn)

SUPP = os.path.join(VERIF, "src", "rt", "valgrind.supp")
def vg_prefix(log=None):
    return ["valgrind", "-q", "--suppressions=" + SUPP, "--fair-sched=no", "--num-callers=24", "--fullpath-after="] + (["--log-file=" + log] if log else [])

def memcheck_error(text):
    """the first reported error with a frame of /repo's own code: (key, block)"""
    for block in re.split(r"==\d+== \n", text):
        lines = [re.sub(r"^==\d+== ?", "", l) for l in block.splitlines()]
        if not lines or not any(l.strip().startswith("at 0x") for l in lines):
            continue
        m = re.search(r"(?:at|by) 0x[0-9A-F]+: (.*?) \(" + re.escape(build.REPO) + r"/\S*?:\d+\)", block)
        if m:
            return "memcheck: %s in %s" % (re.sub(r"\d+", "N", lines[0].strip()), m.group(1)), block
    return None, ""

def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []      # dict(key, msg, desc, replay-info)
        self.inconclusive = []
        self.hung = False         # a hang was confirmed
        self.counters = {}
        self.samples = []
        self.evaluations = 0
        self.distinct = 0
        self.stage_info = []
        os.makedirs(os.path.join(build.BUILD, "run"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(build.BUILD, "run"))

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def add_counters(self, d, prefix=""):
        for k, v in d.items():
            if k.startswith("max:"):
                self.counters[prefix + k] = max(self.counters.get(prefix + k, 0), v)
            else:
                self.counters[prefix + k] = self.counters.get(prefix + k, 0) + v

    def violation(self, key, msg, desc="", log="", replay=None):
        self.violations.append(dict(key=key, msg=msg, desc=desc, log=log, replay=replay or {}))

    # ---- harness stages ---------------------------------------------------------------------
    def run_stage(self, k, st, binary):
        n = st.t if self.tier == "thorough" else st.q
        if n <= 0:
            return
        prop = st.prop or self.pid
        seed = (self.seed * 64 + k) % (1 << 62)
        out = os.path.join(self.scratch, "s%d" % k)
        pre = []
        if st.variant == "valgrind":
            pre = vg_prefix(os.path.join(self.scratch, "vg.%p"))
        cmd = pre + [binary, "--prop", prop, "--seed", str(seed), "--mode", str(st.mode), "--maxthreads", str(st.maxthreads)] + st.flags
        if self.tier == "thorough":
            cmd.append("--thorough")
        env = clean_env(st.env)
        t = time.time()
        full = cmd + ["--cases", str(n), "--jobs", str(st.jobs), "--timeout", str(st.timeout), "--out", out]
        r = subprocess.run(full, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise HarnessError("stage %d of %s: runner ended with %d: %s" % (k, self.pid, r.returncode, r.stdout.decode(errors="replace")[-1000:]))
        summ = json.load(open(os.path.join(out, "summary.json")))
        c = summ["counters"]
        recs = [json.loads(l) for l in open(os.path.join(out, "viol.jsonl"))]
        ign = 0
        for rec in recs:
            if not self._accept(rec, st, cmd, env, k):
                ign += 1
        cases, nontriv = c.pop("cases", 0), c.pop("nontrivial", 0)
        dist = c.pop("distinct:nontrivial-cases", 0)
        self.evaluations += cases
        self.distinct += dist
        self.add_counters(c)
        self.samples += [s for s in summ["samples"]][: 3 if k == 0 else 1]
        self.stage_info.append(dict(stage=k, build=st.variant, workload=prop, mode=st.mode, cases=cases, nontrivial=nontriv, distinct_nontrivial=dist, reports=len(recs) - ign, wall_s=round(time.time() - t, 1)))
        recs = [x for x in recs if x["kind"] != "race"]
        if not recs and cases < n:
            raise HarnessError("stage %d of %s: only %d of %d cases were run" % (k, self.pid, cases, n))
        if not recs and nontriv < st.minimum * cases:
            raise HarnessError("stage %d of %s observed too little: %d non-trivial cases of %d" % (k, self.pid, nontriv, cases))
        shutil.rmtree(out, ignore_errors=True)

    def _accept(self, rec, st, cmd, env, k):
        cmd = [x for x in cmd if not x.startswith("--log-file=")]
        log = ""
        if rec.get("log") and os.path.exists(rec["log"]):
            log = open(rec["log"], errors="replace").read()
        kind, key = rec["kind"], rec["key"]
        if kind == "race":
            dims = re.search(r"\b(\d+)x(\d+)\b", rec["desc"])
            bad = False
            for block in races.split(log):
                ok, key = races.judge(block, int(dims.group(2)) if dims else None)
                self.counters["race-reports: " + (key if ok else "other")] = self.counters.get("race-reports: " + (key if ok else "other"), 0) + 1
                if not ok and "race" in st.kinds:
                    self.violation(key, block.strip().split("\n")[0], rec["desc"], block, dict(build=st.variant, cmd=cmd + ["--case", str(rec["case"])], env=st.env, stage=k))
                    bad = True
            return bad
        if kind == "crash" and ("step budget exceeded" in log or "chaos scheduler: deadlock" in log):
            kind, key = "budget", "no progress"
        if kind not in st.kinds and not (kind == "budget" and "crash" in st.kinds):
            return False
        if kind == "crash" and key == "memcheck":
            key, log = memcheck_error(log)
            if key is None:
                self.counters["memcheck-reports-outside-the-library"] = self.counters.get("memcheck-reports-outside-the-library", 0) + 1
                return False
            self.violation(key, "valgrind: " + key, rec["desc"], log, dict(build=st.variant, cmd=cmd + ["--case", str(rec["case"])], env=st.env, stage=k))
            return True
        again = cmd + ["--case", str(rec["case"])]
        if kind == "hang" or (kind == "crash" and key == "signal 9"):
            # inconclusive so far: the machine may have been loaded or out of memory. Alone, with more time:
            if self.hung:
                self.inconclusive.append("case %d of stage %d: %s, not run again (another hang was confirmed)" % (rec["case"], k, key))
                return False
            try:
                r = subprocess.run(again, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=st.timeout * 2)
            except subprocess.TimeoutExpired:
                r = None
            if r is not None and r.returncode == 0:
                self.inconclusive.append("case %d of stage %d: %s, finished when run alone" % (rec["case"], k, key))
                return False
            if r is None:
                key = "hang"
                self.hung = True
            else:
                log = r.stdout.decode(errors="replace")
                key = "exit %d" % r.returncode
                if r.returncode == -9:
                    self.inconclusive.append("case %d of stage %d: killed twice" % (rec["case"], k))
                    return False
        if kind == "crash":
            key = classify_log(log) or key
        elif kind == "hang" and key != "hang":
            key = classify_log(log) or key
        self.violation(key, rec["msg"], rec["desc"], log[-6000:], dict(build=st.variant, cmd=again, env=st.env, stage=k))
        return True

    # ---- verdict -----------------------------------------------------------------------------
    def finish(self, rule, assumptions, extra=None):
        known = load_known()
        rc = 0
        seen_known, reported, seen = set(), 0, set()
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for old in os.listdir(os.path.join(EVID, "replay")):
            if old.startswith(self.pid + "-"):
                os.unlink(os.path.join(EVID, "replay", old))
        nv = 0
        for v in self.violations:
            hit = None
            for (p, rx, what) in known:
                if p == self.pid and re.search(rx, v["key"] + " @ " + v["desc"]):
                    hit = what
            if hit:
                if hit not in seen_known:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit))
                    seen_known.add(hit)
                continue
            nv += 1
            if v["key"] in seen and reported >= 3:
                continue
            seen.add(v["key"])
            reported += 1
            if reported > 8:
                continue
            path = os.path.join(EVID, "replay", "%s-%d.json" % (self.pid, reported))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, **v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  key: %s\n  what: %s\n  case: %s" % (v["key"], v["msg"][:800], v["desc"][:800]))
            rc = 1
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=rule, samples=self.samples[:8] or ["none"], observed=self.counters, stages=self.stage_info)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        if extra:
            cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=nv)
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        if rc == 0 and self.distinct == 0:
            raise HarnessError("nothing non-trivial was observed")
        print("%s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s" % (self.pid, self.evaluations, self.distinct, nv, time.time() - self.t0))
        return rc
