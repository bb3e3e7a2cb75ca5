// Runner: workers, shared counters, crash/hang attribution.
#include "mon.hpp"
#include <atomic>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

struct Counter { std::atomic<int> used; char name[60]; std::atomic<ru64> v; };
struct Slot { std::atomic<long> cur; std::atomic<ru64> start; };
static const int NCOUNT = 1024, NSLOT = 64, NSAMPLE = 8, SAMPLELEN = 1600;
static const ru64 NDIST = 1 << 21;
struct Shared {
	std::atomic<long> next; long limit;
	std::atomic<int> nviol;
	std::atomic<int> nsample;
	char sample[NSAMPLE][SAMPLELEN];
	Counter cnt[NCOUNT];
	Slot slot[NSLOT];
	std::atomic<ru64> dist[NDIST];
};
static Shared *SH;
static std::string outdir;
static int viol_fd = -1;
static std::map<std::string, PropFn> &registry() { static std::map<std::string, PropFn> r; return r; }
PropReg::PropReg(const char *id, PropFn f) { registry()[id] = f; }

std::string strf(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char buf[4096];
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}
static ru64 now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (ru64)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static ru64 strhash(const char *s) { ru64 h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

static Counter *find_counter(const char *name)
{
	ru64 h = strhash(name);
	for (int k = 0; k < NCOUNT; k++) {
		Counter &c = SH->cnt[(h + k) % NCOUNT];
		int u = c.used.load();
		if (u == 0) {
			int e = 0;
			if (c.used.compare_exchange_strong(e, 1)) {
				strncpy(c.name, name, sizeof c.name - 1);
				c.used.store(2);
				return &c;
			}
		}
		for (int spin = 0; c.used.load() == 1 && spin < 10000; spin++) usleep(100);   // another worker is writing the name
		if (!strncmp(c.name, name, sizeof c.name - 1)) return &c;
	}
	return nullptr;
}
void count_event(const char *name, ru64 n) { if (!SH) return; Counter *c = find_counter(name); if (c) c->v += n; }
void max_event(const char *name, ru64 n) { if (!SH) return; Counter *c = find_counter(name); if (!c) return; ru64 o = c->v.load(); while (o < n && !c->v.compare_exchange_weak(o, n)) ; }
void distinct(const char *name, ru64 value)
{
	if (!SH) return;
	ru64 key = mix64(strhash(name), value) | 1;
	for (ru64 k = 0; k < 64; k++) {
		std::atomic<ru64> &s = SH->dist[(key + k) % NDIST];
		ru64 e = 0;
		if (s.compare_exchange_strong(e, key)) { count_event((std::string("distinct:") + name).c_str()); return; }
		if (e == key) return;
	}
}

static std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch);
		else o += ch;
	}
	return o;
}

static void record(const std::string &prop, long idx, const std::string &kind, const std::string &key, const std::string &msg, const std::string &desc, const std::string &log)
{
	if (SH) SH->nviol++;
	std::string line = "{\"property\":\"" + prop + "\",\"case\":" + std::to_string(idx) + ",\"kind\":\"" + kind + "\",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg) + "\",\"desc\":\"" + jesc(desc) + "\",\"log\":\"" + jesc(log) + "\"}\n";
	if (viol_fd >= 0) { ssize_t r = write(viol_fd, line.data(), line.size()); (void)r; }
	else { fflush(stderr); printf("FAIL %s", line.c_str()); fflush(stdout); }
}

void Case::note(const std::string &s) { if (!desc.empty()) desc += "; "; desc += s; if (verbose) { printf("NOTE %s\n", s.c_str()); fflush(stdout); } }
void Case::fail(const std::string &key, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char buf[2048];
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (nviol++ < 3) record(prop, idx, "oracle", key, buf, desc, "");
}
int Case::pick_threads()
{
	static const int w[] = {1, 2, 2, 3, 4, 4, 8, 8};
	int t = w[rng.below(8)];
	if (t > maxthreads) t = maxthreads;
	omp_set_num_threads(t);
	note(strf("threads=%d", t));
	return t;
}

#include <valgrind/valgrind.h>
// ---- children -----------------------------------------------------------------------------------
static std::vector<std::pair<void *, size_t>> shared_blocks;
void *shared_alloc(size_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
	shared_blocks.push_back({p, n});
	return p;
}
static void shared_release() { for (auto &b : shared_blocks) munmap(b.first, b.second); shared_blocks.clear(); }
std::string Child::summary() const
{
	std::string s = hung ? "hung" : signaled ? strf("signal %d", sig) : strf("exit %d", code);
	if (sanitizer) s += " (sanitizer report)";
	return s;
}
// under valgrind: a child that made the tool report an error must not look clean, however it ends
static unsigned child_vg0;
static void child_vg_exit() { if (VALGRIND_COUNT_ERRORS > child_vg0) { fflush(stderr); _exit(77); } }
Child run_child(const std::function<int()> &fn, double timeout_s)
{
	Child r;
	fflush(stderr); fflush(stdout);
	int fd = memfd_create("childerr", 0);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(99); }
	if (pid == 0) {
		dup2(fd, 2);
		setvbuf(stderr, NULL, _IONBF, 0);
		if (RUNNING_ON_VALGRIND) { child_vg0 = VALGRIND_COUNT_ERRORS; atexit(child_vg_exit); }
		int rc = fn();
		fflush(stderr);
		if (RUNNING_ON_VALGRIND) child_vg_exit();
		_exit(rc);
	}
	ru64 deadline = now_ms() + (ru64)(timeout_s * 1000);
	int st = 0; unsigned us = 50;
	for (;;) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (now_ms() > deadline) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; }
		usleep(us); if (us < 2000) us += us / 4 + 1;
	}
	if (WIFSIGNALED(st)) { r.signaled = true; r.sig = WTERMSIG(st); }
	else r.code = WEXITSTATUS(st);
	off_t len = lseek(fd, 0, SEEK_END);
	off_t from = len > 60000 ? len - 60000 : 0;
	r.err.resize((size_t)(len - from));
	if (len > from) { ssize_t k = pread(fd, &r.err[0], (size_t)(len - from), from); if (k >= 0) r.err.resize((size_t)k); }
	close(fd);
	if (r.code == 77 || r.err.find("runtime error:") != std::string::npos || r.err.find("ERROR: AddressSanitizer") != std::string::npos || r.err.find("ERROR: LeakSanitizer") != std::string::npos)
		r.sanitizer = true;
	return r;
}

// ---- runner -------------------------------------------------------------------------------------
struct Conf { std::string prop; ru64 seed = 1; long from = 0, to = 0, single = -1; int jobs = 8; double timeout = 60; int maxthreads = 8; int maxviol = 12; bool thorough = false, chaos = false, slow = false; int mode = 0; };

extern "C" void chaos_begin(uint64_t seed) __attribute__((weak));
extern "C" void miniomp_seed(uint64_t seed) __attribute__((weak));
extern "C" void chaos_stats(uint64_t *switches, uint64_t *accesses, uint64_t *regions, uint64_t *hash) __attribute__((weak));

extern "C" void chaos_budget(uint64_t) __attribute__((weak));
extern "C" uint64_t chaos_steps(void) __attribute__((weak));
// far above what any case of the workloads needs on the unchanged code (see max:steps-in-one-case)
static const uint64_t STEP_BUDGET = 1000000000ULL;
static std::string last_desc;
static void run_case(const Conf &cf, PropFn fn, long i, bool verbose)
{
	Case c;
	c.prop = cf.prop; c.seed = cf.seed; c.idx = i; c.thorough = cf.thorough; c.maxthreads = cf.maxthreads;
	c.chaos = cf.chaos; c.slow = cf.slow; c.verbose = verbose; c.mode = cf.mode;
	ru64 s = mix64(mix64(cf.seed, strhash(cf.prop.c_str())), (ru64)i * 16 + cf.mode);
	c.rng = Rng(s);
	c.sig = s;
	srand((unsigned)s);
	if (miniomp_seed) miniomp_seed(s);
	if (chaos_begin) { chaos_begin(s); chaos_budget(STEP_BUDGET); }
	fn(c);
	if (chaos_stats) {
		uint64_t sw, ac, rg, h;
		chaos_stats(&sw, &ac, &rg, &h);
		count_event("context-switches", sw); count_event("accesses-scheduled", ac); count_event("parallel-regions", rg);
		max_event("max:steps-in-one-case", chaos_steps());
		if (sw) distinct("schedules", h);
		if (verbose) printf("SCHEDULE switches=%llu accesses=%llu hash=%llx\n", (unsigned long long)sw, (unsigned long long)ac, (unsigned long long)h);
	}
	last_desc = c.desc;
	shared_release();
	count_event("cases");
	if (c.nontrivial) { count_event("nontrivial"); distinct("nontrivial-cases", c.sig); }
	if (SH && (c.nontrivial || i < 2) && SH->nsample.load() < NSAMPLE) {
		int k = SH->nsample++;
		if (k < NSAMPLE) { std::string d = strf("case %ld: ", i) + c.desc; strncpy(SH->sample[k], d.c_str(), SAMPLELEN - 1); }
	}
	if (verbose) printf("CASE %ld done, %d violation(s)%s; %s\n", i, c.nviol, c.nontrivial ? "" : " (trivial)", c.desc.c_str());
}

extern "C" void __gcov_dump(void) __attribute__((weak));
extern "C" void mon_worker_exit(void) __attribute__((weak));

// ThreadSanitizer writes its reports to the worker's log; they are judged by the driver
extern "C" void __tsan_init(void) __attribute__((weak));
extern "C" void __tsan_on_report(void *) __attribute__((weak));
extern "C" void __sanitizer_set_report_fd(void *) __attribute__((weak));
static void race_reports(const Conf &cf, int fd, long i)
{
	if (chaos_begin) return;
	off_t len = lseek(fd, 0, SEEK_END);
	std::string s((size_t)len, 0);
	if (len <= 0 || pread(fd, &s[0], (size_t)len, 0) != len || s.find("WARNING: ThreadSanitizer") == std::string::npos) return;
	std::string dst = outdir + strf("/race_%ld.log", i);
	FILE *f = fopen(dst.c_str(), "w");
	if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
	std::string line = "{\"property\":\"" + cf.prop + "\",\"case\":" + std::to_string(i) + ",\"kind\":\"race\",\"key\":\"\",\"msg\":\"\",\"desc\":\"" + jesc(last_desc) + "\",\"log\":\"" + dst + "\"}\n";
	ssize_t r = write(viol_fd, line.data(), line.size()); (void)r;
}

static void worker(const Conf &cf, PropFn fn, int w)
{
	std::string log = outdir + strf("/w%d.log", w);
	int fd = open(log.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
	dup2(fd, 2);
	int rfd = fd;                        // race reports go to a file of their own, where progress messages cannot cut them
	if (__tsan_init && __sanitizer_set_report_fd && !chaos_begin) {
		rfd = open((log + ".reports").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
		__sanitizer_set_report_fd((void *)(long)rfd);
	}
	static char buf[1 << 16];
	setvbuf(stderr, buf, _IOFBF, sizeof buf);
	unsigned vg_errors = 0;
	for (;;) {
		if (SH->nviol.load() >= cf.maxviol) break;
		long i = SH->next++;
		if (i >= SH->limit) break;
		fflush(stderr);
		if (ftruncate(fd, 0) || ftruncate(rfd, 0)) {}
		SH->slot[w].start = now_ms();
		SH->slot[w].cur = i;
		run_case(cf, fn, i, false);
		if (__tsan_init) race_reports(cf, rfd, i);
		if (RUNNING_ON_VALGRIND) {
			unsigned e = VALGRIND_COUNT_ERRORS;
			if (e > vg_errors) record(cf.prop, i, "crash", "memcheck", strf("valgrind reports %u error(s)", e - vg_errors), last_desc, outdir + strf("/../vg.%d", (int)getpid()));
			vg_errors = e;
		}
		SH->slot[w].cur = -1;
	}
	if (mon_worker_exit) mon_worker_exit();
	if (__gcov_dump) __gcov_dump();
	_exit(0);
}

static std::string keep_log(int w, long i)
{
	std::string src = outdir + strf("/w%d.log", w), dst = outdir + strf("/case_%ld.log", i);
	FILE *f = fopen(src.c_str(), "r");
	if (!f) return "";
	fseek(f, 0, SEEK_END);
	long len = ftell(f), from = len > 300000 ? len - 300000 : 0;
	fseek(f, from, SEEK_SET);
	std::string s((size_t)(len - from), 0);
	size_t k = fread(&s[0], 1, s.size(), f);
	fclose(f);
	s.resize(k);
	if ((f = fopen((src + ".reports").c_str(), "r"))) {
		char b[4096];
		while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
		fclose(f);
	}
	k = s.size();
	f = fopen(dst.c_str(), "w");
	if (f) { fwrite(s.data(), 1, k, f); fclose(f); }
	return dst;
}

int main(int argc, char **argv)
{
	Conf cf;
	for (int k = 1; k < argc; k++) {
		std::string a = argv[k];
		auto val = [&]() -> const char * { if (k + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++k]; };
		if (a == "--prop") cf.prop = val();
		else if (a == "--seed") cf.seed = strtoull(val(), 0, 10);
		else if (a == "--from") cf.from = atol(val());
		else if (a == "--cases") cf.to = atol(val());
		else if (a == "--case") cf.single = atol(val());
		else if (a == "--jobs") cf.jobs = atoi(val());
		else if (a == "--timeout") cf.timeout = atof(val());
		else if (a == "--maxthreads") cf.maxthreads = atoi(val());
		else if (a == "--maxviol") cf.maxviol = atoi(val());
		else if (a == "--mode") cf.mode = atoi(val());
		else if (a == "--thorough") cf.thorough = true;
		else if (a == "--chaos") cf.chaos = true;
		else if (a == "--slow") cf.slow = true;
		else if (a == "--out") outdir = val();
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	auto it = registry().find(cf.prop);
	if (it == registry().end()) { fprintf(stderr, "unknown property %s\n", cf.prop.c_str()); return 2; }
	if (cf.single >= 0) {
		run_case(cf, it->second, cf.single, true);
		return 0;
	}
	if (outdir.empty()) { fprintf(stderr, "--out needed\n"); return 2; }
	mkdir(outdir.c_str(), 0755);
	SH = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (SH == MAP_FAILED) { perror("mmap"); return 2; }
	count_event("cases", 0); count_event("nontrivial", 0); count_event("distinct:nontrivial-cases", 0);
	SH->next = cf.from; SH->limit = cf.from + cf.to;
	viol_fd = open((outdir + "/viol.jsonl").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (viol_fd < 0) { perror("viol.jsonl"); return 2; }
	if (cf.jobs > NSLOT) cf.jobs = NSLOT;
	std::vector<pid_t> pid(cf.jobs, 0);
	std::vector<bool> hung(cf.jobs, false);
	auto spawn = [&](int w) {
		SH->slot[w].cur = -1;
		hung[w] = false;
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(2); }
		if (p == 0) { worker(cf, it->second, w); _exit(0); }
		pid[w] = p;
	};
	for (int w = 0; w < cf.jobs; w++) spawn(w);
	int alive = cf.jobs;
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int w = -1;
			for (int k = 0; k < cf.jobs; k++) if (pid[k] == p) w = k;
			if (w < 0) continue;
			pid[w] = 0; alive--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && SH->slot[w].cur.load() < 0) continue;   // done
			if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "harness failure in worker\n"); return 2; }
			long i = SH->slot[w].cur.load();
			std::string log = keep_log(w, i);
			std::string what = hung[w] ? "hang" : WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)) : strf("exit %d", WEXITSTATUS(st));
			if (i < 0) { fprintf(stderr, "worker died outside a case (%s), log %s\n", what.c_str(), log.c_str()); record(cf.prop, -1, hung[w] ? "hang" : "crash", what, "at worker exit", "", log); }
			else record(cf.prop, i, hung[w] ? "hang" : "crash", what, "", "", log);
			count_event(hung[w] ? "hangs" : "crashes");
			if (SH->nviol.load() < cf.maxviol && SH->next.load() < SH->limit) { spawn(w); alive++; }
			continue;
		}
		for (int w = 0; w < cf.jobs; w++)
			if (pid[w] > 0 && SH->slot[w].cur.load() >= 0 && !hung[w]) {
				ru64 st0 = SH->slot[w].start.load(), n = now_ms();
				if (n > st0 && n - st0 > (ru64)(cf.timeout * 1000)) { hung[w] = true; kill(pid[w], SIGKILL); }
			}
		usleep(5000);
	}
	FILE *f = fopen((outdir + "/summary.json").c_str(), "w");
	if (!f) { perror("summary"); return 2; }
	fprintf(f, "{\"counters\":{");
	bool first = true;
	std::map<std::string, ru64> sum;   // by name: a worker that died while it registered a counter leaves a second slot
	for (int k = 0; k < NCOUNT; k++) if (SH->cnt[k].used.load() == 2) {
		ru64 v = SH->cnt[k].v.load();
		ru64 &t = sum[SH->cnt[k].name];
		if (!strncmp(SH->cnt[k].name, "max:", 4)) t = t > v ? t : v; else t += v;
	}
	for (auto &e : sum) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
	fprintf(f, "},\"samples\":[");
	int ns = SH->nsample.load(); if (ns > NSAMPLE) ns = NSAMPLE;
	for (int k = 0; k < ns; k++) fprintf(f, "%s\"%s\"", k ? "," : "", jesc(SH->sample[k]).c_str());
	fprintf(f, "],\"stopped_early\":%s}\n", SH->nviol.load() >= cf.maxviol ? "true" : "false");
	fclose(f);
	return 0;
}
