// A small OpenMP runtime (the entry points gcc emits), on plain pthreads.
//
// - With ThreadSanitizer: this file is NOT instrumented. Threads, barriers and locks are pthread
//   objects, which the race detector understands; the distribution of loop iterations uses
//   internal atomics it does not see, because handing out iterations orders nothing in OpenMP.
// - With -DCHAOS: one thread runs at a time, under the scheduler of chaos.cpp.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <map>
#include <pthread.h>
#include <vector>
#ifdef CHAOS
#include "chaos.hpp"
#endif

namespace {
struct Spin {
	std::atomic_flag f = ATOMIC_FLAG_INIT;
	void lock() { while (f.test_and_set(std::memory_order_acquire)) ; }
	void unlock() { f.clear(std::memory_order_release); }
};
struct Guard { Spin &s; Guard(Spin &s_) : s(s_) { s.lock(); } ~Guard() { s.unlock(); } };

#ifdef CHAOS
struct Mutex {
	bool held = false;
	void lock() { chaos_sync_point(); while (held) chaos_block(); held = true; chaos_enter(); }
	bool trylock() { chaos_sync_point(); if (held) return false; held = true; chaos_enter(); return true; }
	void unlock() { held = false; chaos_leave(); chaos_wake(); chaos_sync_point(); }
};
struct Barrier {
	int n, in = 0; unsigned gen = 0;
	explicit Barrier(int n_) : n(n_) {}
	void wait() { unsigned g = gen; if (++in == n) { in = 0; gen++; chaos_wake(); chaos_sync_point(); } else while (gen == g) chaos_block(); }
};
#else
struct Mutex {
	pthread_mutex_t m;
	Mutex() { pthread_mutex_init(&m, NULL); }
	~Mutex() { pthread_mutex_destroy(&m); }
	void lock() { pthread_mutex_lock(&m); }
	bool trylock() { return pthread_mutex_trylock(&m) == 0; }
	void unlock() { pthread_mutex_unlock(&m); }
};
struct Barrier {
	pthread_barrier_t b;
	explicit Barrier(int n) { pthread_barrier_init(&b, NULL, (unsigned)n); }
	~Barrier() { pthread_barrier_destroy(&b); }
	void wait() { pthread_barrier_wait(&b); }
};
#endif

struct Work {
	bool init = false; int kind = 0;     // 0 dynamic, 1 guided, 2 single/sections
	uint64_t total = 0, next = 0, chunk = 1;
	long start = 0, end = 0, incr = 1;
	unsigned long long ustart = 0, uend = 0, uincr = 1; bool up = true, ull = false;
	bool taken = false;
	void *copy = nullptr;
};
struct Team {
	int n; void (*fn)(void *); void *data;
	Spin lk; std::deque<Work> works; Barrier bar;
	Team(int n_, void (*f)(void *), void *d) : n(n_), fn(f), data(d), bar(n_) {}
	Work &work(unsigned k) { Guard g(lk); while (works.size() <= k) works.emplace_back(); return works[k]; }
};
struct Self { Team *team; int tid; unsigned seq; Work *cur; int level; };
thread_local Self me;
int max_threads = 0;
Work serial_work;

int default_threads()
{
	if (max_threads == 0) {
		const char *s = getenv("OMP_NUM_THREADS");
		max_threads = s ? atoi(s) : 4;
		if (max_threads < 1) max_threads = 1;
	}
	return max_threads;
}
struct Arg { Team *t; int tid; };
void *entry(void *a_)
{
	Arg *a = (Arg *)a_;
	me = Self{a->t, a->tid, 0, nullptr, 1};
#ifdef CHAOS
	chaos_thread_begin(a->tid);
#endif
	a->t->fn(a->t->data);
#ifdef CHAOS
	chaos_thread_end(a->tid);
#endif
	return NULL;
}
Work *next_work()
{
	if (!me.team) { serial_work = Work(); me.cur = &serial_work; return me.cur; }
	me.cur = &me.team->work(me.seq++);
	return me.cur;
}
uint64_t grab(Work *w, uint64_t &first)
{
	int n = me.team ? me.team->n : 1;
#ifdef CHAOS
	chaos_sync_point();
#endif
	Team *t = me.team;
	if (t) t->lk.lock();
	uint64_t left = w->total - w->next, k = w->chunk;
	if (w->kind == 1) { k = left / (uint64_t)n; if (k < w->chunk) k = w->chunk; }
	if (k > left) k = left;
	first = w->next; w->next += k;
	if (t) t->lk.unlock();
	return k;
}
// Chunks of more than one iteration are often made smaller, so that loops too short for several
// chunks are shared by several threads too. Same seed, same choices.
std::atomic<uint64_t> chunk_seed{0};
uint64_t pick_chunk(int kind, uint64_t chunk)
{
	if (chunk < 1) chunk = 1;
	if (kind != 0 || chunk == 1 || !me.team || me.team->n == 1) return chunk;
	uint64_t s = chunk_seed.fetch_add(0x9E3779B97F4A7C15ULL, std::memory_order_relaxed);
	s ^= s >> 31; s *= 0xBF58476D1CE4E5B9ULL; s ^= s >> 29; s *= 0x94D049BB133111EBULL; s ^= s >> 32;
	static const uint64_t small[] = {1, 1, 1, 2, 3, 7, 20, 100, 0, 0};
	uint64_t k = small[s % 10];
	return k && k < chunk ? k : chunk;
}
bool next_chunk(long *is, long *ie)
{
	Work *w = me.cur; uint64_t f, k = grab(w, f);
	if (!k) return false;
	*is = w->start + (long)f * w->incr;
	*ie = (f + k == w->total) ? w->end : w->start + (long)(f + k) * w->incr;
	return true;
}
bool start_loop(int kind, long start, long end, long incr, long chunk, long *is, long *ie)
{
	Work *w = next_work();
	if (me.team) me.team->lk.lock();
	if (!w->init) {
		w->init = true; w->kind = kind; w->start = start; w->end = end; w->incr = incr;
		w->chunk = pick_chunk(kind, chunk < 1 ? 1 : (uint64_t)chunk);
		w->total = incr > 0 ? (end > start ? (uint64_t)((end - start + incr - 1) / incr) : 0) : (start > end ? (uint64_t)((start - end - incr - 1) / -incr) : 0);
	}
	if (me.team) me.team->lk.unlock();
	return is ? next_chunk(is, ie) : true;
}
bool next_chunk_ull(unsigned long long *is, unsigned long long *ie)
{
	Work *w = me.cur; uint64_t f, k = grab(w, f);
	if (!k) return false;
	*is = w->ustart + f * w->uincr;
	*ie = (f + k == w->total) ? w->uend : w->ustart + (f + k) * w->uincr;
	return true;
}
bool start_loop_ull(int kind, bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, unsigned long long *is, unsigned long long *ie)
{
	Work *w = next_work();
	if (me.team) me.team->lk.lock();
	if (!w->init) {
		w->init = true; w->kind = kind; w->ustart = start; w->uend = end; w->uincr = incr; w->up = up; w->chunk = pick_chunk(kind, chunk);
		w->total = up ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end + (0 - incr) - 1) / (0 - incr) : 0);
	}
	if (me.team) me.team->lk.unlock();
	return next_chunk_ull(is, ie);
}
void barrier() { if (me.team) me.team->bar.wait(); }

// created before any thread exists, so that their creation needs no ordering
const int NMUTEX = 256;
Mutex *mutex_pool = new Mutex[NMUTEX];
int mutex_used = 2;
Mutex &default_mutex() { return mutex_pool[0]; }
Mutex &atomic_mutex() { return mutex_pool[1]; }
Spin name_lk;
Mutex &named(void **p)
{
	Guard g(name_lk);
	static std::map<void **, Mutex *> *tab = new std::map<void **, Mutex *>;
	Mutex *&m = (*tab)[p];
	if (!m) { if (mutex_used == NMUTEX) { fprintf(stderr, "miniomp: too many critical sections\n"); _Exit(99); } m = &mutex_pool[mutex_used++]; }
	return *m;
}
void run_team(Team &t)
{
	Self saved = me;
	std::vector<pthread_t> th((size_t)t.n);
	std::vector<Arg> arg((size_t)t.n);
#ifdef CHAOS
	chaos_region_begin(t.n);
#endif
	for (int k = 1; k < t.n; k++) {
		arg[k] = Arg{&t, k};
		if (pthread_create(&th[k], NULL, entry, &arg[k])) { fprintf(stderr, "miniomp: cannot create a thread\n"); _Exit(99); }
	}
	me = Self{&t, 0, 0, nullptr, saved.level + 1};
#ifdef CHAOS
	chaos_thread_begin(0);
#endif
	t.fn(t.data);
#ifdef CHAOS
	chaos_thread_end(0);
#endif
	for (int k = 1; k < t.n; k++) pthread_join(th[k], NULL);
#ifdef CHAOS
	chaos_region_end();
#endif
	me = saved;
}
}

extern "C" {
void miniomp_seed(uint64_t s) { chunk_seed = s; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned)
{
	int n = nthreads ? (int)nthreads : default_threads();
	if (n > 64) n = 64;
	if (me.team) n = 1;                 // no nesting
	if (n == 1) { Self saved = me; Team t(1, fn, data); me = Self{&t, 0, 0, nullptr, saved.level + 1}; fn(data); me = saved; return; }
	Team t(n, fn, data);
	run_team(t);
}
struct LoopArg { void (*fn)(void *); void *data; int kind; long s, e, i, c; };
static void loop_body(void *p) { LoopArg *a = (LoopArg *)p; start_loop(a->kind, a->s, a->e, a->i, a->c, NULL, NULL); a->fn(a->data); }
#define PLOOP(NAME, KIND) void NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned fl) { LoopArg a{fn, data, KIND, s, e, i, c}; GOMP_parallel(loop_body, &a, nt, fl); }
PLOOP(GOMP_parallel_loop_dynamic, 0) PLOOP(GOMP_parallel_loop_guided, 1) PLOOP(GOMP_parallel_loop_static, 0)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 0) PLOOP(GOMP_parallel_loop_nonmonotonic_guided, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { LoopArg a{fn, data, 0, s, e, i, 1}; GOMP_parallel(loop_body, &a, nt, fl); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, fl); }

#define LOOP(NAME, KIND) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return start_loop(KIND, s, e, i, c, is, ie); } \
	bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(is, ie); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return start_loop_ull(KIND, up, s, e, i, c, is, ie); } \
	bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return next_chunk_ull(is, ie); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) { return start_loop(0, s, e, i, 1, is, ie); } \
	bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
void GOMP_critical_start(void) { default_mutex().lock(); }
void GOMP_critical_end(void) { default_mutex().unlock(); }
void GOMP_critical_name_start(void **p) { named(p).lock(); }
void GOMP_critical_name_end(void **p) { named(p).unlock(); }
void GOMP_atomic_start(void) { atomic_mutex().lock(); }
void GOMP_atomic_end(void) { atomic_mutex().unlock(); }
bool GOMP_single_start(void)
{
	if (!me.team) return true;
	Work *w = next_work();
#ifdef CHAOS
	chaos_sync_point();
#endif
	Guard g(me.team->lk);
	if (w->taken) return false;
	w->taken = true; return true;
}
void *GOMP_single_copy_start(void) { Work *w = next_work(); bool first; { if (me.team) me.team->lk.lock(); first = !w->taken; w->taken = true; if (me.team) me.team->lk.unlock(); } if (first) return NULL; barrier(); return w->copy; }
void GOMP_single_copy_end(void *p) { me.cur->copy = p; barrier(); }
unsigned GOMP_sections_next(void) { uint64_t f; return grab(me.cur, f) ? (unsigned)f + 1 : 0; }
unsigned GOMP_sections_start(unsigned n) { start_loop(0, 0, (long)n, 1, 1, NULL, NULL); return GOMP_sections_next(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
struct SecArg { void (*fn)(void *); void *data; unsigned n; };
static void sec_body(void *p) { SecArg *a = (SecArg *)p; start_loop(0, 0, (long)a->n, 1, 1, NULL, NULL); a->fn(a->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned n, unsigned fl) { SecArg a{fn, data, n}; GOMP_parallel(sec_body, &a, nt, fl); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
	if (!cpy) { fn(data); return; }
	char *buf = (char *)malloc((size_t)(size + align)), *arg = (char *)(((uintptr_t)buf + (uintptr_t)align - 1) & ~((uintptr_t)align - 1));
	cpy(arg, data); fn(arg); free(buf);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
int omp_get_max_threads(void) { return default_threads(); }
int omp_get_num_threads(void) { return me.team ? me.team->n : 1; }
int omp_get_thread_num(void) { return me.team ? me.tid : 0; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me.team && me.team->n > 1; }
int omp_get_level(void) { return me.level; }
int omp_get_thread_limit(void) { return 64; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
void omp_init_lock(void **l) { *l = new Mutex; }
void omp_destroy_lock(void **l) { delete (Mutex *)*l; }
void omp_set_lock(void **l) { ((Mutex *)*l)->lock(); }
void omp_unset_lock(void **l) { ((Mutex *)*l)->unlock(); }
int omp_test_lock(void **l) { return ((Mutex *)*l)->trylock(); }
}
