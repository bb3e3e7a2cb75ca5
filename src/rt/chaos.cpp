// See chaos.hpp. Also provides the functions -fsanitize=thread makes the compiler call.
#include "chaos.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace {
struct R { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return next() % n; } };
const int MAXT = 64;
R rng{1};
bool active = false;          // a region with several threads is running
int nthreads, current, alive;
bool done[MAXT], blocked[MAXT];
uint64_t prio[MAXT];
sem_t sem[MAXT];
enum { GAP, PCT, STALL } mode;
uint64_t gap = 50, countdown = 0, since_switch = 0, region_steps = 0;
unsigned sync_pct = 50;
int stalled = -1; uint64_t stall_left = 0;
uint64_t n_switch, n_access, n_region, hash_, n_total, budget = ~0ULL;
thread_local int self = -1;

void die(const char *msg) { dprintf(2, "chaos scheduler: %s\n", msg); abort(); }

uint64_t draw_gap() { return mode == GAP ? 1 + rng.below(2 * gap) : 1 + rng.below(6 * gap); }

void hand_over(int to)
{
	n_switch++;
	hash_ = (hash_ ^ (uint64_t)(to + 1) ^ (since_switch << 8)) * 1099511628211ULL;
	since_switch = 0;
	int me = self;
	current = to;
	sem_post(&sem[to]);
	if (!done[me]) while (sem_wait(&sem[me])) ;
}
// who runs next; must_switch: not the current thread
int choose(bool must_switch)
{
	int cand[MAXT], k = 0;
	for (int t = 0; t < nthreads; t++) if (!done[t] && !blocked[t] && !(must_switch && t == self)) cand[k++] = t;
	if (!k) return -1;
	if (mode == PCT) {
		int b = cand[0];
		for (int i = 1; i < k; i++) if (prio[cand[i]] > prio[b]) b = cand[i];
		return b;
	}
	if (mode == STALL && k > 1) {
		int j = 0;
		for (int i = 0; i < k; i++) if (cand[i] != stalled) cand[j++] = cand[i];
		k = j;
	}
	return cand[rng.below((uint64_t)k)];
}
void maybe_switch()
{
	if (mode == PCT) {          // priority change point: the running thread becomes the least urgent
		uint64_t lo = ~0ULL;
		for (int t = 0; t < nthreads; t++) if (!done[t] && prio[t] < lo) lo = prio[t];
		prio[self] = lo - 1;
	}
	if (mode == STALL && rng.below(3) == 0) stalled = self;
	int to = choose(false);
	if (to >= 0 && to != self) hand_over(to);
}
inline void step()
{
	if (++n_total > budget) die("step budget exceeded: the operation does not make progress");
	if (!active || self < 0) return;
	n_access++; since_switch++; region_steps++;
	if (mode == STALL && stalled >= 0 && stall_left && --stall_left == 0) { stalled = -1; stall_left = 500 + rng.below(20000); }
	if (since_switch > 20000) {            // probably spinning, or everybody else is starved
		if (mode == PCT) { maybe_switch(); since_switch = 0; }
		else { int to = choose(true); if (to >= 0) hand_over(to); since_switch = 0; }
		return;
	}
	if (--countdown == 0) { countdown = draw_gap(); maybe_switch(); }
}
}

void chaos_region_begin(int n)
{
	if (n > MAXT) die("too many threads");
	nthreads = n; alive = n; current = 0; n_region++;
	for (int t = 0; t < n; t++) { done[t] = blocked[t] = false; sem_init(&sem[t], 0, 0); }
	static const unsigned gaps[] = {2, 5, 12, 30, 80, 200, 600, 2000};
	uint64_t k = rng.below(10);
	mode = k < 6 ? GAP : k < 8 ? PCT : STALL;
	gap = gaps[rng.below(8)];
	if (mode == PCT) { static const unsigned g2[] = {20, 100, 400, 1500}; gap = g2[rng.below(4)]; }
	static const unsigned sp[] = {0, 10, 30, 60, 90};
	sync_pct = sp[rng.below(5)];
	for (int t = 0; t < n; t++) prio[t] = 1000000 + rng.below(1000000) * 64 + (uint64_t)t;
	stalled = mode == STALL ? (int)rng.below((uint64_t)n) : -1; stall_left = 500 + rng.below(20000);
	since_switch = 0; region_steps = 0;
	countdown = draw_gap();
	active = true;
	// the master starts; workers wait for their turn in chaos_thread_begin
}
void chaos_region_end()
{
	active = false;
	for (int t = 0; t < nthreads; t++) sem_destroy(&sem[t]);
	self = -1;
}
void chaos_thread_begin(int id)
{
	self = id;
	if (id != 0) { while (sem_wait(&sem[id])) ; }
	else { int to = choose(false); if (to > 0) hand_over(to); }
}
void chaos_thread_end(int id)
{
	done[id] = true; alive--;
	chaos_wake();
	if (alive > 0) {
		int to = choose(true);
		if (to < 0) die("deadlock");
		n_switch++; current = to; since_switch = 0;
		sem_post(&sem[to]);
	}
	self = -1;
}
void chaos_sync_point()
{
	if (++n_total > budget) die("step budget exceeded: the operation does not make progress");
	if (!active || self < 0) return;
	if (rng.below(100) < sync_pct) maybe_switch(); else step();
}
void chaos_block()
{
	if (!active || self < 0) die("deadlock (a single thread waits for itself)");
	blocked[self] = true;
	int to = choose(true);
	if (to < 0) die("deadlock (every thread waits)");
	hand_over(to);
}
void chaos_wake() { for (int t = 0; t < nthreads; t++) blocked[t] = false; }
void chaos_enter() {}
void chaos_leave() {}

extern "C" {
void chaos_begin(uint64_t seed) { rng.s = seed * 0x9E3779B97F4A7C15ULL + 77; n_switch = n_access = n_region = n_total = 0; budget = ~0ULL; hash_ = 1469598103934665603ULL; }
void chaos_budget(uint64_t b) { budget = b; }
uint64_t chaos_steps(void) { return n_total; }
void chaos_stats(uint64_t *s, uint64_t *a, uint64_t *r, uint64_t *h) { *s = n_switch; *a = n_access; *r = n_region; *h = hash_; }

// moving a block always changes its address, and other threads may run in the middle of the move
void *vf_realloc(void *p, size_t n)
{
	if (!active || self < 0) return realloc(p, n);
	if (!p) return malloc(n);
	if (n == 0) return realloc(p, n);
	char *q = (char *)malloc(n);
	if (!q) return NULL;
	size_t old = malloc_usable_size(p), k = old < n ? old : n, h = k / 2;
	memcpy(q, p, h);
	maybe_switch();
	memcpy(q + h, (char *)p + h, k - h);
	maybe_switch();
	memset(p, 0xDB, old);
	free(p);
	return q;
}

#define ACC(n) \
	void __tsan_read##n(void *) { step(); } \
	void __tsan_write##n(void *) { step(); } \
	void __tsan_unaligned_read##n(void *) { step(); } \
	void __tsan_unaligned_write##n(void *) { step(); } \
	void __tsan_volatile_read##n(void *) { step(); } \
	void __tsan_volatile_write##n(void *) { step(); } \
	void __tsan_unaligned_volatile_read##n(void *) { step(); } \
	void __tsan_unaligned_volatile_write##n(void *) { step(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *, unsigned long) { step(); }
void __tsan_write_range(void *, unsigned long) { step(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) { chaos_sync_point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define ATM(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int) { chaos_sync_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int) { chaos_sync_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { chaos_sync_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { chaos_sync_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { chaos_sync_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { chaos_sync_point(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATM(8, uint8_t) ATM(16, uint16_t) ATM(32, uint32_t) ATM(64, uint64_t)
}
