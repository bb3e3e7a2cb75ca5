// Allocation functions of /repo's own C code are redirected here: every live block is known, and
// the k-th allocation can be made to fail.
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <execinfo.h>
#include <unistd.h>

namespace {
struct Blk { void *p; size_t n; void *site[8]; int ns; long seq; };
const size_t CAP = 1 << 17;
Blk *tab;               // open addressing, tombstones = (void*)1
size_t used = 0;
std::atomic_flag lk = ATOMIC_FLAG_INIT;
long n_alloc = 0, fail_at = 0, live = 0, live_bytes = 0, n_failed = 0, n_bad = 0;
bool fail_all_after = false;
volatile long *ext_count = nullptr, *ext_failed = nullptr;
struct G { G() { while (lk.test_and_set(std::memory_order_acquire)) ; } ~G() { lk.clear(std::memory_order_release); } };
size_t h(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 40) % CAP; }
void put(void *p, size_t n)
{
	void *bt[12]; int nb = backtrace(bt, 12);
	G g;
	if (!tab) tab = (Blk *)calloc(CAP, sizeof(Blk));
	if (live > (long)CAP / 2) { dprintf(2, "failalloc: table full\n"); _exit(99); }
	size_t k = h(p);
	while (tab[k].p && tab[k].p != (void *)1) k = (k + 1) % CAP;
	Blk &b = tab[k]; b.p = p; b.n = n; b.ns = 0; b.seq = n_alloc;
	for (int i = 2; i < nb && b.ns < 8; i++) b.site[b.ns++] = bt[i];
	live++; live_bytes += (long)n;
}
bool take(void *p)
{
	G g;
	if (!tab) return false;
	for (size_t k = h(p), c = 0; tab[k].p && c < CAP; k = (k + 1) % CAP, c++)
		if (tab[k].p == p) { tab[k].p = (void *)1; live--; live_bytes -= (long)tab[k].n; return true; }
	return false;
}
bool fails()
{
	G g;
	n_alloc++;
	if (ext_count) *ext_count = n_alloc;
	if (fail_at > 0 && n_alloc == fail_at) { n_failed++; if (ext_failed) *ext_failed = (long)lseek(2, 0, SEEK_CUR) + 1; return true; }
	return false;
}
}
extern "C" {
void *vf_malloc(size_t n) { if (fails()) { errno = ENOMEM; return NULL; } void *p = malloc(n); if (p) put(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { if (fails()) { errno = ENOMEM; return NULL; } void *p = calloc(a, b); if (p) put(p, a * b); return p; }
void *vf_realloc(void *q, size_t n)
{
	if (fails()) { errno = ENOMEM; return NULL; }
	bool had = q && take(q);
	(void)had;
	void *p = realloc(q, n);
	if (p) put(p, n);
	return p;
}
void vf_free(void *p) { if (!p) return; take(p); free(p); }
// a block the harness gives away to the library, or the other way round
void vf_adopt(void *p, size_t n) { if (p) put(p, n); }
void vf_set(long k, volatile long *count, volatile long *failed) { G g; n_alloc = 0; n_failed = 0; fail_at = k; ext_count = count; ext_failed = failed; }
long vf_live(void) { return live; }
long vf_live_bytes(void) { return live_bytes; }
long vf_allocs(void) { return n_alloc; }
// describes the live blocks allocated after the last vf_set
int vf_describe(char *out, size_t cap, long after)
{
	size_t o = 0; int cnt = 0;
	out[0] = 0;
	for (size_t k = 0; tab && k < CAP; k++) if (tab[k].p && tab[k].p != (void *)1 && tab[k].seq > after) {
		cnt++;
		if (o + 200 > cap || cnt > 4) continue;
		o += (size_t)snprintf(out + o, cap - o, "%zu bytes from", tab[k].n);
		for (int i = 0; i < tab[k].ns && i < 5 && o + 40 < cap; i++) o += (size_t)snprintf(out + o, cap - o, " %p", tab[k].site[i]);
		o += (size_t)snprintf(out + o, cap - o, "; ");
	}
	return cnt;
}
}
