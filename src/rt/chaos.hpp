// Seeded scheduler: the threads of a parallel region run one at a time and are switched at
// instrumented memory accesses, atomics, critical sections and loop chunk boundaries.
#pragma once
#include <cstdint>
void chaos_region_begin(int n);
void chaos_region_end();
void chaos_thread_begin(int id);
void chaos_thread_end(int id);
void chaos_sync_point();      // a likely switch
void chaos_block();           // cannot proceed: another thread must run
void chaos_wake();            // something other threads may wait for has happened
void chaos_enter();           // critical section entered / left
void chaos_leave();
extern "C" {
void chaos_begin(uint64_t seed);
void chaos_stats(uint64_t *switches, uint64_t *accesses, uint64_t *regions, uint64_t *hash);
}
