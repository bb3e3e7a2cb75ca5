// Monitoring core: deterministic cases, shared event counters, forked workers, child runs.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "spasm.h"
void omp_set_num_threads(int);
int omp_get_max_threads(void);
}
#include "ref.hpp"

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Case {
	std::string prop;
	ru64 seed = 0;
	long idx = 0;
	bool thorough = false;
	int maxthreads = 8;
	bool chaos = false;        // running under the serialising scheduler: keep work small
	bool slow = false;         // running under a slow instrumentation: keep work small
	bool verbose = false;
	int mode = 0;              // sub-workload selector given by the driver
	Rng rng{1};
	ru64 sig = 1469598103934665603ULL;   // hash of what makes this case distinct
	bool nontrivial = false;
	int nviol = 0;
	std::string desc;
	void note(const std::string &s);                 // append to the printable description of the case
	void mix(ru64 v) { sig = mix64(sig, v); }
	void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
	int pick_threads();
};
// shared event counters (survive worker crashes)
void count_event(const char *name, ru64 n = 1);
void max_event(const char *name, ru64 n);
// distinct-state counters: number of distinct values seen per name
void distinct(const char *name, ru64 value);

typedef void (*PropFn)(Case &);
struct PropReg { PropReg(const char *id, PropFn f); };
#define PROP(id) static void prop_##id(Case &c); static PropReg reg_##id(#id, prop_##id); static void prop_##id(Case &c)

// ---- child runs -------------------------------------------------------------------------------
struct Child {
	bool hung = false;
	bool signaled = false; int sig = 0;
	int code = -1;
	std::string err;      // captured stderr (tail)
	bool sanitizer = false;
	std::string summary() const;
	bool crashed() const { return hung || signaled || sanitizer; }
};
// runs fn in a forked child with stderr captured; the child exits with fn's return value
Child run_child(const std::function<int()> &fn, double timeout_s = 60);
void *shared_alloc(size_t n);   // memory shared with children, released at the end of the case

// ---- inputs -------------------------------------------------------------------------------------
bool is_prime(ru64 n);
ru64 prev_prime(ru64 n);   // largest prime <= n
ru64 pick_prime(Rng &r);
enum { SZ_TINY = 1, SZ_SMALL = 2, SZ_MED = 4, SZ_ALL = 7 };
struct GenOpt { int maxn = 150; int maxm = 150; bool square = false; bool nonempty = false; int families = -1; };
Mat gen_matrix(Rng &r, ru64 p, std::string &desc, int sizes = SZ_ALL, int force_family = -1);
int gen_nfamilies();

// sparse matrix given as a list of rows, for big inputs
struct SMat { int n = 0, m = 0; ru64 p = 3; std::vector<std::vector<std::pair<int, ru32>>> rows; };
SMat gen_planted(Rng &r, ru64 p, int n, int m, int rank, double lw, double uw, std::string &desc);

struct CsrOpt { bool shuffle = true; bool values = true; int slack = 0; };
struct spasm_csr *make_csr(const Mat &M, Rng &r, CsrOpt o = CsrOpt());
struct spasm_csr *make_csr(const SMat &M, Rng &r);
struct CsrGuard { const spasm_csr *A; ru64 h; int n, m; i64 nzmax; const void *p, *j, *x; };
CsrGuard guard_csr(const spasm_csr *A);
bool guard_ok(const CsrGuard &g);
ru64 hash_csr(const spasm_csr *A);      // content hash, independent of entry order inside a row? no: raw content
ru64 hash_bytes(const void *p, size_t n, ru64 h = 1469598103934665603ULL);
ru64 hash_mat(const Mat &M);

// well-formedness of a matrix produced by the library; returns "" or a complaint
enum { CK_DUP = 1, CK_ZERO = 2, CK_CANON = 4, CK_ALL = 7 };
std::string csr_complaint(const spasm_csr *A, int flags);
// to residues, summing duplicates
Mat to_mat(const spasm_csr *A);
std::vector<ru32> to_vec(const spasm_ZZp *x, int n, ru64 p);
static inline ru64 res(ri64 x, ru64 p) { return ref_mod(x, p); }
static inline bool canonical(ri64 x, ru64 p) { ri64 h = (ri64)(p - 1) / 2; return -h <= x && x <= h; }

void gen_opts(Rng &r, struct echelonize_opts *o, int n, int m, bool &complete_expected, std::string &desc, bool allowL, bool forceL);
std::string opts_str(const struct echelonize_opts &o);

// checks shared by several properties; return false after recording a failure
bool check_U(Case &c, const spasm_lu *f, const Mat &A, bool expect_full, int refrank, bool check_space = true);
bool check_L(Case &c, const spasm_lu *f, const Mat &A, bool complete, bool full);
void free_lu(spasm_lu *f);
std::vector<ru32> vecmat(const std::vector<ru32> &x, const Mat &A);
