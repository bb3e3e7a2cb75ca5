// Properties that range over the whole API: memory balance, allocation failures, purity, termination.
#include "files.hpp"
#include <algorithm>
#include <malloc.h>
#include <unistd.h>

extern "C" {
void vf_free(void *) __attribute__((weak));
void vf_set(long k, volatile long *count, volatile long *failed) __attribute__((weak));
long vf_live(void) __attribute__((weak));
long vf_live_bytes(void) __attribute__((weak));
long vf_allocs(void) __attribute__((weak));
int vf_describe(char *out, size_t cap, long after) __attribute__((weak));
int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
}
static void lib_free(void *p) { if (vf_free) vf_free(p); else free(p); }

// ---- inputs -------------------------------------------------------------------------------------
struct Inputs {
	Mat A, B; ru64 p = 3;
	spasm_csr *M = nullptr, *Bm = nullptr, *Pm = nullptr;     // matrix, right-hand sides, pattern only
	struct echelonize_opts o; bool full = true;
	std::vector<int> rp, cpinv;
	u8 hash[32];
	std::string file;
	std::vector<ri64> trip;
	int r0, r1, c0, c1, imx, imy, immode;
	int threads = 1;
	std::string desc;
	spasm_lu *fact = nullptr;              // with L
	struct spasm_rank_certificate *cert = nullptr;
	std::vector<CsrGuard> guards;
	ru64 hfact = 0;
	~Inputs() { spasm_csr_free(M); spasm_csr_free(Bm); if (Pm) spasm_csr_free(Pm); if (cert) { lib_free(cert->i); lib_free(cert->j); lib_free(cert->x); lib_free(cert->y); lib_free(cert); } if (fact) free_lu(fact); }
};
static std::vector<int> perm_of(Rng &r, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }
static ru64 hlu(const spasm_lu *f)
{
	ru64 h = hash_csr(f->U);
	h = hash_bytes(f->qinv, sizeof(int) * (size_t)f->U->m, h);
	if (f->L) { h = mix64(h, hash_csr(f->L)); h = hash_bytes(f->p, sizeof(int) * (size_t)f->U->n, h); }
	return mix64(h, (ru64)f->r * 2 + f->complete);
}
static std::unique_ptr<Inputs> gen_inputs(Rng &r, int sizes, bool values = true)
{
	std::unique_ptr<Inputs> in(new Inputs);
	in->p = pick_prime(r);
	in->A = gen_matrix(r, in->p, in->desc, sizes);
	int n = in->A.n, m = in->A.m;
	in->M = make_csr(in->A, r);
	CsrOpt co; co.values = false;
	in->Pm = make_csr(in->A, r, co);
	int k = r.range(1, 4);
	in->B = Mat(k, m, in->p);
	for (int t = 0; t < k; t++) {
		if (r.coin(0.3)) { for (int j = 0; j < m; j++) in->B.at(t, j) = (ru32)r.below(in->p); continue; }
		std::vector<ru32> x((size_t)n, 0);
		for (auto &v : x) if (r.coin(0.4)) v = (ru32)r.below(in->p);
		auto b = vecmat(x, in->A);
		std::copy(b.begin(), b.end(), in->B.row(t));
	}
	in->Bm = make_csr(in->B, r);
	gen_opts(r, &in->o, n, m, in->full, in->desc, true, false);
	if (!in->full) { in->o.enable_GPLU = 1; in->full = true; }
	in->rp = perm_of(r, n); in->cpinv = perm_of(r, m);
	for (auto &b : in->hash) b = (u8)r.next();
	FileMat fm; std::string d;
	in->file = gen_file(r, in->p, fm, d, 30, false);
	int nt = r.range(0, 40);
	for (int t = 0; t < nt; t++) { in->trip.push_back((ri64)r.below(12)); in->trip.push_back((ri64)r.below(9)); in->trip.push_back((ri64)r.next() >> r.below(60)); }
	in->r0 = r.range(0, n); in->r1 = r.range(0, n); if (in->r0 > in->r1) std::swap(in->r0, in->r1);
	in->c0 = r.range(0, m); in->c1 = r.range(0, m); if (in->c0 > in->c1) std::swap(in->c0, in->c1);
	in->imx = r.range(1, 20); in->imy = r.range(1, 20); in->immode = r.range(1, 2);
	return in;
}
// a factorization with L, and a certificate: inputs of other operations
static void add_fact(Inputs &in)
{
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	o.L = 1; o.enable_tall_and_skinny = 0;
	in.fact = spasm_echelonize(in.M, &o);
	in.cert = spasm_certificate_rank_create(in.M, in.hash, in.fact);
}

// ---- operations ---------------------------------------------------------------------------------
struct Out {
	ru64 exact = 7, sem = 7;     // digest of the representation; of what it means
	void e(ru64 v) { exact = mix64(exact, v); }
	void s(ru64 v) { sem = mix64(sem, v); }
	void both(ru64 v) { e(v); s(v); }
};
static ru64 rowspace(const spasm_csr *A) { return hash_mat(ref_rowspace(to_mat(A))); }
static FILE *scratch() { FILE *f = tmpfile(); if (!f) { perror("tmpfile"); _exit(99); } return f; }
static void drop_lu(spasm_lu *f) { spasm_lu_free(f); }

static void op_echelonize(Inputs &in, Out &o)
{
	struct echelonize_opts opt = in.o;
	spasm_lu *f = spasm_echelonize(in.M, &opt);
	o.e(hlu(f)); o.s((ru64)f->U->n); o.s(rowspace(f->U));
	drop_lu(f);
}
static void op_echelonize_kernel(Inputs &in, Out &o)
{
	struct echelonize_opts opt = in.o;
	spasm_lu *f = spasm_echelonize(in.M, &opt);
	spasm_csr *K = spasm_kernel(f);
	o.e(hash_csr(K)); o.s(rowspace(K));
	spasm_csr_free(K);
	drop_lu(f);
}
static void op_echelonize_rref(Inputs &in, Out &o)
{
	struct echelonize_opts opt = in.o;
	spasm_lu *f = spasm_echelonize(in.M, &opt);
	std::vector<int> q((size_t)in.A.m + 1);
	spasm_csr *R = spasm_rref(f, q.data());
	spasm_csr *K = spasm_kernel_from_rref(R, q.data());
	o.e(hash_csr(R)); o.e(hash_csr(K)); o.s(rowspace(R)); o.s(rowspace(K));
	spasm_csr_free(R); spasm_csr_free(K);
	drop_lu(f);
}
static void op_echelonize_gesv(Inputs &in, Out &o)
{
	struct echelonize_opts opt = in.o; opt.L = 1; opt.enable_GPLU = 1;      // with L, the low-rank mode is not available
	spasm_lu *f = spasm_echelonize(in.M, &opt);
	int k = in.B.n;
	std::vector<char> ok((size_t)k, 0);
	spasm_csr *X = spasm_gesv(f, in.Bm, (bool *)ok.data());
	o.e(hash_csr(X));
	Mat Xm = to_mat(X);
	for (int t = 0; t < k; t++) {
		o.s((ru64)ok[t]);
		if (!ok[t]) continue;
		std::vector<ru32> x(Xm.row(t), Xm.row(t) + Xm.m); x.resize((size_t)in.A.n, 0);
		auto y = vecmat(x, in.A);
		o.s(hash_bytes(y.data(), y.size() * sizeof(ru32)));
	}
	spasm_csr_free(X);
	drop_lu(f);
}
static void op_certificate(Inputs &in, Out &o)
{
	struct echelonize_opts opt = in.o; opt.L = 1; opt.enable_GPLU = 1;
	spasm_lu *f = spasm_echelonize(in.M, &opt);
	spasm_rank_certificate *c = spasm_certificate_rank_create(in.M, in.hash, f);
	o.s((ru64)c->r);
	o.s(spasm_certificate_rank_verify(in.M, in.hash, c));
	o.s(spasm_factorization_verify(in.M, f, 42));
	FILE *fp = scratch();
	spasm_rank_certificate_save(c, fp);
	rewind(fp);
	spasm_rank_certificate d; memset(&d, 0, sizeof d);
	bool ok = spasm_rank_certificate_load(fp, &d);
	fclose(fp);
	o.s(ok);
	if (ok) { o.s(spasm_certificate_rank_verify(in.M, in.hash, &d)); lib_free(d.i); lib_free(d.j); lib_free(d.x); lib_free(d.y); }
	lib_free(c->i); lib_free(c->j); lib_free(c->x); lib_free(c->y); lib_free(c);
	drop_lu(f);
}
// on a given factorization: deterministic with one thread
static void op_kernel(Inputs &in, Out &o) { spasm_csr *K = spasm_kernel(in.fact); o.e(hash_csr(K)); o.s(rowspace(K)); spasm_csr_free(K); }
static void op_rref(Inputs &in, Out &o)
{
	std::vector<int> q((size_t)in.A.m + 1, -7);
	spasm_csr *R = spasm_rref(in.fact, q.data());
	o.e(hash_csr(R)); o.e(hash_bytes(q.data(), q.size() * 4)); o.s(rowspace(R));
	spasm_csr_free(R);
}
static void op_solve(Inputs &in, Out &o)
{
	std::vector<spasm_ZZp> b((size_t)in.A.m + 1), x((size_t)in.A.n + 1, 0);
	for (int t = 0; t < in.B.n; t++) {
		for (int j = 0; j < in.A.m; j++) b[j] = (spasm_ZZp)ref_balanced(in.B.at(t, j), in.p);
		bool ok = spasm_solve(in.fact, b.data(), x.data());
		o.both(ok);
		if (ok) o.both(hash_bytes(x.data(), x.size() * sizeof(spasm_ZZp)));
	}
}
static void op_gesv(Inputs &in, Out &o)
{
	std::vector<char> ok((size_t)in.B.n, 0);
	spasm_csr *X = spasm_gesv(in.fact, in.Bm, (bool *)ok.data());
	Mat Xm = to_mat(X);
	o.e(hash_csr(X)); o.both(hash_bytes(ok.data(), ok.size()));
	for (int t = 0; t < in.B.n; t++) if (ok[t]) o.s(hash_bytes(Xm.row(t), sizeof(ru32) * Xm.m));
	spasm_csr_free(X);
}
static void op_cert_given(Inputs &in, Out &o)
{
	spasm_rank_certificate *c = spasm_certificate_rank_create(in.M, in.hash, in.fact);
	o.both((ru64)c->r);
	o.both(hash_bytes(c->i, 4 * (size_t)c->r)); o.both(hash_bytes(c->j, 4 * (size_t)c->r)); o.both(hash_bytes(c->x, 4 * (size_t)c->r)); o.both(hash_bytes(c->y, 4 * (size_t)c->r));
	o.both(spasm_certificate_rank_verify(in.M, in.hash, c));
	o.both(spasm_certificate_rank_verify(in.M, in.hash, in.cert));
	lib_free(c->i); lib_free(c->j); lib_free(c->x); lib_free(c->y); lib_free(c);
}
static void op_cert_io(Inputs &in, Out &o)
{
	FILE *fp = scratch();
	spasm_rank_certificate_save(in.cert, fp);
	long len = ftell(fp);
	o.both((ru64)len);
	rewind(fp);
	spasm_rank_certificate d; memset(&d, 0, sizeof d);
	bool ok = spasm_rank_certificate_load(fp, &d);
	o.both(ok);
	if (ok) { o.both(hash_bytes(d.x, 4 * (size_t)d.r)); lib_free(d.i); lib_free(d.j); lib_free(d.x); lib_free(d.y); }
	// refused: truncated
	rewind(fp);
	if (ftruncate(fileno(fp), len / 2)) {}
	memset(&d, 0, sizeof d);
	ok = spasm_rank_certificate_load(fp, &d);
	o.both(ok);
	if (ok) { lib_free(d.i); lib_free(d.j); lib_free(d.x); lib_free(d.y); }
	fclose(fp);
}
static void op_verify_fact(Inputs &in, Out &o) { o.both(spasm_factorization_verify(in.M, in.fact, 1234)); }
static spasm_lu *blank(Inputs &in, bool L)
{
	int n = in.A.n, m = in.A.m;
	spasm_lu *f = (spasm_lu *)spasm_malloc(sizeof *f);
	memset(f, 0, sizeof *f);
	f->U = spasm_csr_alloc(n, m, spasm_nnz(in.M), (i64)in.p, true);
	f->U->n = 0; f->U->p[0] = 0;
	f->qinv = (int *)spasm_malloc((i64)m * 4); for (int j = 0; j < m; j++) f->qinv[j] = -1;
	if (L) { f->Ltmp = spasm_triplet_alloc(n, n, 1, (i64)in.p, true); f->p = (int *)spasm_malloc((i64)n * 4); for (int i = 0; i < n; i++) f->p[i] = -1; }
	return f;
}
static void op_pivots_schur(Inputs &in, Out &o)
{
	int n = in.A.n, m = in.A.m;
	struct echelonize_opts opt; spasm_echelonize_init_opts(&opt); opt.enable_greedy_pivot_search = in.o.enable_greedy_pivot_search;
	spasm_lu *f = blank(in, in.o.L);
	std::vector<int> p((size_t)n + 1), pout((size_t)n + 1);
	int np = spasm_pivots_extract_structural(in.M, NULL, f, p.data(), &opt);
	o.e((ru64)np); o.e(hash_csr(f->U)); o.e(hash_bytes(p.data(), 4 * (size_t)n));
	spasm_csr *S = spasm_schur(in.M, p.data() + np, n - np, f, -1, f->Ltmp, NULL, pout.data());
	o.e(hash_csr(S));
	Mat st = ref_vstack(to_mat(f->U), to_mat(S));
	o.s(hash_mat(ref_rowspace(st)));
	if (np < m && n > np) {
		spasm_datatype dt = spasm_datatype_choose((i64)in.p);
		std::vector<char> buf(spasm_datatype_size(dt) * (size_t)(n - np + 3) * (size_t)(m - np) + 64);
		std::vector<int> q((size_t)m), po((size_t)n + 1);
		spasm_schur_dense(in.M, p.data() + np, n - np, NULL, f, buf.data(), dt, q.data(), po.data());
		Mat D(n - np, m - np, in.p), W(n - np, m, in.p);
		std::vector<std::pair<int, int>> order;
		for (int i = 0; i < n - np; i++) order.push_back({po[i], i});
		std::sort(order.begin(), order.end());
		for (int i = 0; i < n - np; i++) for (int j = 0; j < m - np; j++) W.at(i, q[j]) = (ru32)res(spasm_datatype_read(buf.data(), (size_t)order[i].second * (m - np) + j, dt), in.p);
		o.e(hash_mat(W));
		int N = 3;
		spasm_schur_dense_randomized(in.M, p.data() + np, n - np, f->U, f->qinv, buf.data(), dt, q.data(), N, (int)std::min(4, n - np));
	}
	spasm_csr_free(S);
	if (f->Ltmp) { spasm_triplet_free(f->Ltmp); f->Ltmp = NULL; }
	drop_lu(f);
}
static void op_structure(Inputs &in, Out &o)
{
	int n = in.A.n, m = in.A.m;
	std::vector<int> jm((size_t)n + 1), im((size_t)m + 1);
	int k = spasm_maximum_matching(in.M, jm.data(), im.data());
	o.both((ru64)k);
	o.e(hash_bytes(jm.data(), 4 * (size_t)n));
	int *a = spasm_permute_row_matching(n, jm.data(), in.rp.data(), in.cpinv.data());
	int *pinv = spasm_pinv(in.rp.data(), n), *q = spasm_pinv(in.cpinv.data(), m);
	int *b = spasm_permute_column_matching(m, im.data(), pinv, q);
	o.e(hash_bytes(a, 4 * (size_t)n)); o.e(hash_bytes(b, 4 * (size_t)m));
	int *sm = spasm_submatching(jm.data(), 0, n, 0, m);
	o.e(hash_bytes(sm, 4 * (size_t)n));
	lib_free(a); lib_free(b); lib_free(pinv); lib_free(q); lib_free(sm);
	spasm_dm *D = spasm_dulmage_mendelsohn(in.M);
	o.e(hash_bytes(D->p, 4 * (size_t)n)); o.e(hash_bytes(D->q, 4 * (size_t)m)); o.e((ru64)D->nb);
	for (int i = 0; i < 5; i++) { o.both((ru64)D->rr[i]); o.both((ru64)D->cc[i]); }
	if (in.immode) {
		FILE *f = scratch();
		spasm_save_pnm(in.M, f, in.imx, in.imy, 3, D);
		rewind(f); std::string s = slurp(f); fclose(f);
		o.e(hash_bytes(s.data(), s.size()));
	}
	spasm_dm_free(D);
	int k2 = std::min(n, m);
	spasm_csr *S = spasm_submatrix(in.M, 0, k2, 0, k2, 0);
	spasm_dm *C = spasm_strongly_connected_components(S);
	o.both((ru64)C->nb); o.e(hash_bytes(C->p, 4 * (size_t)k2));
	spasm_dm_free(C); spasm_csr_free(S);
}
static void op_transform(Inputs &in, Out &o)
{
	int n = in.A.n, m = in.A.m;
	spasm_csr *T = spasm_transpose(in.M, 1), *T0 = spasm_transpose(in.Pm, 0);
	o.both(hash_csr(T)); o.both(hash_csr(T0));
	spasm_csr *P = spasm_permute(in.M, in.rp.data(), in.cpinv.data(), 1), *P0 = spasm_permute(in.M, in.rp.data(), NULL, 0);
	o.both(hash_csr(P)); o.both(hash_csr(P0));
	spasm_csr *S = spasm_submatrix(in.M, in.r0, in.r1, in.c0, in.c1, 1);
	o.both(hash_csr(S));
	spasm_csr_resize(S, in.r1 - in.r0 + 3, in.c1 - in.c0);
	o.both(hash_csr(S));
	spasm_csr_free(T); spasm_csr_free(T0); spasm_csr_free(P); spasm_csr_free(P0); spasm_csr_free(S);
	std::vector<spasm_ZZp> x((size_t)n + 1, 1), y((size_t)m + 1, 2);
	spasm_xApy(x.data(), in.M, y.data());
	o.both(hash_bytes(y.data(), 4 * (size_t)m));
	spasm_Axpy(in.M, y.data(), x.data());
	o.both(hash_bytes(x.data(), 4 * (size_t)n));
	std::vector<spasm_ZZp> z((size_t)n + 1, 0);
	spasm_pvec(in.rp.data(), x.data(), z.data(), n); o.both(hash_bytes(z.data(), 4 * (size_t)n));
	spasm_ipvec(in.rp.data(), x.data(), z.data(), n); o.both(hash_bytes(z.data(), 4 * (size_t)n));
	int *rp = spasm_random_permutation(n);
	o.both(1);
	lib_free(rp);
}
static void op_assemble(Inputs &in, Out &o)
{
	spasm_triplet *T = spasm_triplet_alloc(1, 1, 1, (i64)in.p, true);
	for (size_t k = 0; k + 2 < in.trip.size(); k += 3) spasm_add_entry(T, (int)in.trip[k], (int)in.trip[k + 1], in.trip[k + 2]);
	spasm_csr *C = spasm_compress(T);
	o.e(hash_csr(C)); o.s(hash_mat(to_mat(C)));
	spasm_csr_free(C);
	spasm_triplet_transpose(T);
	C = spasm_compress(T);
	o.e(hash_csr(C)); o.s(hash_mat(to_mat(C)));
	spasm_csr_free(C);
	FILE *f = scratch();
	spasm_triplet_save(T, f);
	rewind(f); std::string s = slurp(f); fclose(f);
	o.both(hash_bytes(s.data(), s.size()));
	spasm_triplet_free(T);
}
static void op_io(Inputs &in, Out &o)
{
	FILE *f = scratch();
	spasm_csr_save(in.M, f);
	rewind(f);
	u8 h[32];
	spasm_triplet *T = spasm_triplet_load(f, (i64)in.p, h);
	fclose(f);
	o.both(hash_bytes(h, 32));
	spasm_csr *C = spasm_compress(T);
	o.both(hash_csr(C));
	spasm_csr_free(C); spasm_triplet_free(T);
	f = scratch();
	spasm_save_pnm(in.M, f, in.imx, in.imy, in.immode, NULL);
	rewind(f); std::string s = slurp(f); fclose(f);
	o.both(hash_bytes(s.data(), s.size()));
	f = scratch();
	fwrite(in.file.data(), 1, in.file.size(), f); rewind(f);
	T = spasm_triplet_load(f, (i64)in.p, NULL);
	fclose(f);
	o.both((ru64)T->nz); o.both(hash_bytes(T->i, 4 * (size_t)T->nz)); o.both(hash_bytes(T->x, 4 * (size_t)T->nz));
	spasm_triplet_free(T);
}
static void op_dense(Inputs &in, Out &o)
{
	int n = in.A.n, m = in.A.m;
	if (!n || !m) { o.both(0); return; }
	spasm_datatype dt = spasm_datatype_choose((i64)in.p);
	std::vector<char> a(spasm_datatype_size(dt) * (size_t)n * m), b = a;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) spasm_datatype_write(a.data(), (size_t)i * m + j, dt, (spasm_ZZp)ref_balanced(in.A.at(i, j), in.p));
	b = a;
	std::vector<size_t> q((size_t)m + 1), p((size_t)n + 1);
	int r = spasm_ffpack_rref((i64)in.p, n, m, a.data(), m, dt, q.data());
	o.both((ru64)r);
	int r2 = spasm_ffpack_LU((i64)in.p, n, m, b.data(), m, dt, p.data(), q.data());
	o.both((ru64)r2);
	for (int i = 0; i < r; i++) for (int j = 0; j < m - r; j++) o.e((ru64)(u32)spasm_datatype_read(a.data(), (size_t)i * m + j, dt));
}
static void op_prng(Inputs &in, Out &o)
{
	spasm_prng_ctx c;
	spasm_prng_seed(in.hash, (i64)in.p, 3, &c);
	for (int k = 0; k < 20; k++) o.both((ru64)(u32)spasm_prng_ZZp(&c));
	spasm_prng_seed_simple((i64)in.p, 99, 1, &c);
	for (int k = 0; k < 20; k++) o.both(spasm_prng_u32(&c));
	spasm_sha256_ctx s; u8 md[32];
	spasm_SHA256_init(&s); spasm_SHA256_update(&s, in.file.data(), in.file.size()); spasm_SHA256_final(md, &s);
	o.both(hash_bytes(md, 32));
}
struct Op { const char *name; void (*fn)(Inputs &, Out &); bool needs_fact; bool exact1; };   // exact1: bit-reproducible with one thread
static const Op ops[] = {
	{"echelonize", op_echelonize, false, false}, {"echelonize+kernel", op_echelonize_kernel, false, false}, {"echelonize+rref", op_echelonize_rref, false, false},
	{"echelonize+gesv", op_echelonize_gesv, false, false}, {"certificate", op_certificate, false, false},
	{"kernel", op_kernel, true, true}, {"rref", op_rref, true, true}, {"solve", op_solve, true, true}, {"gesv", op_gesv, true, true},
	{"certificate(fact)", op_cert_given, true, true}, {"certificate-io", op_cert_io, true, true}, {"factorization-verify", op_verify_fact, true, true},
	{"pivots+schur", op_pivots_schur, false, true}, {"matching+dm+scc", op_structure, false, true}, {"transform", op_transform, false, true},
	{"assemble", op_assemble, false, true}, {"io", op_io, false, true}, {"dense", op_dense, false, true}, {"prng+sha", op_prng, false, true},
};
static const int NOPS = sizeof ops / sizeof *ops;
static int pick_op(Rng &r) { return r.coin(0.45) ? (int)r.below(5) : 5 + (int)r.below(NOPS - 5); }
static int small_sizes(Case &c) { return c.slow || c.chaos ? SZ_TINY | SZ_SMALL : SZ_ALL; }

// ---- C29: every block taken by an operation is released -------------------------------------------
PROP(C29)
{
	Rng &r = c.rng;
	int k = pick_op(r);
	auto in = gen_inputs(r, c.mode == 1 ? (SZ_TINY | SZ_SMALL) : small_sizes(c));
	c.note(in->desc); c.note(strf("operation %s", ops[k].name));
	c.pick_threads();
	if (ops[k].needs_fact) add_fact(*in);
	c.mix(hash_mat(in->A)); c.mix((ru64)k);
	if (spasm_nnz(in->M) > 0) c.nontrivial = true;
	Out o;
	if (c.mode == 1) {
		// whole process: repeated operations do not make the heap grow (C++ parts included)
		omp_set_num_threads(1);
		struct mallinfo2 a, b;
		for (int t = 0; t < 3; t++) { Out w; ops[k].fn(*in, w); }
		a = mallinfo2();
		const int reps = 6;
		for (int t = 0; t < reps; t++) { Out w; ops[k].fn(*in, w); }
		b = mallinfo2();
		long grow = (long)(b.uordblks + b.hblkhd) - (long)(a.uordblks + a.hblkhd);
		count_event("repetitions", reps + 3);
		if (grow >= reps * 16) c.fail(std::string("growth: ") + ops[k].name, "%d repetitions of %s made the heap grow by %ld bytes", reps, ops[k].name, grow);
		return;
	}
	if (!vf_live) { fprintf(stderr, "not built with the allocation monitor\n"); _exit(99); }
	if (c.rng.coin(0.5)) omp_set_num_threads(1);
	vf_set(0, NULL, NULL);
	long l0 = vf_live(), b0 = vf_live_bytes();
	ops[k].fn(*in, o);
	long l1 = vf_live(), b1 = vf_live_bytes();
	count_event("operations"); count_event("allocations", (ru64)vf_allocs());
	distinct("operation-kind", (ru64)k);
	if (l1 != l0 || b1 != b0) {
		char buf[1500]; vf_describe(buf, sizeof buf, 0);
		c.fail(std::string("leak: ") + ops[k].name, "%ld block(s), %ld bytes still allocated after %s: %s", l1 - l0, b1 - b0, ops[k].name, buf);
	}
}

// ---- C30: any single allocation fails ---------------------------------------------------------------
PROP(C30)
{
	if (!vf_set) { fprintf(stderr, "not built with the allocation monitor\n"); _exit(99); }
	Rng &r = c.rng;
	int k = pick_op(r);
	int sz = r.coin(0.7) ? SZ_TINY | SZ_SMALL : SZ_ALL;
	if (c.slow) sz = SZ_TINY | SZ_SMALL;
	auto in = gen_inputs(r, sz);
	int th = r.coin(0.7) ? 1 : std::min(4, c.maxthreads);
	c.note(in->desc); c.note(strf("operation %s, %d thread(s)", ops[k].name, th));
	c.mix(hash_mat(in->A)); c.mix((ru64)k);
	struct Sh { volatile long count, failed; volatile ru64 sem; volatile int finished; };
	Sh *sh = (Sh *)shared_alloc(sizeof(Sh));
	unsigned sd = (unsigned)r.next();
	bool mine = ops[k].needs_fact;
	auto run = [&](long at) {
		memset((void *)sh, 0, sizeof *sh);
		return run_child([&]() {
			omp_set_num_threads(1);
			srand(sd);
			if (mine) add_fact(*in);
			omp_set_num_threads(th);
			vf_set(at, &sh->count, &sh->failed);
			Out o;
			ops[k].fn(*in, o);
			vf_set(0, NULL, NULL);
			sh->sem = o.sem;
			sh->finished = 1;
			return 0;
		}, 60);
	};
	Child ref = run(0);
	long total = sh->count; ru64 sem = sh->sem;
	if (ref.code != 0 || !sh->finished) { c.fail("no-baseline", "%s without any failure: %s", ops[k].name, ref.summary().c_str()); return; }
	count_event("baselines");
	max_event("max:allocations-in-one-operation", (ru64)total);
	std::vector<long> at;
	int lim = c.thorough ? 120 : 14;
	if (total <= lim) for (long t = 1; t <= total; t++) at.push_back(t);
	else { std::set<long> s; s.insert(1); s.insert(total); while ((int)s.size() < lim) s.insert(1 + (long)r.below((ru64)total)); at.assign(s.begin(), s.end()); }
	if (total <= lim) count_event("operations-with-every-allocation-failed");
	for (long t : at) {
		Child ch = run(t);
		c.nontrivial = true;
		if (!sh->failed) { count_event("failure-not-reached"); continue; }
		count_event("failures-injected");
		distinct("injection-points", mix64((ru64)k, (ru64)t));
		std::string what = strf("allocation %ld of %ld of %s failed", t, total, ops[k].name);
		size_t from = (size_t)(sh->failed - 1);
		if (ch.hung) c.fail(std::string("hang: ") + ops[k].name, "%s: the process hung", what.c_str());
		else if (ch.signaled) c.fail(strf("signal %d: %s", ch.sig, ops[k].name), "%s: killed by signal %d; %s", what.c_str(), ch.sig, ch.err.size() > 300 ? ch.err.substr(ch.err.size() - 300).c_str() : ch.err.c_str());
		else if (ch.code == 99) { fprintf(stderr, "harness failure in child\n"); _exit(99); }
		else if (ch.code == 0) {
			if (!sh->finished) c.fail(std::string("silent-exit: ") + ops[k].name, "%s: the process exited with status 0", what.c_str());
			else if (sh->sem != sem) c.fail(std::string("wrong-result: ") + ops[k].name, "%s: went on and gave a different result", what.c_str());
			else count_event("survived-with-correct-result");
		} else {
			count_event("clean-errors");
			if (from < 50000 && ch.err.size() <= from) c.fail(std::string("no-message: ") + ops[k].name, "%s: status %d but no message", what.c_str(), ch.code);
		}
		if (c.nviol) break;
	}
}

// ---- C31: inputs intact, no hidden state ----------------------------------------------------------------
PROP(C31)
{
	Rng &r = c.rng;
	auto in = gen_inputs(r, small_sizes(c));
	auto other = gen_inputs(r, SZ_TINY | SZ_SMALL);
	c.note(in->desc);
	int threads = c.pick_threads();
	if (r.coin(0.5)) { threads = 1; omp_set_num_threads(1); }
	add_fact(*in); add_fact(*other);
	c.mix(hash_mat(in->A));
	if (spasm_nnz(in->M) > 0) c.nontrivial = true;
	CsrGuard gM = guard_csr(in->M), gB = guard_csr(in->Bm), gP = guard_csr(in->Pm);
	ru64 hf = hlu(in->fact);
	auto hcert = [&]() { auto q = in->cert; ru64 h = hash_bytes(q->hash, 32); h = mix64(h, (ru64)q->r); h = mix64(h, (ru64)q->prime); h = hash_bytes(q->i, 4 * (size_t)q->r, h); h = hash_bytes(q->j, 4 * (size_t)q->r, h); h = hash_bytes(q->x, 4 * (size_t)q->r, h); return hash_bytes(q->y, 4 * (size_t)q->r, h); };
	ru64 hc = hcert(), hh = hash_bytes(in->hash, 32), hrp = hash_bytes(in->rp.data(), 4 * in->rp.size()), hcp = hash_bytes(in->cpinv.data(), 4 * in->cpinv.size());
	auto intact = [&](const char *op) {
		if (!guard_ok(gM)) c.fail(std::string("matrix-modified: ") + op, "%s modified its input matrix", op);
		if (!guard_ok(gB)) c.fail(std::string("rhs-modified: ") + op, "%s modified the right-hand sides", op);
		if (!guard_ok(gP)) c.fail(std::string("pattern-modified: ") + op, "%s modified a pattern-only matrix", op);
		if (hlu(in->fact) != hf) c.fail(std::string("factorization-modified: ") + op, "%s modified the factorization", op);
		if (hcert() != hc) c.fail(std::string("certificate-modified: ") + op, "%s modified the certificate", op);
		if (hash_bytes(in->hash, 32) != hh || hash_bytes(in->rp.data(), 4 * in->rp.size()) != hrp || hash_bytes(in->cpinv.data(), 4 * in->cpinv.size()) != hcp) c.fail(std::string("argument-modified: ") + op, "%s modified a hash or permutation", op);
	};
	int steps = c.slow || c.chaos ? 4 : 8;
	std::vector<int> seq; std::vector<Out> first(NOPS); std::vector<bool> done(NOPS, false);
	int focus = pick_op(r);
	for (int t = 0; t < steps; t++) {
		int k = t == 0 || t == steps - 1 || r.coin(0.3) ? focus : pick_op(r);
		if (r.coin(0.3)) { Out w; int kk = pick_op(r); ops[kk].fn(*other, w); count_event("interposed-calls"); }
		Out o;
		ops[k].fn(*in, o);
		count_event("calls");
		intact(ops[k].name);
		if (done[k]) {
			count_event("repeated-calls");
			if (o.sem != first[k].sem) c.fail(std::string("result-differs: ") + ops[k].name, "%s gave another result the second time (call %d of the history)", ops[k].name, t + 1);
			else if (threads == 1 && ops[k].exact1 && o.exact != first[k].exact) c.fail(std::string("representation-differs: ") + ops[k].name, "%s, deterministic with one thread, gave another result the second time (call %d)", ops[k].name, t + 1);
		}
		else { done[k] = true; first[k] = o; }
		seq.push_back(k);
		if (c.nviol) break;
	}
	ru64 h = 0; for (int k : seq) h = mix64(h, (ru64)k);
	distinct("call-histories", h);
	std::string s; for (int k : seq) s += std::string(s.empty() ? "" : ", ") + ops[k].name;
	c.note("history: " + s);
}

// ---- workload over the whole API, for the sanitizers ------------------------------------------------------
PROP(C22)
{
	Rng &r = c.rng;
	auto in = gen_inputs(r, small_sizes(c));
	c.note(in->desc);
	c.pick_threads();
	c.mix(hash_mat(in->A));
	if (spasm_nnz(in->M) > 0) c.nontrivial = true;
	for (int t = 0; t < 4; t++) {    // the text that goes into the progress messages
		char b[16]; memset(b, 0x77, sizeof b);
		i64 n = (i64)(r.next() >> (1 + r.below(63)));
		if (r.coin(0.3)) { n = 1; for (int k = (int)r.below(19); k > 0; k--) n *= 10; n += r.range(-1, 1); }
		spasm_human_format(n, b);
		bool end = memchr(b, 0, 8) != NULL;
		for (int k = 8; k < 16; k++) end = end && b[k] == 0x77;
		if (!end) c.fail("human-format", "no terminated text of at most 8 bytes for %lld", (long long)n);
	}
	bool facted = false;
	int steps = c.slow ? 2 : 3;
	for (int t = 0; t < steps; t++) {
		int k = pick_op(r);
		if (ops[k].needs_fact && !facted) { add_fact(*in); facted = true; }
		if (c.verbose) printf("OP %s\n", ops[k].name);
		Out o;
		ops[k].fn(*in, o);
		count_event("operations");
		count_event((std::string("op ") + ops[k].name).c_str());
	}
}

// ---- C32: hostile options; the watchdog and the step budget decide --------------------------------------------
PROP(C32)
{
	Rng &r = c.rng;
	ru64 p = r.coin(0.5) ? (r.coin() ? 3 : 5) : pick_prime(r);      // tiny fields make random combinations fail often
	Mat A = gen_matrix(r, p, c.desc, c.chaos || c.slow ? SZ_TINY | SZ_SMALL : SZ_ALL);
	spasm_csr *M = make_csr(A, r);
	struct echelonize_opts o; bool full;
	gen_opts(r, &o, A.n, A.m, full, c.desc, true, false);
	if (r.coin(0.7)) {                                   // keep going modes, odd proportions
		static const double pr[] = {-1, 0, 1e-9, 0.5, 1, 1.5, 1e9};
		o.min_pivot_proportion = pr[r.below(7)];
		o.max_round = r.coin() ? -1 : r.range(0, 60);
		static const double th[] = {-1, 0, 1e-9, 0.01, 0.5, 1, 2};
		o.sparsity_threshold = th[r.below(7)];
		o.dense_block_size = r.coin(0.3) ? 1 : r.range(1, 300);
		static const double lr[] = {-1, 0, 0.01, 0.5, 1, 2, 1e9};
		o.low_rank_ratio = lr[r.below(7)];
		o.tall_and_skinny_ratio = r.coin() ? lr[r.below(7)] : 0;
		static const double sw[] = {-1, 0, 0.3, 1, 5, 100, 3000};        // (a weight is an amount of work: huge ones are slow by definition)
		o.low_rank_start_weight = sw[r.below(7)];
		o.enable_tall_and_skinny = r.coin(0.7); o.enable_dense = r.coin(0.8); o.enable_GPLU = r.coin(0.5); o.enable_greedy_pivot_search = r.coin();
		c.desc = c.desc.substr(0, c.desc.find("opts{")) + opts_str(o);
	}
	if (o.complete) o.L = 1;
	c.pick_threads();
	c.mix(hash_mat(A)); c.mix(hash_bytes(&o, sizeof o));
	if (spasm_nnz(M) > 0) c.nontrivial = true;
	spasm_lu *f = spasm_echelonize(M, &o);
	count_event("echelonizations-finished");
	if (r.coin(0.5)) { spasm_csr *K = spasm_kernel(f); spasm_csr_free(K); count_event("kernels-finished"); }
	if (r.coin(0.5)) { std::vector<int> q((size_t)A.m + 1); spasm_csr *R = spasm_rref(f, q.data()); spasm_csr_free(R); count_event("rrefs-finished"); }
	if (r.coin(0.3)) { std::vector<int> jm((size_t)A.n + 1), im((size_t)A.m + 1); spasm_maximum_matching(M, jm.data(), im.data()); spasm_dm *D = spasm_dulmage_mendelsohn(M); spasm_dm_free(D); count_event("matchings-finished"); }
	free_lu(f); spasm_csr_free(M);
}
