// Echelonization: rank, basis, L factor, kernel, RREF, solve, certificates
#include "mon.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>

struct Ech {
	Mat A; spasm_csr *M = nullptr; struct echelonize_opts o; bool full = true, applicable = true; spasm_lu *f = nullptr; int rank = 0; CsrGuard g;
	~Ech() { if (f) free_lu(f); if (M) spasm_csr_free(M); }
};
static int sizes_for(Case &c) { return (c.chaos || c.slow) ? (SZ_TINY | SZ_SMALL) : (c.thorough ? SZ_ALL : SZ_ALL); }

// how was the factorization finished? (read off the options and the trace on stderr is not used)
static void run_ech(Case &c, Ech &e, bool allowL, bool forceL, int fam = -1, bool force_full = false)
{
	ru64 p = pick_prime(c.rng);
	e.A = gen_matrix(c.rng, p, c.desc, sizes_for(c), fam);
	CsrOpt co; co.shuffle = c.rng.coin(0.8); co.slack = c.rng.coin(0.3) ? c.rng.range(1, 20) : 0;
	e.M = make_csr(e.A, c.rng, co);
	e.g = guard_csr(e.M);
	gen_opts(c.rng, &e.o, e.A.n, e.A.m, e.full, c.desc, allowL, forceL);
	if (force_full && !e.full) { e.o.enable_GPLU = 1; e.full = true; }
	c.pick_threads();
	e.rank = ref_rank(e.A);
	c.note(strf("rank=%d", e.rank));
	struct echelonize_opts o = e.o;
	bool use_null = !forceL && c.rng.coin(0.02);
	if (use_null) { e.full = true; spasm_echelonize_init_opts(&e.o); o = e.o; }
	e.f = spasm_echelonize(e.M, use_null ? NULL : &o);
	if (use_null) { e.o.L = e.o.complete = 0; }
	e.applicable = e.full;
	if (!e.full && e.f->U && e.f->U->n == e.rank) e.full = true;     // finished anyway
	count_event("echelonizations");
	count_event("pivots", (ru64)e.f->U->n);
	if (e.rank > 0) c.nontrivial = true;
	c.mix(hash_mat(e.A));
	c.mix(hash_bytes(&o, sizeof(bool) * 4));
	if (!guard_ok(e.g)) c.fail("input-modified", "echelonization modified its input matrix");
	distinct("route", (ru64)(e.o.max_round > 3 ? 3 : e.o.max_round) + 10 * e.o.enable_dense + 20 * e.o.enable_GPLU + 40 * e.o.enable_tall_and_skinny + 80 * e.o.L + 160 * (e.o.sparsity_threshold < 0) + 320 * (e.o.tall_and_skinny_ratio < 1) + 640 * e.o.enable_greedy_pivot_search + 1280 * (e.o.dense_block_size < 10));
}

// big sparse matrices with a rank known by construction
static void big_planted(Case &c, bool check_space)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	int n = r.range(200, c.thorough ? 3000 : 1500), m = r.range(200, c.thorough ? 3000 : 1500);
	int rank = r.coin(0.3) ? std::min(n, m) : r.range(1, std::min(n, m));
	SMat S = gen_planted(r, p, n, m, rank, 1.0 + r.unit(), 1 + 2 * r.unit(), c.desc);
	spasm_csr *M = make_csr(S, r);
	CsrGuard g = guard_csr(M);
	struct echelonize_opts o; bool full; gen_opts(r, &o, n, m, full, c.desc, false, false);
	if (!full) { o.enable_GPLU = 1; full = true; }
	if (o.dense_block_size < 50) o.dense_block_size = 50;
	if (o.low_rank_start_weight >= 0 && o.low_rank_start_weight < 5) o.low_rank_start_weight = -1;
	if (o.max_round > 3) o.max_round = 3;
	c.pick_threads();
	c.mix(hash_csr(M)); c.nontrivial = true;
	spasm_lu *f = spasm_echelonize(M, &o);
	count_event("echelonizations"); count_event("big-echelonizations"); count_event("pivots", (ru64)f->U->n);
	if (!guard_ok(g)) c.fail("input-modified", "echelonization modified its input matrix");
	if (f->r != rank || f->U->n != rank) c.fail("wrong-rank", "rank %d reported, rank by construction is %d", f->r, rank);
	else if (check_space) {
		// every row of A reduces to zero against U (in order): row(A) inside row(U), equal dimensions
		const spasm_csr *U = f->U;
		std::string w = csr_complaint(U, CK_DUP | CK_CANON);
		if (!w.empty()) c.fail("U-malformed", "U: %s", w.c_str());
		else {
			int samples = std::min(n, 150);
			for (int s = 0; s < samples; s++) {
				int i = samples == n ? s : (int)r.below(n);
				std::vector<ru32> x((size_t)m, 0);
				for (auto &e : S.rows[i]) x[e.first] = e.second;
				for (int k = 0; k < U->n; k++) {
					ru32 v = x[U->j[U->p[k]]];
					if (!v) continue;
					ru64 neg = p - v;
					for (i64 t = U->p[k]; t < U->p[k + 1]; t++) { ru32 &y = x[U->j[t]]; y = (ru32)((y + neg * res(U->x[t], p)) % p); }
				}
				for (int j = 0; j < m; j++) if (x[j]) { c.fail("row-not-spanned", "row %d of A does not reduce to zero against U (column %d)", i, j); s = samples; break; }
			}
		}
	}
	free_lu(f);
	spasm_csr_free(M);
}

PROP(C02)
{
	if (c.mode == 1) { big_planted(c, false); return; }
	Ech e;
	run_ech(c, e, true, false, -1, c.rng.coin(0.9));
	int r = e.f->U->n;
	if (e.f->r != r) c.fail("r-mismatch", "r = %d but U has %d rows", e.f->r, r);
	if (e.full ? r != e.rank : r > e.rank) c.fail("wrong-rank", "rank %d reported, exact rank is %d", r, e.rank);
	count_event("ranks-compared");
	distinct("rank", (ru64)e.rank * 1000 + e.A.m);
}

PROP(C03)
{
	if (c.mode == 1) { big_planted(c, true); return; }
	Ech e;
	run_ech(c, e, true, false);
	check_U(c, e.f, e.A, e.full, e.rank);
	if (e.o.L || e.o.complete) return;
	if (e.f->L || e.f->p) c.fail("unexpected-L", "L present although not requested");
}

PROP(C04)
{
	Ech e;
	run_ech(c, e, true, true, -1, c.rng.coin(0.9));
	if (check_U(c, e.f, e.A, e.full, e.rank, false))
		check_L(c, e.f, e.A, e.o.complete, e.applicable);
}

static void check_kernel(Case &c, const char *what, const spasm_csr *K, const Mat &A, int rank, const int *qinv)
{
	std::string w = csr_complaint(K, CK_ALL);
	if (!w.empty()) { c.fail(std::string(what) + "-malformed", "%s: %s", what, w.c_str()); return; }
	if (K->n != A.m - rank || K->m != A.m) { c.fail(std::string(what) + "-dimension", "%s is %d x %d, expected %d x %d", what, K->n, K->m, A.m - rank, A.m); return; }
	if ((ru64)K->field->p != A.p) { c.fail(std::string(what) + "-field", "kernel over the wrong field"); return; }
	Mat Km = to_mat(K);
	std::vector<int> own((size_t)A.m, 0);
	for (int i = 0; i < K->n; i++) {
		int mine = -1;
		for (int j = 0; j < A.m; j++) {
			if (!Km.at(i, j) || qinv[j] >= 0) continue;
			if (mine >= 0) { c.fail(std::string(what) + "-two-free-columns", "row %d is nonzero on non-pivotal columns %d and %d", i, mine, j); return; }
			mine = j;
		}
		if (mine < 0) { c.fail(std::string(what) + "-no-free-column", "row %d has no non-pivotal column", i); return; }
		if (Km.at(i, mine) != A.p - 1) { c.fail(std::string(what) + "-not-minus-one", "row %d has %u on its own column", i, Km.at(i, mine)); return; }
		if (own[mine]++) { c.fail(std::string(what) + "-dup-row", "two rows own column %d", mine); return; }
		for (int k = 0; k < A.n; k++) {
			ru64 s = 0;
			for (int j = 0; j < A.m; j++) if (Km.at(i, j) && A.at(k, j)) s = (s + (ru64)Km.at(i, j) * A.at(k, j)) % A.p;
			if (s) { c.fail(std::string(what) + "-not-in-kernel", "A*k != 0 for row %d of %s (row %d of A)", i, what, k); return; }
		}
		count_event("kernel-vectors-checked");
	}
}

static ru64 hash_lu(const spasm_lu *f)
{
	ru64 h = hash_csr(f->U);
	h = hash_bytes(f->qinv, sizeof(int) * (size_t)f->U->m, h);
	if (f->L) { h = mix64(h, hash_csr(f->L)); h = hash_bytes(f->p, sizeof(int) * (size_t)f->U->n, h); }
	return mix64(h, (ru64)f->r);
}

PROP(C05)
{
	Ech e;
	run_ech(c, e, true, false, -1, true);
	if (e.f->U->n != e.rank) return;      // C02's business; a kernel of an incomplete basis is not the kernel of A
	ru64 h = hash_lu(e.f);
	c.pick_threads();
	spasm_csr *K = spasm_kernel(e.f);
	count_event("kernels");
	check_kernel(c, "kernel", K, e.A, e.rank, e.f->qinv);
	if (hash_lu(e.f) != h) c.fail("factorization-modified", "kernel computation modified the factorization");
	spasm_csr_free(K);
}

static void check_rref(Case &c, const spasm_csr *R, const int *Rqinv, const Mat &A, int rank, const spasm_lu *f)
{
	std::string w = csr_complaint(R, CK_ALL);
	if (!w.empty()) { c.fail("R-malformed", "R: %s", w.c_str()); return; }
	if (R->n != rank || R->m != A.m) { c.fail("R-dimension", "R is %d x %d, expected %d x %d", R->n, R->m, rank, A.m); return; }
	std::vector<int> piv((size_t)R->n, -1);
	for (int j = 0; j < R->m; j++) {
		int i = Rqinv[j];
		if (i == -1) continue;
		if (i < 0 || i >= R->n || piv[i] != -1) { c.fail("Rqinv-invalid", "Rqinv[%d] = %d is out of range or repeated", j, i); return; }
		piv[i] = j;
	}
	for (int i = 0; i < R->n; i++) {
		if (piv[i] < 0) { c.fail("R-row-without-pivot", "row %d has no pivot", i); return; }
		if (R->p[i] == R->p[i + 1] || R->j[R->p[i]] != piv[i] || R->x[R->p[i]] != 1) { c.fail("R-pivot-not-leading", "row %d does not start with a 1 on its pivot column %d", i, piv[i]); return; }
		for (i64 t = R->p[i] + 1; t < R->p[i + 1]; t++) if (Rqinv[R->j[t]] >= 0) { c.fail("R-not-reduced", "row %d is nonzero on pivot column %d", i, R->j[t]); return; }
		if (f && f->qinv[piv[i]] < 0) { c.fail("R-pivots-differ", "column %d is a pivot of R but not of U", piv[i]); return; }
		count_event("rref-rows-checked");
	}
	Mat st = ref_vstack(A, to_mat(R));
	int rr = ref_rank(st);
	if (rr != rank) c.fail("R-row-space", "rank([A;R]) = %d, rank(A) = %d", rr, rank);
}

PROP(C06)
{
	Ech e;
	run_ech(c, e, true, false, -1, true);
	if (e.f->U->n != e.rank) return;
	ru64 h = hash_lu(e.f);
	c.pick_threads();
	int *Rqinv = (int *)malloc(sizeof(int) * (size_t)e.A.m);
	for (int j = 0; j < e.A.m; j++) Rqinv[j] = 12345678;
	spasm_csr *R = spasm_rref(e.f, Rqinv);
	count_event("rrefs");
	int v = c.nviol;
	check_rref(c, R, Rqinv, e.A, e.rank, e.f);
	if (hash_lu(e.f) != h) c.fail("factorization-modified", "RREF modified the factorization");
	if (c.nviol == v) {
		CsrGuard g = guard_csr(R);
		spasm_csr *K = spasm_kernel_from_rref(R, Rqinv);
		check_kernel(c, "kernel-from-rref", K, e.A, e.rank, Rqinv);
		if (!guard_ok(g)) c.fail("rref-modified", "kernel extraction modified the RREF");
		spasm_csr_free(K);
	}
	spasm_csr_free(R);
	free(Rqinv);
}

PROP(C07)
{
	Ech e;
	run_ech(c, e, true, true, -1, true);
	Rng &r = c.rng;
	int n = e.A.n, m = e.A.m; ru64 p = e.A.p;
	if (e.f->U->n != e.rank) return;
	ru64 h = hash_lu(e.f);
	Span sp(e.A);
	int k = c.rng.range(1, c.slow || c.chaos ? 6 : 12);
	Mat B(k, m, p);
	std::vector<bool> in(k);
	for (int t = 0; t < k; t++) {
		int kind = (int)r.below(6);
		std::vector<ru32> b((size_t)m, 0);
		if (kind == 0) { for (auto &v : b) v = (ru32)r.below(p); }                               // random
		else if (kind == 1) { }                                                                    // zero
		else if (kind == 2 && m) { b[r.below(m)] = (ru32)(1 + r.below(p - 1)); }                    // unit
		else {
			std::vector<ru32> x((size_t)n, 0);
			if (kind == 3) { for (auto &v : x) v = (ru32)r.below(p); }
			else for (int q = 0; q < 3 && n; q++) x[r.below(n)] = (ru32)r.below(p);
			b = vecmat(x, e.A);
			if (kind == 5 && m) { ru32 &v = b[r.below(m)]; v = (ru32)((v + 1 + r.below(p - 1)) % p); }       // nearly in the row space
		}
		std::copy(b.begin(), b.end(), B.row(t));
		in[t] = sp.contains(b);
		count_event(in[t] ? "solvable-systems" : "unsolvable-systems");
	}
	// one by one
	for (int t = 0; t < k; t++) {
		std::vector<spasm_ZZp> b((size_t)m), x((size_t)n, 0x55555555);
		for (int j = 0; j < m; j++) b[j] = (spasm_ZZp)ref_balanced(B.at(t, j), p);
		std::vector<spasm_ZZp> b0 = b;
		bool ok = spasm_solve(e.f, b.data(), x.data());
		if (ok != in[t]) { c.fail("solve-verdict", "solve says %d, b %s in the row space", ok, in[t] ? "is" : "is not"); break; }
		if (b != b0) c.fail("rhs-modified", "solve modified its right-hand side");
		if (ok) {
			for (int i = 0; i < n; i++) if (!canonical(x[i], p)) { c.fail("solution-not-canonical", "x[%d] = %d", i, x[i]); break; }
			auto y = vecmat(to_vec(x.data(), n, p), e.A);
			for (int j = 0; j < m; j++) if (y[j] != B.at(t, j)) { c.fail("solution-wrong", "(x*A)[%d] = %u, b has %u", j, y[j], B.at(t, j)); break; }
		}
		count_event("solves");
	}
	// all together
	spasm_csr *Bm = make_csr(B, r);
	CsrGuard g = guard_csr(Bm);
	bool *ok = (bool *)malloc(k);
	memset(ok, 2, k);
	bool noflags = r.coin(0.1);
	c.pick_threads();
	spasm_csr *X = spasm_gesv(e.f, Bm, noflags ? NULL : ok);
	if (!guard_ok(g)) c.fail("rhs-modified", "gesv modified its right-hand side");
	std::string w = csr_complaint(X, CK_ALL);
	if (!w.empty()) c.fail("X-malformed", "X: %s", w.c_str());
	// X's advertised dimensions grow with its entries; they never exceed the mathematical ones
	else if (X->n != k || X->m != n) c.fail("X-shape", "X is %d x %d, expected %d x %d", X->n, X->m, k, n);
	else {
		Mat Xm = to_mat(X);
		for (int t = 0; t < k; t++) {
			if (!noflags && (((unsigned char *)ok)[t] > 1 || ok[t] != in[t])) { c.fail("gesv-verdict", "row %d: gesv says %d, expected %d", t, ((unsigned char *)ok)[t], (int)in[t]); break; }
			if (!in[t]) continue;
			std::vector<ru32> x(Xm.row(t), Xm.row(t) + n);
			auto y = vecmat(x, e.A);
			for (int j = 0; j < m; j++) if (y[j] != B.at(t, j)) { c.fail("gesv-wrong", "row %d: (x*A)[%d] = %u, b has %u", t, j, y[j], B.at(t, j)); t = k; break; }
			count_event("gesv-rows");
		}
	}
	if (hash_lu(e.f) != h) c.fail("factorization-modified", "solving modified the factorization");
	spasm_csr_free(X); spasm_csr_free(Bm); free(ok);
}

static void rand_hash(Rng &r, u8 *h) { for (int i = 0; i < 32; i++) h[i] = (u8)r.next(); if (r.coin(0.05)) memset(h, 0, 32); if (r.coin(0.05)) memset(h, 0xff, 32); }
static void cert_free(spasm_rank_certificate *p, bool self) { free(p->i); free(p->j); free(p->x); free(p->y); if (self) free(p); }

PROP(C08)
{
	Ech e;
	run_ech(c, e, true, true, -1, c.rng.coin(0.9));
	int n = e.A.n, m = e.A.m; ru64 p = e.A.p;
	u8 hash[32], hash0[32]; rand_hash(c.rng, hash); memcpy(hash0, hash, 32);
	ru64 h = hash_lu(e.f);
	spasm_rank_certificate *pr = spasm_certificate_rank_create(e.M, hash, e.f);
	count_event("certificates");
	if (hash_lu(e.f) != h || !guard_ok(e.g) || memcmp(hash, hash0, 32)) c.fail("input-modified", "certificate creation modified its inputs");
	if (pr->r != e.f->U->n) c.fail("cert-rank", "certificate states rank %d, factorization has %d", pr->r, e.f->U->n);
	else {
		std::set<int> I, J;
		for (int k = 0; k < pr->r; k++) { I.insert(pr->i[k]); J.insert(pr->j[k]); if (pr->i[k] < 0 || pr->i[k] >= n || pr->j[k] < 0 || pr->j[k] >= m) { c.fail("cert-index", "index out of range"); break; } }
		if ((int)I.size() != pr->r || (int)J.size() != pr->r) c.fail("cert-repeated-index", "certificate repeats a row or column");
	}
	if ((ru64)pr->prime != p || memcmp(pr->hash, hash, 32)) c.fail("cert-header", "certificate names another prime or hash");
	bool full = e.f->U->n == e.rank;
	if (full && !spasm_certificate_rank_verify(e.M, hash, pr)) c.fail("honest-rejected", "honest certificate of rank %d rejected", pr->r);
	if (!spasm_factorization_verify(e.M, e.f, c.rng.next())) c.fail("factorization-rejected", "correct factorization rejected by its verifier");
	// round trip through a file
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	spasm_rank_certificate_save(pr, f);
	fclose(f);
	if (len > 0) {
		// with and without trailing garbage whitespace
		FILE *in = fmemopen(buf, len, "r");
		spasm_rank_certificate q; memset(&q, 0, sizeof q);
		bool ok = spasm_rank_certificate_load(in, &q);
		fclose(in);
		if (!ok) c.fail("load-failed", "cannot load a saved certificate");
		else {
			size_t z = sizeof(int) * (size_t)pr->r;
			if (q.r != pr->r || q.prime != pr->prime || memcmp(q.hash, pr->hash, 32)) c.fail("load-header", "loaded certificate differs in r, prime or hash");
			else if (memcmp(q.i, pr->i, z) || memcmp(q.j, pr->j, z) || memcmp(q.x, pr->x, z) || memcmp(q.y, pr->y, z)) c.fail("load-differs", "loaded certificate differs from the saved one");
			else if (full && !spasm_certificate_rank_verify(e.M, hash, &q)) c.fail("loaded-rejected", "certificate rejected after save and load");
			count_event("certificate-roundtrips");
			cert_free(&q, false);
		}
	}
	free(buf);
	cert_free(pr, true);
}

// independent evaluation of the certificate equations (the published protocol), used to decide
// whether an altered certificate still satisfies them
// 1 = the equations hold, 0 = they do not, -1 = repeated indices (the protocol leaves it open which response counts)
static int ref_verify(const Mat &A, const u8 *hash, const spasm_rank_certificate *q)
{
	if (memcmp(hash, q->hash, 32) || (ru64)q->prime != A.p || q->r < 0) return false;
	ru64 p = A.p;
	std::set<int> I, J;
	for (int k = 0; k < q->r; k++) { if (q->i[k] < 0 || q->i[k] >= A.n || q->j[k] < 0 || q->j[k] >= A.m) return 0; I.insert(q->i[k]); J.insert(q->j[k]); }
	if ((int)I.size() != q->r || (int)J.size() != q->r) return -1;
	RefPrng g(hash, p, 0);
	std::vector<ru32> x((size_t)A.n, 0);
	for (int k = 0; k < q->r; k++) x[q->i[k]] = (ru32)res(q->x[k], p);
	auto y = vecmat(x, A);
	for (int k = 0; k < q->r; k++) if (y[q->j[k]] != g.zzp()) return false;
	std::vector<ri64> z((size_t)A.n, -1);
	for (int k = 0; k < q->r; k++) z[q->i[k]] = (ri64)res(q->y[k], p);
	for (int i = 0; i < A.n; i++) { if (z[i] < 0) z[i] = g.zzp(); x[i] = (ru32)z[i]; }
	y = vecmat(x, A);
	for (ru32 v : y) if (v) return 0;
	return 1;
}

PROP(C09)
{
	Rng &r = c.rng;
	Ech e;
	// Tiny moduli leave the protocol little soundness (error 1/p): alterations are judged by the equations
	// themselves, false claims only at moduli above 2^20.
	run_ech(c, e, true, true, -1, true);
	int n = e.A.n, m = e.A.m; ru64 p = e.A.p;
	if (e.f->U->n != e.rank) return;
	u8 hash[32]; rand_hash(r, hash);
	spasm_rank_certificate *pr = spasm_certificate_rank_create(e.M, hash, e.f);
	int rk = pr->r;
	std::vector<int> I(pr->i, pr->i + rk), J(pr->j, pr->j + rk), X(pr->x, pr->x + rk), Y(pr->y, pr->y + rk);
	auto verify = [&](const spasm_csr *M, const u8 *h, std::vector<int> &i, std::vector<int> &j, std::vector<int> &x, std::vector<int> &y, ri64 prime, const u8 *ch) {
		spasm_rank_certificate q; memset(&q, 0, sizeof q);
		q.r = (int)i.size(); q.prime = prime; memcpy(q.hash, ch, 32);
		q.i = i.data(); q.j = j.data(); q.x = x.data(); q.y = y.data();
		count_event("verifications");
		bool got = spasm_certificate_rank_verify(M, h, &q);
		return got;
	};
	auto ref = [&](const Mat &A, const u8 *h, std::vector<int> &i, std::vector<int> &j, std::vector<int> &x, std::vector<int> &y, ri64 prime, const u8 *ch) {
		spasm_rank_certificate q; memset(&q, 0, sizeof q);
		q.r = (int)i.size(); q.prime = prime; memcpy(q.hash, ch, 32);
		q.i = i.data(); q.j = j.data(); q.x = x.data(); q.y = y.data();
		return ref_verify(A, h, &q);
	};
	auto judge = [&](const char *what, std::vector<int> i, std::vector<int> j, std::vector<int> x, std::vector<int> y, ri64 prime, const u8 *ch, bool allow_alias) {
		int want = ref(e.A, hash, i, j, x, y, prime, ch);
		bool got = verify(e.M, hash, i, j, x, y, prime, ch);
		if (want < 0) { count_event("alterations-with-repeated-index"); return; }
		count_event(want ? "alterations-still-valid" : "alterations-invalid");
		if (got && !want && !allow_alias) c.fail(std::string("accepted-") + what, "certificate altered (%s) was accepted although its equations do not hold", what);
		if (!got && want) c.fail(std::string("rejected-") + what, "certificate (%s) satisfying the equations was rejected", what);
	};
	judge("none", I, J, X, Y, pr->prime, hash, false);
	if (rk > 0) c.nontrivial = true;
	int rounds = c.slow ? 6 : 20;
	for (int t = 0; t < rounds; t++) {
		auto i = I, j = J, x = X, y = Y; u8 ch[32]; memcpy(ch, hash, 32); ri64 prime = pr->prime;
		int kind = (int)r.below(12);
		int k = rk ? (int)r.below(rk) : 0;
		if (kind == 0) { ch[r.below(32)] ^= (u8)(1 << r.below(8)); judge("hash", i, j, x, y, prime, ch, false); continue; }
		if (kind == 1) { static const ri64 d[] = {1, -1, 2, 1LL << 32, -(1LL << 32)}; prime += d[r.below(5)]; if (r.coin(0.2)) prime = -prime; judge("prime", i, j, x, y, prime, ch, false); continue; }
		if (!rk) continue;
		if (kind == 2) { x[k] = (int)ref_balanced((ru32)r.below(p), p); judge("x-value", i, j, x, y, prime, ch, false); }
		else if (kind == 3) { y[k] = (int)ref_balanced((ru32)r.below(p), p); judge("y-value", i, j, x, y, prime, ch, false); }
		else if (kind == 4) { i[k] = r.coin() ? -1 - (int)r.below(3) : n + (int)r.below(3); judge("row-range", i, j, x, y, prime, ch, false); }
		else if (kind == 5) { j[k] = r.coin() ? -1 - (int)r.below(3) : m + (int)r.below(3); judge("column-range", i, j, x, y, prime, ch, false); }
		else if (kind == 6) { i[k] = (int)r.below(n); judge("row-index", i, j, x, y, prime, ch, false); }
		else if (kind == 7) { j[k] = (int)r.below(m); judge("column-index", i, j, x, y, prime, ch, false); }
		else if (kind == 8 && rk > 1) { int l = (int)r.below(rk); std::swap(x[k], x[l]); judge("x-swap", i, j, x, y, prime, ch, false); }
		else if (kind == 9) { i.pop_back(); j.pop_back(); x.pop_back(); y.pop_back(); judge("smaller-rank", i, j, x, y, prime, ch, false); }
		else if (kind == 10) { i.push_back((int)r.below(n)); j.push_back((int)r.below(m)); x.push_back((int)ref_balanced((ru32)r.below(p), p)); y.push_back(0); judge("larger-rank", i, j, x, y, prime, ch, false); }
		else if (kind == 11) {   // another matrix
			Mat B = e.A; int ch2 = r.range(1, 3);
			for (int q = 0; q < ch2 && n && m; q++) B.at((int)r.below(n), (int)r.below(m)) = (ru32)r.below(p);
			spasm_csr *MB = make_csr(B, r);
			int want = ref(B, hash, i, j, x, y, prime, ch); bool got = verify(MB, hash, i, j, x, y, prime, ch);
			if (want >= 0 && got != (want == 1)) c.fail("other-matrix", "certificate for another matrix: verdict %d, equations say %d", got, want);
			if (p > (1u << 20) && got && ref_rank(B) != rk) c.fail("false-rank-accepted", "certificate of rank %d accepted for a matrix of rank %d", rk, ref_rank(B));
			count_event("other-matrix-verifications");
			spasm_csr_free(MB);
		}
	}
	// cheating prover: forge a certificate of too small / too large rank by solving the equations it can
	if (p > (1u << 20) && rk > 1) {
		// claim rank rk-1 with honest-looking responses computed from a factorization of a sub-matrix (row dropped)
		Mat B = e.A; int drop = pr->i[r.below(rk)];
		for (int jj = 0; jj < m; jj++) B.at(drop, jj) = 0;
		if (ref_rank(B) < rk) {
			spasm_csr *MB = make_csr(B, r);
			struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1;
			spasm_lu *fb = spasm_echelonize(MB, &o);
			spasm_rank_certificate *pb = spasm_certificate_rank_create(MB, hash, fb);
			if (spasm_certificate_rank_verify(e.M, hash, pb)) c.fail("false-rank-accepted", "certificate of rank %d (made for a matrix with a row removed) accepted for rank %d", pb->r, rk);
			if (spasm_certificate_rank_verify(MB, hash, pr)) c.fail("false-rank-accepted", "certificate of rank %d accepted for a matrix of rank %d", rk, pb->r);
			count_event("forged-claims", 2);
			cert_free(pb, true); free_lu(fb); spasm_csr_free(MB);
		}
	}
	// truncated and mutilated files
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len); spasm_rank_certificate_save(pr, f); fclose(f);
	for (int t = 0; t < rounds && len > 0; t++) {
		std::string s(buf, len); const char *what;
		size_t min_len = len; while (min_len > 0 && (s[min_len - 1] == '\n' || s[min_len - 1] == ' ')) min_len--;
		int kind = (int)r.below(5);
		bool must_refuse = false;
		// the last number may be cut in the middle: still a well-formed (different) file; cut strictly before it
		size_t last_tok = min_len; while (last_tok > 0 && s[last_tok - 1] != ' ' && s[last_tok - 1] != '\n') last_tok--;
		if (kind == 0) { what = "truncated"; size_t cut = r.below(last_tok + 1); if (rk == 0) cut = r.below(min_len > 64 ? min_len - 1 : 1); s.resize(cut); must_refuse = true; }
		else if (kind == 1) { what = "garbage-number"; size_t pos = r.below(s.size()); s.insert(pos, "x"); }
		else if (kind == 2) { what = "negative-rank"; s = "-" + std::to_string(1 + r.below(5)) + s.substr(s.find('\n')); must_refuse = true; }
		else if (kind == 3) { what = "huge-rank"; s = (r.coin() ? "2147483647" : std::to_string(rk + 1 + r.below(5))) + s.substr(s.find('\n')); must_refuse = true; }
		else { what = "bit-flip"; size_t pos = r.below(s.size()); s[pos] ^= (char)(1 << r.below(7)); }
		if (s.empty()) { s = " "; }
		FILE *in = fmemopen((void *)s.data(), s.size(), "r");
		spasm_rank_certificate q; memset(&q, 0, sizeof q);
		bool ok = spasm_rank_certificate_load(in, &q);
		fclose(in);
		count_event(ok ? "mutated-files-loaded" : "mutated-files-refused");
		if (ok && must_refuse) c.fail(std::string("loaded-") + what, "a certificate file that is %s was loaded without error (%zu of %zu bytes)", what, s.size(), len);
		if (ok) {
			// whatever was loaded must verify only if it satisfies the equations
			int want = ref_verify(e.A, hash, &q); bool got = spasm_certificate_rank_verify(e.M, hash, &q);
			if (want >= 0 && got != (want == 1)) c.fail("mutated-file-verdict", "verdict %d on a mutated certificate file (%s), equations say %d", got, what, want);
			cert_free(&q, false);
		}
	}
	free(buf);
	cert_free(pr, true);
}
