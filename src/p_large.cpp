// Whole pipeline on large sparse matrices of known rank. Nothing is expanded to a dense matrix here: identities are
// tested on random combinations (enough of them to leave a chance of at most 2^-40 to a wrong answer).
#include "mon.hpp"
#include <algorithm>

static std::vector<int> rperm(Rng &r, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }
typedef std::vector<ru32> Vec;
static Vec rvec(Rng &r, int n, ru64 p) { Vec v(n); for (auto &x : v) x = (ru32)r.below(p); return v; }
static int trials(ru64 p) { double b = 0; for (ru64 q = p; q > 1; q >>= 1) b++; return (int)(40 / (b < 2 ? 1 : b - 1)) + 1; }

// y += f * (row i of A)
static inline void addrow(Vec &y, const spasm_csr *A, int i, ru64 f, ru64 p)
{
	if (!f) return;
	for (i64 t = A->p[i]; t < A->p[i + 1]; t++) { ru32 &v = y[A->j[t]]; v = (ru32)((v + f * res(A->x[t], p)) % p); }
}
static Vec xA(const Vec &x, const spasm_csr *A, ru64 p) { Vec y(A->m, 0); for (int i = 0; i < A->n; i++) addrow(y, A, i, x[i], p); return y; }
static Vec Ax(const spasm_csr *A, const Vec &x, ru64 p)
{
	Vec y(A->n, 0);
	for (int i = 0; i < A->n; i++) { ru64 s = 0; for (i64 t = A->p[i]; t < A->p[i + 1]; t++) s = (s + res(A->x[t], p) * x[A->j[t]]) % p; y[i] = (ru32)s; }
	return y;
}
static bool zero(const Vec &v) { for (ru32 x : v) if (x) return false; return true; }
// eliminates the pivots of U (rows in order, pivot first and equal to 1) from y
static void reduce(Vec &y, const spasm_csr *U, ru64 p) { for (int k = 0; k < U->n; k++) if (U->p[k] < U->p[k + 1]) { ru32 v = y[U->j[U->p[k]]]; if (v) addrow(y, U, k, p - v, p); } }

struct Big { SMat S; spasm_csr *M = nullptr; int n = 0, m = 0, rank = 0; ru64 p = 3; };
static ru32 rv(Rng &r, ru64 p) { switch (r.below(5)) { case 0: return 1; case 1: return (ru32)(p - 1); case 2: return (ru32)((p - 1) / 2); default: return (ru32)(1 + r.below(p - 1)); } }
static int logrange(Rng &r, int lo, int hi) { double f = r.unit(), a = lo, q = hi / (double)lo; while (f > 0.125) { f -= 0.125; a *= __builtin_pow(q, 0.125); } a *= __builtin_pow(q, f); int v = (int)a; return v < lo ? lo : v > hi ? hi : v; }
// entries only (the rank does not matter)
static void gen_plain(Case &c, Big &b)
{
	Rng &r = c.rng;
	int top = c.slow || c.chaos ? 5000 : 300000;
	b.p = pick_prime(r); b.n = logrange(r, 500, top); b.m = r.coin(0.3) ? b.n : logrange(r, 500, top);
	b.S.n = b.n; b.S.m = b.m; b.S.p = b.p; b.S.rows.assign(b.n, {});
	double w = r.unit() * 4; bool hub = r.coin(0.3);
	for (int i = 0; i < b.n; i++) {
		std::map<int, ru32> s; int k = (int)(w * 2 * r.unit());
		for (int e = 0; e < k; e++) s[hub && e == 0 ? (int)r.below(10) : (int)r.below(b.m)] = rv(r, b.p);
		if (r.coin(0.00005)) for (int e = 0; e < 20000; e++) s[(int)r.below(b.m)] = rv(r, b.p);
		for (auto &e : s) b.S.rows[i].push_back(e);
	}
	c.desc += strf("large pattern %dx%d p=%llu", b.n, b.m, (unsigned long long)b.p);
	b.M = make_csr(b.S, r);
	c.mix(hash_csr(b.M)); c.nontrivial = true;
	count_event("large-matrices"); max_event("rows-max", (ru64)b.n); max_event("columns-max", (ru64)b.m); max_event("entries-max", (ru64)b.M->p[b.n]);
}
static void gen_big(Case &c, Big &b)
{
	Rng &r = c.rng;
	b.p = pick_prime(r);
	int top = c.chaos ? 320 : c.slow ? 1300 : c.thorough ? 20000 : 8000, mid = c.chaos ? 130 : c.slow ? 400 : 1200;
	int shape = (int)r.below(5), n, m;
	if (shape == 0) { n = r.range(100, mid); m = r.range(100, mid); }
	else if (shape == 1) { n = r.range(mid, top); m = r.range(50, mid / 2); }
	else if (shape == 2) { n = r.range(50, mid / 2); m = r.range(mid, top); }
	else { n = r.range(mid, top); m = r.range(mid, top); }
	int lo = std::min(n, m);
	b.n = n; b.m = m;
	int kind = shape >= 3 ? 1 + (int)r.below(4) : (int)r.below(5);
	if (kind == 0 || kind == 1) {          // general sparse of planted rank; big ones are kept very sparse or of nearly full rank
		b.rank = r.coin(0.3) ? lo : r.range(1, lo);
		double lw = kind == 0 ? 1 + r.unit() : 0.25 * r.unit(), uw = kind == 0 ? 1 + 2 * r.unit() : 0.4 + 0.6 * r.unit();
		b.S = gen_planted(r, b.p, n, m, b.rank, lw, uw, c.desc);
	} else {
		// local structure: the elimination fills within a band (kind 2), within blocks (3), or hardly at all (4)
		b.rank = r.coin(0.3) ? lo : r.range(lo / 2, lo);
		int w = kind == 2 ? r.range(2, 12) : r.range(5, 60);
		std::vector<std::map<int, ru32>> U(b.rank);
		int heavy = kind == 4 && r.coin() ? r.range(10, 80) : 3;
		for (int i = 0; i < b.rank; i++) {
			U[i][i] = 1;
			int k = r.range(0, heavy);
			for (int e = 0; e < k; e++) {
				int j = kind == 4 ? b.rank + (int)r.below(std::max(1, m - b.rank)) : i + 1 + (int)r.below(w);
				if (kind == 3) { j = i / w * w + (int)r.below(w); if (j <= i) continue; }
				if (j > i && j < m) U[i][j] = rv(r, b.p);
			}
		}
		b.S.n = n; b.S.m = m; b.S.p = b.p; b.S.rows.assign(n, {});
		auto pr = rperm(r, n), pc = rperm(r, m);
		if (r.coin(0.3)) { for (int i = 0; i < n; i++) pr[i] = i; for (int j = 0; j < m; j++) pc[j] = j; }
		for (int i = 0; i < n; i++) {
			std::map<int, ru64> acc;
			auto add = [&](int k, ru64 f) { for (auto &e : U[k]) { ru64 &x = acc[e.first]; x = (x + f * e.second) % b.p; } };
			if (i < b.rank) add(i, rv(r, b.p));
			int lim = std::min(i, b.rank), k = i < b.rank ? r.range(0, 2) : r.coin(0.1) ? 0 : r.range(1, 3);
			int base = i < b.rank ? i : lim ? (int)r.below(lim) : 0;
			for (int e = 0; e < k && lim > 0; e++) {
				int t = base - 1 - (int)r.below(w);
				if (kind == 3) t = base / w * w + (int)r.below(w);
				if (t >= 0 && t < lim) add(t, rv(r, b.p));
			}
			for (auto &e : acc) if (e.second) b.S.rows[pr[i]].push_back({pc[e.first], (ru32)e.second});
		}
		c.desc += strf("local kind %d width %d %dx%d rank %d p=%llu", kind, w, n, m, b.rank, (unsigned long long)b.p);
	}
	b.M = make_csr(b.S, r);
	c.mix(hash_csr(b.M)); c.nontrivial = true;
	count_event("large-matrices"); max_event("rows-max", (ru64)n); max_event("columns-max", (ru64)m); max_event("rank-max", (ru64)b.rank);
}
static void big_opts(Case &c, const Big &b, struct echelonize_opts &o, bool L)
{
	bool full; gen_opts(c.rng, &o, b.n, b.m, full, c.desc, false, L);
	if (!full) o.enable_GPLU = 1;
	if (o.dense_block_size < 50) o.dense_block_size = 50;
	if (o.low_rank_start_weight >= 0 && o.low_rank_start_weight < 5) o.low_rank_start_weight = -1;
	if (o.max_round > 3) o.max_round = 3;
	if (b.n > 2000 && b.m > 2000 && o.max_round < 1) o.max_round = 1;
	c.note(opts_str(o));
}
// shape of U, and every row of A in its row space
// report = false: U is only a premise of the property being decided
#define BAD(...) do { if (report) c.fail(__VA_ARGS__); else count_event("premise-failed"); } while (0)
static bool big_U(Case &c, const Big &b, const spasm_lu *f, bool report)
{
	const spasm_csr *U = f->U; ru64 p = b.p;
	std::string w = csr_complaint(U, CK_DUP | CK_CANON);
	if (!w.empty()) { BAD("U-malformed", "U: %s", w.c_str()); return false; }
	if (U->m != b.m || f->r != U->n || U->n != b.rank) { BAD("wrong-rank", "rank %d reported, U is %d x %d, rank by construction %d", f->r, U->n, U->m, b.rank); return false; }
	int cnt = 0;
	for (int j = 0; j < b.m; j++) { int k = f->qinv[j]; if (k == -1) continue; cnt++; if (k < 0 || k >= U->n || U->p[k] == U->p[k + 1] || U->j[U->p[k]] != j || U->x[U->p[k]] != 1) { BAD("pivot-not-first", "qinv[%d] = %d does not start with 1 on that column", j, k); return false; } }
	if (cnt != U->n) { BAD("row-without-pivot", "%d columns with a pivot, %d rows", cnt, U->n); return false; }
	for (int k = 0; k < U->n; k++) for (i64 t = U->p[k] + 1; t < U->p[k + 1]; t++) { int l = f->qinv[U->j[t]]; if (l >= 0 && l < k && U->x[t]) { BAD("not-triangular", "row %d has an entry on the pivot column of row %d", k, l); return false; } }
	for (int s = trials(p); s > 0; s--) { Vec y = xA(rvec(c.rng, b.n, p), b.M, p); reduce(y, U, p); if (!zero(y)) { BAD("row-not-spanned", "a combination of the rows of A does not reduce to zero against U"); return false; } count_event("identities"); }
	return true;
}
static bool big_L(Case &c, const Big &b, const spasm_lu *f, bool complete)
{
	const spasm_csr *L = f->L, *U = f->U; ru64 p = b.p;
	if (!L || !f->p) { c.fail("no-L", "L or p missing although requested"); return false; }
	std::string w = csr_complaint(L, CK_ALL);
	if (!w.empty()) { c.fail("L-malformed", "L: %s", w.c_str()); return false; }
	if (L->n != b.n || L->m != U->n || f->complete != complete) { c.fail("L-shape", "L is %d x %d (complete %d), expected %d x %d (%d)", L->n, L->m, f->complete, b.n, U->n, complete); return false; }
	std::vector<int> row_of(b.n, -1);
	for (int k = 0; k < U->n; k++) { int i = f->p[k]; if (i < 0 || i >= b.n || row_of[i] >= 0) { c.fail("p-dup", "p[%d] = %d is out of range or repeated", k, i); return false; } row_of[i] = k; }
	for (int i = 0; i < b.n; i++) {
		int k = row_of[i]; bool diag = false;
		if (k < 0) continue;
		for (i64 t = L->p[i]; t < L->p[i + 1]; t++) { if (L->j[t] > k) { c.fail("L-not-triangular", "L[p[%d]=%d][%d] is not zero", k, i, L->j[t]); return false; } if (L->j[t] == k) diag = true; }
		if (!diag) { c.fail("L-zero-diagonal", "L[p[%d]=%d][%d] is zero", k, i, k); return false; }
	}
	for (int s = trials(p); s > 0; s--) {
		Vec x = rvec(c.rng, b.n, p);
		if (!complete) for (int i = 0; i < b.n; i++) if (row_of[i] < 0) x[i] = 0;
		Vec y = xA(x, b.M, p), z = xA(xA(x, L, p), U, p);
		if (y != z) { c.fail("LU-differs", "x*A differs from (x*L)*U for a combination of the %s rows", complete ? "" : "pivotal"); return false; }
		count_event("identities");
	}
	return true;
}
static bool big_kernel(Case &c, const Big &b, const spasm_csr *K, const int *qinv, const char *what)
{
	std::string k(what), w = csr_complaint(K, CK_ALL);
	if (!w.empty()) { c.fail(k + "-malformed", "%s: %s", what, w.c_str()); return false; }
	if (K->n != b.m - b.rank || K->m != b.m || (ru64)K->field->p != b.p) { c.fail(k + "-dimension", "%s is %d x %d, expected %d x %d", what, K->n, K->m, b.m - b.rank, b.m); return false; }
	std::vector<char> own(b.m, 0);
	for (int i = 0; i < K->n; i++) {
		int mine = -1;
		for (i64 t = K->p[i]; t < K->p[i + 1]; t++) if (qinv[K->j[t]] < 0) { if (mine >= 0) { c.fail(k + "-two-free-columns", "row %d has two non-pivotal columns", i); return false; } mine = K->j[t]; if (K->x[t] != -1) { c.fail(k + "-not-minus-one", "row %d has %d on its own column", i, K->x[t]); return false; } }
		if (mine < 0 || own[mine]++) { c.fail(k + "-dup-row", "row %d has no column of its own", i); return false; }
	}
	for (int s = trials(b.p); s > 0; s--) { if (!zero(Ax(b.M, xA(rvec(c.rng, K->n, b.p), K, b.p), b.p))) { c.fail(k + "-not-in-kernel", "a combination of the rows of %s is not in the kernel", what); return false; } count_event("identities"); }
	count_event("kernel-vectors-checked", (ru64)K->n);
	return true;
}
static ru64 hash_lu(const spasm_lu *f) { ru64 h = mix64(hash_csr(f->U), (ru64)f->r); h = hash_bytes(f->qinv, sizeof(int) * (size_t)f->U->m, h); if (f->L) { h = mix64(h, hash_csr(f->L)); h = hash_bytes(f->p, sizeof(int) * (size_t)f->U->n, h); } return h; }

static void large_solve(Case &c, const Big &b, const spasm_lu *f)
{
	Rng &r = c.rng; ru64 p = b.p;
	int k = r.range(1, 8);
	std::vector<Vec> B; std::vector<bool> in;
	for (int t = 0; t < k; t++) {
		Vec x(b.n, 0);
		if (r.coin()) x = rvec(r, b.n, p); else for (int e = 0; e < 4; e++) x[r.below(b.n)] = (ru32)r.below(p);
		Vec y = xA(x, b.M, p);
		if (r.coin(0.4)) { ru32 &v = y[r.below(b.m)]; v = (ru32)((v + 1 + r.below(p - 1)) % p); }
		Vec z = y; reduce(z, f->U, p);          // U was checked: this decides membership
		B.push_back(y); in.push_back(zero(z));
		count_event(in.back() ? "solvable-systems" : "unsolvable-systems");
	}
	SMat S; S.n = k; S.m = b.m; S.p = p; S.rows.resize(k);
	for (int t = 0; t < k; t++) {
		std::vector<spasm_ZZp> bb(b.m), x(b.n, 0x55555555);
		for (int j = 0; j < b.m; j++) { bb[j] = (spasm_ZZp)ref_balanced(B[t][j], p); if (B[t][j]) S.rows[t].push_back({j, B[t][j]}); }
		bool ok = spasm_solve(f, bb.data(), x.data());
		if (ok != in[t]) { c.fail("solve-verdict", "solve says %d, b %s in the row space", ok, in[t] ? "is" : "is not"); return; }
		if (ok && xA(to_vec(x.data(), b.n, p), b.M, p) != B[t]) { c.fail("solution-wrong", "x*A differs from b"); return; }
	}
	spasm_csr *Bm = make_csr(S, r);
	std::vector<unsigned char> ok(k, 2);
	spasm_csr *X = spasm_gesv(f, Bm, (bool *)ok.data());
	std::string w = csr_complaint(X, CK_ALL);
	if (!w.empty()) c.fail("X-malformed", "X: %s", w.c_str());
	else if (X->n != k || X->m != b.n) c.fail("X-shape", "X is %d x %d, expected %d x %d", X->n, X->m, k, b.n);
	else for (int t = 0; t < k; t++) {
		if (ok[t] != (in[t] ? 1 : 0)) { c.fail("gesv-verdict", "row %d: gesv says %d, expected %d", t, ok[t], (int)in[t]); break; }
		if (!in[t]) continue;
		Vec x(b.n, 0); addrow(x, X, t, 1, p);
		if (xA(x, b.M, p) != B[t]) { c.fail("gesv-wrong", "row %d: x*A differs from b", t); break; }
		count_event("gesv-rows");
	}
	spasm_csr_free(X); spasm_csr_free(Bm);
}
static void large_cert(Case &c, const Big &b, const spasm_lu *f)
{
	Rng &r = c.rng; ru64 p = b.p;
	u8 hash[32]; for (auto &h : hash) h = (u8)r.next();
	spasm_rank_certificate *pr = spasm_certificate_rank_create(b.M, hash, f);
	if (pr->r != b.rank) c.fail("cert-rank", "certificate states rank %d instead of %d", pr->r, b.rank);
	else if (!spasm_certificate_rank_verify(b.M, hash, pr)) c.fail("honest-rejected", "honest certificate of rank %d rejected", pr->r);
	if (!spasm_factorization_verify(b.M, f, r.next())) c.fail("factorization-rejected", "correct factorization rejected by its verifier");
	// the equations, independently
	RefPrng g(hash, p, 0);
	Vec x(b.n, 0); std::vector<char> seen(b.n, 0), seenj(b.m, 0); bool dup = false;
	for (int k = 0; k < pr->r; k++) { int i = pr->i[k], j = pr->j[k]; if (i < 0 || i >= b.n || j < 0 || j >= b.m || seen[i]++ || seenj[j]++) { dup = true; break; } x[i] = (ru32)res(pr->x[k], p); }
	if (dup) c.fail("cert-repeated-index", "certificate repeats a row or column, or leaves the matrix");
	else {
		Vec y = xA(x, b.M, p); bool good = true;
		for (int k = 0; k < pr->r; k++) if (y[pr->j[k]] != g.zzp()) good = false;
		Vec z(b.n, 0); for (int k = 0; k < pr->r; k++) z[pr->i[k]] = (ru32)res(pr->y[k], p);
		for (int i = 0; i < b.n; i++) if (!seen[i]) z[i] = g.zzp();
		if (!good || !zero(xA(z, b.M, p))) c.fail("equations", "certificate does not satisfy the equations of the protocol");
	}
	char *buf = NULL; size_t len = 0;
	FILE *o = open_memstream(&buf, &len); spasm_rank_certificate_save(pr, o); fclose(o);
	FILE *in = fmemopen(buf, len, "r");
	spasm_rank_certificate q; memset(&q, 0, sizeof q);
	if (!spasm_rank_certificate_load(in, &q)) c.fail("load-failed", "cannot load a saved certificate");
	else {
		size_t z = sizeof(int) * (size_t)pr->r;
		if (q.r != pr->r || q.prime != pr->prime || memcmp(q.hash, pr->hash, 32) || memcmp(q.i, pr->i, z) || memcmp(q.j, pr->j, z) || memcmp(q.x, pr->x, z) || memcmp(q.y, pr->y, z)) c.fail("load-differs", "loaded certificate differs from the saved one");
		free(q.i); free(q.j); free(q.x); free(q.y);
	}
	fclose(in); free(buf);
	count_event("certificates");
	free(pr->i); free(pr->j); free(pr->x); free(pr->y); free(pr);
}
// altered certificates on a large matrix: one response changed, far from where small cases reach
static void large_cert_reject(Case &c, const Big &b, const spasm_lu *f)
{
	Rng &r = c.rng; ru64 p = b.p;
	u8 hash[32]; for (auto &h : hash) h = (u8)r.next();
	spasm_rank_certificate *pr = spasm_certificate_rank_create(b.M, hash, f);
	for (int t = 0; t < 12 && pr->r > 0 && c.nviol == 0; t++) {
		int k = r.coin(0.2) ? pr->r - 1 : r.coin(0.2) ? 0 : (int)r.below(pr->r);
		spasm_ZZp *w = r.coin() ? pr->x : pr->y, old = w[k];
		w[k] = (spasm_ZZp)ref_balanced((res(old, p) + 1 + r.below(p - 1)) % p, p);
		// a changed response always breaks an equation: the selected rows and columns are independent
		bool got = spasm_certificate_rank_verify(b.M, hash, pr);
		Vec d(b.n, 0); d[pr->i[k]] = 1; Vec y = xA(d, b.M, p); bool affects = false;
		if (w == pr->x) { for (int l = 0; l < pr->r; l++) if (y[pr->j[l]]) affects = true; } else affects = !zero(y);
		if (got && affects) c.fail(w == pr->x ? "accepted-x-value" : "accepted-y-value", "response %d of %d altered, certificate still accepted", k, pr->r);
		w[k] = old; count_event("alterations-invalid");
	}
	if (pr->r > 1 && p > (1u << 20) && c.nviol == 0) {       // claims of a smaller rank
		pr->r--; if (spasm_certificate_rank_verify(b.M, hash, pr)) c.fail("accepted-smaller-rank", "rank %d claimed and accepted, true rank %d", pr->r, b.rank); pr->r++;
		u8 h2[32]; memcpy(h2, hash, 32); h2[r.below(32)] ^= (u8)(1 << r.below(8));
		if (spasm_certificate_rank_verify(b.M, h2, pr)) c.fail("accepted-hash", "certificate accepted for another hash");
	}
	// a matrix with one row outside the row space added by changing one entry
	if (p > (1u << 20) && b.rank < std::min(b.n, b.m) && c.nviol == 0) {
		SMat S = b.S; int i = (int)r.below(b.n), j = -1;
		for (int t = 0; t < 50 && j < 0; t++) { int jj = (int)r.below(b.m); if (f->qinv[jj] < 0) j = jj; }
		std::vector<char> pivrow(b.n, 0); for (int k = 0; k < pr->r; k++) pivrow[pr->i[k]] = 1;
		for (int t = 0; t < 50 && pivrow[i]; t++) i = (int)r.below(b.n);
		if (j >= 0 && !pivrow[i]) {
			bool found = false; ru32 add = (ru32)(1 + r.below(p - 1));
			for (auto &e : S.rows[i]) if (e.first == j) { e.second = (ru32)((e.second + add) % p); found = true; }
			if (!found) S.rows[i].push_back({j, add});
			spasm_csr *B = make_csr(S, r);
			// row i was in the row space of A; adding a multiple of e_j keeps it there only if e_j is spanned
			Vec e(b.m, 0); e[j] = 1; reduce(e, f->U, p);
			if (!zero(e) && spasm_certificate_rank_verify(B, hash, pr)) c.fail("false-rank-accepted", "certificate of rank %d accepted for a matrix of rank %d", b.rank, b.rank + 1);
			count_event("forged-claims");
			spasm_csr_free(B);
		}
	}
	free(pr->i); free(pr->j); free(pr->x); free(pr->y); free(pr);
}
static void large_schur(Case &c, Big &b)
{
	Rng &r = c.rng; ru64 p = b.p; int n = b.n, m = b.m;
	spasm_lu *f = (spasm_lu *)calloc(1, sizeof *f);
	f->U = spasm_csr_alloc(n, m, 1, (i64)p, true); f->U->n = 0; f->U->p[0] = 0;
	f->qinv = (int *)malloc(sizeof(int) * (size_t)m); for (int j = 0; j < m; j++) f->qinv[j] = -1;
	int kind = (int)r.below(4);
	bool wantL = kind < 3 && r.coin();
	if (wantL) { f->Ltmp = spasm_triplet_alloc(n, n, 1, (i64)p, true); f->p = (int *)malloc(sizeof(int) * (size_t)n); }
	std::vector<int> pp(n); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = r.coin(0.8);
	int np = spasm_pivots_extract_structural(b.M, NULL, f, pp.data(), &o);
	int rest = n - np, Sm = m - np;
	const int *P = pp.data() + np;
	i64 l0 = wantL ? f->Ltmp->nz : 0;
	const spasm_csr *U = f->U;
	double est = spasm_schur_estimate_density(b.M, P, rest, U, f->qinv, 50);
	if (!(est >= 0 && est <= 1)) c.fail("density-range", "density estimate %g outside [0,1]", est);
	if ((double)est * rest * Sm > 4e7) kind = 3;
	if ((double)rest * Sm > 4e7 && kind == 1) kind = 0;
	c.note(strf("%d pivots, %d rows left, kind %d", np, rest, kind));
	std::vector<char> isrow(n, 0); for (int t = 0; t < rest; t++) isrow[P[t]] = 1;
	if (rest == 0 || Sm == 0) { if (kind) kind = 0; }
	// x*(A rows) = x*S + (x*L)*U
	auto identity = [&](const std::vector<int> &origin, const std::function<Vec(const Vec &)> &xS) {
		for (int s = trials(p); s > 0; s--) {
			Vec x = rvec(r, rest, p), big(n, 0);
			for (int t = 0; t < rest; t++) big[origin[t]] = x[t];
			Vec y = xA(big, b.M, p), z = xS(x);
			for (int j = 0; j < m; j++) if (z[j] && f->qinv[j] >= 0) { c.fail("S-row", "S is not zero on the pivotal column %d", j); return; }
			Vec d(m); for (int j = 0; j < m; j++) d[j] = (ru32)((y[j] + p - z[j]) % p);
			Vec e = d; reduce(e, U, p);
			if (!zero(e)) { c.fail("S-row", "the rows of S are not the exact eliminations"); return; }
			if (wantL) {
				Vec l(U->n, 0);
				for (i64 t = l0; t < f->Ltmp->nz; t++) { ru32 v = big[f->Ltmp->i[t]]; if (v) { ru32 &w = l[f->Ltmp->j[t]]; w = (ru32)((w + v * res(f->Ltmp->x[t], p)) % p); } }
				if (xA(l, U, p) != d) { c.fail("L-value", "the coefficients recorded in L do not reproduce the eliminated rows"); return; }
			}
			count_event("identities");
		}
		count_event("schur-rows-checked", (ru64)rest);
	};
	auto origins = [&](const std::vector<int> &po) {
		std::vector<char> s(n, 0);
		for (int t = 0; t < rest; t++) if (po[t] < 0 || po[t] >= n || !isrow[po[t]] || s[po[t]]++) { c.fail("origin", "p_out[%d] = %d (repeated or not requested)", t, po[t]); return false; }
		return true;
	};
	auto Lok = [&]() {
		if (!wantL) return true;
		const spasm_triplet *L = f->Ltmp; std::set<std::pair<int, int>> seen;
		for (i64 t = l0; t < L->nz; t++) if (L->i[t] < 0 || L->i[t] >= n || !isrow[L->i[t]] || L->j[t] < 0 || L->j[t] >= U->n || !canonical(L->x[t], p) || !seen.insert({L->i[t], L->j[t]}).second) { c.fail("L-index", "entry (%d,%d) recorded in L", L->i[t], L->j[t]); return false; }
		return true;
	};
	std::vector<int> po(n + 1, -99);
	if (kind == 0 || kind == 2) {
		spasm_csr *S = spasm_schur(b.M, P, rest, f, r.coin() ? est : r.coin() ? -1 : est / 10, f->Ltmp, NULL, po.data());
		std::string w = csr_complaint(S, CK_ALL);
		if (!w.empty()) c.fail("S-malformed", "S: %s", w.c_str());
		else if (S->n != rest || S->m != m) c.fail("S-shape", "S is %d x %d, expected %d x %d", S->n, S->m, rest, m);
		else if (origins(po) && Lok()) identity(po, [&](const Vec &x) { return xA(x, S, p); });
		count_event("sparse-schurs"); max_event("schur-entries-max", (ru64)spasm_nnz(S));
		spasm_csr_free(S);
	} else if (rest > 0 && Sm > 0) {
		spasm_datatype dt = spasm_datatype_choose((i64)p); size_t es = spasm_datatype_size(dt);
		int N = kind == 1 ? rest : r.range(1, 40);
		std::vector<unsigned char> S((size_t)N * Sm * es + 16, 0xA5); std::vector<int> q(Sm, -7);
		if (kind == 1) spasm_schur_dense(b.M, P, rest, NULL, f, S.data(), dt, q.data(), po.data());
		else spasm_schur_dense_randomized(b.M, P, rest, U, f->qinv, S.data(), dt, q.data(), N, r.coin(0.3) ? 0 : r.range(1, 60));
		bool bad = false; std::vector<char> sq(m, 0);
		for (int j : q) if (j < 0 || j >= m || f->qinv[j] >= 0 || sq[j]++) bad = true;
		if (bad) c.fail("q-map", "q does not list the non-pivotal columns exactly once");
		auto xS = [&](const Vec &x) { Vec y(m, 0); for (int a = 0; a < N; a++) if (x[a]) for (int t = 0; t < Sm; t++) { ru32 &v = y[q[t]]; v = (ru32)((v + x[a] * res(spasm_datatype_read(S.data(), (size_t)a * Sm + t, dt), p)) % p); } return y; };
		if (bad) ;
		else if (kind == 1) { if (origins(po) && Lok()) identity(po, xS); count_event("dense-schurs"); }
		else {
			spasm_echelonize_init_opts(&o); o.L = 0;
			spasm_lu *g = spasm_echelonize(b.M, &o);
			if (big_U(c, b, g, false)) for (int s = trials(p); s > 0; s--) { Vec y = xS(rvec(r, N, p)); reduce(y, g->U, p); if (!zero(y)) { c.fail("random-row", "a random row is no combination of the rows of the matrix"); break; } count_event("identities"); }
			free_lu(g); count_event("randomized-schurs");
		}
	}
	if (f->Ltmp) spasm_triplet_free(f->Ltmp);
	f->Ltmp = NULL; spasm_lu_free(f);
}
static bool same_rows(const spasm_csr *A, const std::vector<std::vector<std::pair<int, ru32>>> &want, ru64 p)
{
	if (A->n != (int)want.size()) return false;
	for (int i = 0; i < A->n; i++) {
		std::vector<std::pair<int, ru32>> a, w = want[i];
		for (i64 t = A->p[i]; t < A->p[i + 1]; t++) a.push_back({A->j[t], A->x ? (ru32)res(A->x[t], p) : 0});
		if (!A->x) for (auto &e : w) e.second = 0;
		std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end());
		if (a != w) return false;
	}
	return true;
}
static void large_transforms(Case &c, Big &b)
{
	Rng &r = c.rng; int n = b.n, m = b.m; bool v = r.coin(0.8);
	typedef std::vector<std::vector<std::pair<int, ru32>>> Rows;
	Rows T(m); for (int i = 0; i < n; i++) for (auto &e : b.S.rows[i]) T[e.first].push_back({i, e.second});
	spasm_csr *A = spasm_transpose(b.M, v);
	if (A->m != n || (A->x != NULL) != v || !same_rows(A, T, b.p)) c.fail("transpose", "the transpose is wrong");
	spasm_csr_free(A);
	auto p = rperm(r, n), q = rperm(r, m); std::vector<int> qinv(m); for (int j = 0; j < m; j++) qinv[q[j]] = j;
	int *qi = spasm_pinv(q.data(), m); if (!std::equal(qinv.begin(), qinv.end(), qi)) c.fail("pinv", "inverse permutation is wrong"); 
	Rows P(n); for (int i = 0; i < n; i++) for (auto &e : b.S.rows[p[i]]) P[i].push_back({qinv[e.first], e.second});
	A = spasm_permute(b.M, p.data(), qinv.data(), v);
	if (A->m != m || !same_rows(A, P, b.p)) c.fail("permute", "the permuted matrix is wrong");
	spasm_csr_free(A); free(qi);
	int r0 = (int)r.below(n + 1), r1 = r.range(r0, n), c0 = (int)r.below(m + 1), c1 = r.range(c0, m);
	Rows S(r1 - r0); for (int i = r0; i < r1; i++) for (auto &e : b.S.rows[i]) if (e.first >= c0 && e.first < c1) S[i - r0].push_back({e.first - c0, e.second});
	A = spasm_submatrix(b.M, r0, r1, c0, c1, v);
	if (A->m != c1 - c0 || !same_rows(A, S, b.p)) c.fail("submatrix", "submatrix [%d,%d) x [%d,%d) is wrong", r0, r1, c0, c1);
	spasm_csr_free(A);
	// vectors and permutations of up to millions of elements
	int k = logrange(r, 1000, c.slow || c.chaos ? 20000 : 3000000);
	int *z = spasm_random_permutation(k), *zi = spasm_pinv(z, k);
	std::vector<spasm_ZZp> x(k), y(k), w(k);
	for (auto &e : x) e = (spasm_ZZp)r.below(1u << 30);
	std::vector<char> seen(k, 0); bool ok = true;
	for (int i = 0; i < k && ok; i++) if (z[i] < 0 || z[i] >= k || seen[z[i]]++) { c.fail("random-permutation", "not a permutation of %d", k); ok = false; }
	for (int i = 0; i < k && ok; i++) if (zi[z[i]] != i) { c.fail("pinv", "inverse permutation of %d elements is wrong", k); ok = false; }
	if (ok) {
		spasm_pvec(z, x.data(), y.data(), k); spasm_ipvec(z, x.data(), w.data(), k);
		for (int i = 0; i < k; i++) if (y[i] != x[z[i]] || w[z[i]] != x[i]) { c.fail("pvec", "element %d of a permuted vector of %d", i, k); break; }
		int lo = (int)r.below(k + 1), hi = r.range(lo, k); auto rp = rperm(r, hi - lo), rq = rp;
		std::vector<int> v(x.begin(), x.end());
		spasm_range_pvec(v.data(), lo, hi, rq.data());
		for (int i = 0; i < k; i++) if (v[i] != (i >= lo && i < hi ? x[lo + rp[i - lo]] : x[i])) { c.fail("range-pvec", "element %d (range %d..%d)", i, lo, hi); break; }
	}
	free(z); free(zi);
	count_event("transforms", 6);
}
static void large_triplets(Case &c, Big &b, bool file)
{
	Rng &r = c.rng;
	std::vector<std::pair<int, std::pair<int, i64>>> E;
	std::vector<std::vector<std::pair<int, ru32>>> want(b.n);
	for (int i = 0; i < b.n; i++) {
		std::map<int, ru64> acc;
		for (auto &e : b.S.rows[i]) {
			int k = file || r.coin(0.7) ? 1 : r.range(2, 6);
			for (int t = 0; t < k; t++) { ru32 x = k == 1 ? e.second : (ru32)r.below(b.p); acc[e.first] = (acc[e.first] + x) % b.p; E.push_back({i, {e.first, ref_balanced(x, b.p)}}); }
			if (!file && r.coin(0.02)) { E.push_back({i, {e.first, ref_balanced((b.p - acc[e.first]) % b.p, b.p)}}); acc[e.first] = 0; }
		}
		for (auto &e : acc) if (e.second) want[i].push_back({e.first, (ru32)e.second});
	}
	if (file) {
		char *buf = NULL; size_t len = 0; FILE *o = open_memstream(&buf, &len); spasm_csr_save(b.M, o); fclose(o);
		FILE *in = fmemopen(buf, len, "r"); u8 h[32]; bool hh = r.coin();
		spasm_triplet *T = spasm_triplet_load(in, (i64)b.p, hh ? h : NULL); fclose(in);
		spasm_csr *A = spasm_compress(T);
		if (A->n != b.n || A->m != b.m || !same_rows(A, want, b.p)) c.fail("roundtrip", "the matrix read back differs");
		if (hh) { u8 w[32]; RefSha::digest((const u8 *)buf, len, w); if (memcmp(h, w, 32)) c.fail("digest", "digest differs from SHA-256 of the file"); }
		spasm_csr_free(A); spasm_triplet_free(T); free(buf);
		count_event("roundtrips");
		return;
	}
	auto pe = rperm(r, (int)E.size());
	spasm_triplet *T = spasm_triplet_alloc(b.n, b.m, r.coin() ? 1 : (i64)E.size(), (i64)b.p, true);
	for (int t : pe) spasm_add_entry(T, E[t].first, E[t].second.first, E[t].second.second);
	if (T->n < b.n) T->n = b.n;
	if (T->m < b.m) T->m = b.m;
	spasm_csr *A = spasm_compress(T);
	std::string w = csr_complaint(A, CK_ALL);
	if (!w.empty()) c.fail("malformed", "compressed matrix: %s", w.c_str());
	else if (A->n != b.n || A->m != b.m || !same_rows(A, want, b.p)) c.fail("compress", "compression of %zu triplets is wrong", E.size());
	spasm_csr_free(A); spasm_triplet_free(T);
	count_event("compressions");
}

PROP(LARGE)
{
	Big b;
	if (c.mode >= 6 && c.mode <= 8 && c.rng.coin(0.7)) gen_plain(c, b); else gen_big(c, b);
	CsrGuard g = guard_csr(b.M);
	c.pick_threads();
	c.mix((ru64)c.mode);
	if (c.mode <= 4 || c.mode == 9) {
		struct echelonize_opts o; big_opts(c, b, o, c.mode == 0 || c.mode == 3 || c.mode == 4 || c.mode == 9);
		bool L = o.L || o.complete;
		spasm_lu *f = spasm_echelonize(b.M, &o);
		count_event("echelonizations"); count_event("pivots", (ru64)f->U->n); max_event("U-entries-max", (ru64)spasm_nnz(f->U));
		if (!guard_ok(g)) c.fail("input-modified", "echelonization modified its input matrix");
		ru64 h = hash_lu(f);
		int v = c.nviol;
		if (big_U(c, b, f, c.mode == 0)) {
			if (c.mode == 0 && L) big_L(c, b, f, o.complete);
			else if (c.mode == 1) { spasm_csr *K = spasm_kernel(f); big_kernel(c, b, K, f->qinv, "kernel"); max_event("kernel-entries-max", (ru64)spasm_nnz(K)); spasm_csr_free(K); }
			else if (c.mode == 2) {
				std::vector<int> Rq(b.m, 12345678);
				spasm_csr *R = spasm_rref(f, Rq.data());
				std::string w = csr_complaint(R, CK_ALL);
				bool ok = false;
				if (!w.empty()) c.fail("R-malformed", "R: %s", w.c_str());
				else if (R->n != b.rank || R->m != b.m) c.fail("R-dimension", "R is %d x %d, expected %d x %d", R->n, R->m, b.rank, b.m);
				else {
					int cnt = 0; ok = true;
					for (int j = 0; j < b.m && ok; j++) { int k = Rq[j]; if (k == -1) continue; cnt++; if (k < 0 || k >= R->n || R->p[k] == R->p[k + 1] || R->j[R->p[k]] != j || R->x[R->p[k]] != 1) { c.fail("R-pivot-not-leading", "row %d does not start with a 1 on its pivot column %d", k, j); ok = false; } else if (f->qinv[j] < 0) { c.fail("R-pivots-differ", "column %d is a pivot of R but not of U", j); ok = false; } }
					if (ok && cnt != R->n) { c.fail("R-row-without-pivot", "%d pivots for %d rows", cnt, R->n); ok = false; }
					for (int i = 0; i < R->n && ok; i++) for (i64 t = R->p[i] + 1; t < R->p[i + 1]; t++) if (Rq[R->j[t]] >= 0) { c.fail("R-not-reduced", "row %d is nonzero on pivot column %d", i, R->j[t]); ok = false; break; }
					for (int s = trials(b.p); s > 0 && ok; s--) { Vec y = xA(rvec(c.rng, b.n, b.p), b.M, b.p); reduce(y, R, b.p); if (!zero(y)) { c.fail("R-row-space", "a combination of the rows of A does not reduce to zero against R"); ok = false; } count_event("identities"); }
				}
				if (ok) { count_event("rref-rows-checked", (ru64)R->n); spasm_csr *K = spasm_kernel_from_rref(R, Rq.data()); big_kernel(c, b, K, Rq.data(), "kernel-from-rref"); spasm_csr_free(K); }
				spasm_csr_free(R);
			}
			else if (c.mode == 3 && L) large_solve(c, b, f);
			else if (c.mode == 4 && L) large_cert(c, b, f);
			else if (c.mode == 9 && L) large_cert_reject(c, b, f);
		}
		if (c.nviol == v && hash_lu(f) != h) c.fail("factorization-modified", "the factorization was modified");
		free_lu(f);
	}
	else if (c.mode == 5) large_schur(c, b);
	else if (c.mode == 6) large_transforms(c, b);
	else if (c.mode == 7) large_triplets(c, b, false);
	else if (c.mode == 8) large_triplets(c, b, true);
	if (!guard_ok(g)) c.fail("input-modified", "the input matrix was modified");
	spasm_csr_free(b.M);
}
