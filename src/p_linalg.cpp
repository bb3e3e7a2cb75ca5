// Schur complements, triangular solves, products, dense kernels
#include "mon.hpp"
#include <algorithm>
#include <cmath>

static std::vector<int> rperm(Rng &r, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }
static ru32 rv(Rng &r, ru64 p) { switch (r.below(5)) { case 0: return 1; case 1: return (ru32)(p - 1); case 2: return (ru32)((p - 1) / 2); default: return (ru32)(1 + r.below(p - 1)); } }

// permuted upper-triangular U with unit pivots
struct Tri {
	Mat M; std::vector<int> piv;      // piv[k]: pivot column of row k
	std::vector<int> order;           // rows in an order where elimination is triangular
	std::vector<int> qinv;            // column -> row
};
static Tri gen_tri(Rng &r, ru64 p, int n, int m, double d, bool shuffle_rows)
{
	Tri T; T.M = Mat(n, m, p); T.piv.resize(n); T.qinv.assign(m, -1);
	auto q = rperm(r, m); T.order = rperm(r, n);
	if (!shuffle_rows) for (int i = 0; i < n; i++) T.order[i] = i;
	for (int t = 0; t < n; t++) {
		int k = T.order[t];
		T.piv[k] = q[t]; T.qinv[q[t]] = k; T.M.at(k, q[t]) = 1;
		for (int s = t + 1; s < m; s++) if (r.coin(d)) T.M.at(k, q[s]) = rv(r, p);
	}
	return T;
}
// pivot first on each row?
static spasm_csr *tri_csr(const Tri &T, Rng &r, bool pivot_first)
{
	spasm_csr *U = make_csr(T.M, r);
	if (pivot_first) for (int k = 0; k < U->n; k++) for (i64 t = U->p[k]; t < U->p[k + 1]; t++) if (U->j[t] == T.piv[k]) { std::swap(U->j[t], U->j[U->p[k]]); std::swap(U->x[t], U->x[U->p[k]]); }
	return U;
}
// the unique combination: y = a - sum coef[k] U[k], zero on all pivot columns
static void ref_eliminate(const Tri &T, std::vector<ru32> &y, std::vector<ru32> &coef)
{
	coef.assign(T.M.n, 0);
	for (int k : T.order) { ru32 v = y[T.piv[k]]; coef[k] = v; if (v) ref_rowsub(y.data(), T.M.row(k), v, T.M.p, 0, T.M.m); }
}
static std::vector<ru32> rowvec(const Mat &A, int i) { return std::vector<ru32>(A.row(i), A.row(i) + A.m); }

struct SchurCase { Mat A; Tri T; spasm_csr *M, *U; spasm_lu f; std::vector<int> p, p_in; bool have_pin; };
static void gen_schur(Case &c, SchurCase &s, bool ordered)
{
	Rng &r = c.rng; ru64 p = pick_prime(r);
	s.A = gen_matrix(r, p, c.desc, c.slow || c.chaos ? SZ_TINY | SZ_SMALL : SZ_ALL);
	int n = s.A.n, m = s.A.m;
	int k = r.coin(0.1) ? m : r.coin(0.1) ? 0 : r.range(0, m);
	static const double dd[] = {0, 0.02, 0.05, 0.1, 0.3, 0.8};
	s.T = gen_tri(r, p, k, m, dd[r.below(6)], !ordered && r.coin());
	s.M = make_csr(s.A, r); s.U = tri_csr(s.T, r, ordered || r.coin());
	memset(&s.f, 0, sizeof s.f);
	s.f.U = s.U; s.f.r = k;
	s.f.qinv = (int *)malloc(sizeof(int) * (size_t)(m + 1)); for (int j = 0; j < m; j++) s.f.qinv[j] = s.T.qinv[j];
	s.p.reserve(1); s.p = rperm(r, n); s.p.reserve(n + 1); if (r.coin(0.5) && n) s.p.resize(r.below(n + 1));
	s.have_pin = r.coin(); s.p_in = rperm(r, n + 3);
	c.note(strf("%d pivots, %d rows", k, (int)s.p.size()));
	c.mix(hash_mat(s.A)); c.mix(hash_mat(s.T.M)); if (!s.p.empty() && k > 0) c.nontrivial = true;
}
static void free_schur(SchurCase &s) { spasm_csr_free(s.M); spasm_csr_free(s.U); free(s.f.qinv); if (s.f.Ltmp) spasm_triplet_free(s.f.Ltmp); }

static bool check_Lappend(Case &c, const SchurCase &s, const spasm_triplet *L, i64 l0, const std::vector<Mat> &, const std::map<int, std::vector<ru32>> &coef, ru64 hash0, ru64 p)
{
	if (L->nz > L->nzmax) { c.fail("L-overflow", "L has %lld entries, capacity %lld", (long long)L->nz, (long long)L->nzmax); return false; }
	ru64 h = hash_bytes(L->i, sizeof(int) * l0); h = hash_bytes(L->j, sizeof(int) * l0, h); h = hash_bytes(L->x, sizeof(spasm_ZZp) * l0, h);
	if (h != hash0) { c.fail("L-clobbered", "entries of L recorded before were altered"); return false; }
	std::set<std::pair<int, int>> seen; ru64 want = 0;
	for (auto &e : coef) for (ru32 v : e.second) want += v != 0;
	for (i64 t = l0; t < L->nz; t++) {
		int i = L->i[t], j = L->j[t];
		auto it = coef.find(i);
		if (it == coef.end() || j < 0 || j >= s.U->n) { c.fail("L-index", "entry (%d,%d) recorded in L", i, j); return false; }
		if (!seen.insert({i, j}).second) { c.fail("L-dup", "entry (%d,%d) recorded twice in L", i, j); return false; }
		if (res(L->x[t], p) != it->second[j] || !canonical(L->x[t], p)) { c.fail("L-value", "L(%d,%d) = %d, exact coefficient is %u", i, j, L->x[t], it->second[j]); return false; }
	}
	if ((ru64)(L->nz - l0) != want) { c.fail("L-missing", "%lld coefficients recorded, %llu expected", (long long)(L->nz - l0), (unsigned long long)want); return false; }
	count_event("L-coefficients-checked", want);
	return true;
}

PROP(C10)
{
	Rng &r = c.rng;
	SchurCase s;
	int kind = (int)r.below(4);
	gen_schur(c, s, kind == 2);
	int n = (int)s.p.size(), m = s.A.m, k = s.U->n; ru64 p = s.A.p;
	CsrGuard gA = guard_csr(s.M), gU = guard_csr(s.U);
	bool wantL = r.coin() && kind < 2;
	i64 l0 = 0; ru64 lh = 0;
	if (wantL) {
		s.f.Ltmp = spasm_triplet_alloc(s.A.n + 3, k, r.coin() ? 1 : r.range(1, 60), (i64)p, true);
		int pre = r.coin() ? 0 : r.range(0, 10);
		for (int t = 0; t < pre && k; t++) spasm_add_entry(s.f.Ltmp, (int)r.below(s.A.n + 1), (int)r.below(k), 1 + r.below(p - 1));
		l0 = s.f.Ltmp->nz;
		lh = hash_bytes(s.f.Ltmp->i, sizeof(int) * l0); lh = hash_bytes(s.f.Ltmp->j, sizeof(int) * l0, lh); lh = hash_bytes(s.f.Ltmp->x, sizeof(spasm_ZZp) * l0, lh);
	}
	// expected
	std::map<int, std::vector<ru32>> row, coef;       // by original row number
	std::map<int, std::vector<ru32>> byrow;
	for (int i : s.p) { auto y = rowvec(s.A, i); std::vector<ru32> cf; ref_eliminate(s.T, y, cf); int o = s.have_pin ? s.p_in[i] : i; row[o] = y; coef[o] = cf; byrow[i] = y; }
	const int *pin = s.have_pin ? s.p_in.data() : NULL;
	c.pick_threads();
	if (kind == 0 || kind == 3) {
		// density estimate
		int R = r.range(1, 60);
		double d = spasm_schur_estimate_density(s.M, s.p.data(), n, s.U, s.f.qinv, R);
		count_event("density-estimates");
		if (!(d >= 0 && d <= 1)) c.fail("density-range", "density estimate %g outside [0,1]", d);
		else if (n > 0 && k < m) {
			int lo = m, hi = 0;
			for (auto &e : byrow) { int w = 0; for (ru32 v : e.second) w += v != 0; lo = std::min(lo, w); hi = std::max(hi, w); }
			double avg = d * (m - k);
			if (avg < lo - 1e-6 || avg > hi + 1e-6) c.fail("density-wrong", "estimated weight %g, rows have between %d and %d entries", avg, lo, hi);
			double tot = avg * R; if (fabs(tot - floor(tot + 0.5)) > 1e-3) c.fail("density-wrong", "estimate %g is not an average of %d integers", avg, R);
		}
	}
	if (kind == 0) {
		static const double ed[] = {-1, 0, 0.0001, 0.01, 0.3, 1};
		double e = ed[r.below(6)];
		bool po = wantL || r.coin(0.7);
		std::vector<int> p_out(n + 1, -99);
		spasm_csr *S = spasm_schur(s.M, s.p.data(), n, &s.f, e, s.f.Ltmp, pin, po ? p_out.data() : NULL);
		count_event("sparse-schurs");
		std::string w = csr_complaint(S, CK_ALL);
		if (!w.empty()) c.fail("S-malformed", "S: %s", w.c_str());
		else if (S->n != n || S->m != m || (ru64)S->field->p != p) c.fail("S-shape", "S is %d x %d, expected %d x %d", S->n, S->m, n, m);
		else {
			Mat Sm = to_mat(S);
			if (po) {
				if (p_out[n] != -99) c.fail("overflow", "p_out written past its end");
				std::set<int> seen;
				for (int t = 0; t < n; t++) {
					auto it = row.find(p_out[t]);
					if (it == row.end() || !seen.insert(p_out[t]).second) { c.fail("origin", "row %d of S claims to come from row %d (repeated or not requested)", t, p_out[t]); break; }
					if (rowvec(Sm, t) != it->second) { c.fail("S-row", "row %d of S (from row %d) is not the exact elimination", t, p_out[t]); break; }
					count_event("schur-rows-checked");
				}
			} else {
				std::multiset<std::vector<ru32>> a, b;
				for (int t = 0; t < n; t++) { a.insert(rowvec(Sm, t)); b.insert(byrow[s.p[t]]); }
				if (a != b) c.fail("S-rows", "the rows of S are not the exact eliminations");
				count_event("schur-rows-checked", (ru64)n);
			}
		}
		spasm_csr_free(S);
		if (wantL) check_Lappend(c, s, s.f.Ltmp, l0, {}, coef, lh, p);
	} else if (kind == 1 || kind == 2) {
		int Sm = m - k;
		spasm_datatype dt = spasm_datatype_choose((i64)p); size_t es = spasm_datatype_size(dt);
		int N = kind == 1 ? n : r.range(1, 12);
		int w = kind == 1 ? 0 : r.coin(0.4) ? (r.coin() ? 0 : -1) : r.coin() ? 1 : r.range(2, 2 * std::max(1, n));
		if (kind == 2 && n == 0) { free_schur(s); return; }
		size_t bytes = (size_t)N * Sm * es;
		unsigned char *S = (unsigned char *)malloc(bytes + 16); memset(S, 0xA5, bytes + 16);
		std::vector<int> q(Sm + 1, -7), p_out(n + 1, -99);
		if (kind == 1) spasm_schur_dense(s.M, s.p.data(), n, pin, &s.f, S, dt, q.data(), p_out.data());
		else spasm_schur_dense_randomized(s.M, s.p.data(), n, s.U, s.f.qinv, S, dt, q.data(), N, w);
		for (int t = 0; t < 16; t++) if (S[bytes + t] != 0xA5) { c.fail("overflow", "dense S written past its end"); break; }
		std::set<int> qs; bool qok = q[Sm] == -7;
		for (int t = 0; t < Sm; t++) { if (q[t] < 0 || q[t] >= m || s.T.qinv[q[t]] >= 0 || !qs.insert(q[t]).second) qok = false; }
		if (!qok) c.fail("q-map", "q does not list the non-pivotal columns exactly once");
		else {
			auto get = [&](int a, int b) { return spasm_datatype_read(S, (size_t)a * Sm + b, dt); };
			Mat D(N, Sm, p);
			for (int a = 0; a < N && c.nviol == 0; a++) for (int b = 0; b < Sm; b++) { ri64 v = get(a, b); if (!canonical(v, p)) { c.fail("S-value", "entry (%d,%d) = %lld is not canonical", a, b, (long long)v); break; } D.at(a, b) = (ru32)res(v, p); }
			if (c.nviol) ;
			else if (kind == 1) {
				count_event("dense-schurs");
				std::set<int> seen;
				for (int t = 0; t < n; t++) {
					int o = pin ? pin[s.p[t]] : s.p[t];
					if (p_out[t] < 0 || !row.count(p_out[t]) || !seen.insert(p_out[t]).second) { c.fail("origin", "p_out[%d] = %d (repeated or not requested)", t, p_out[t]); break; }
					(void)o;
					const auto &y = row[p_out[t]];
					bool bad = false;
					for (int b = 0; b < Sm; b++) if (D.at(t, b) != y[q[b]]) { c.fail("S-row", "row %d (from row %d), column %d: %u, exact value %u", t, p_out[t], q[b], D.at(t, b), y[q[b]]); bad = true; break; }
					if (bad) break;
					count_event("schur-rows-checked");
				}
				if (p_out[n] != -99) c.fail("overflow", "p_out written past its end");
				if (wantL) check_Lappend(c, s, s.f.Ltmp, l0, {}, coef, lh, p);
			} else {
				count_event("randomized-schurs");
				Mat E(n, Sm, p);
				for (int t = 0; t < n; t++) for (int b = 0; b < Sm; b++) E.at(t, b) = byrow[s.p[t]][q[b]];
				Span sp(E);
				for (int a = 0; a < N; a++) {
					std::vector<ru32> y(D.row(a), D.row(a) + Sm);
					if (!sp.contains(y)) { c.fail("random-row", "row %d is no combination of the rows of the Schur complement", a); break; }
					if (w == 1) { bool eq = false; for (int t = 0; t < n && !eq; t++) eq = std::equal(y.begin(), y.end(), E.row(t)); if (!eq) { c.fail("random-row", "weight 1: row %d is not a row of the Schur complement", a); break; } }
					count_event("random-rows-checked");
				}
				if (w <= 0 && p > 60000 && sp.r > 0 && c.nviol == 0) {
					// combinations of all rows: rank min(N, r) up to probability about 1/p; ask for a defect of 2 before complaining
					int rk = ref_rank(D);
					if (rk + 2 <= std::min(N, sp.r) ) c.fail("random-degenerate", "%d combinations of rows of rank %d only have rank %d", N, sp.r, rk);
					// fresh coefficients at each invocation
					std::vector<unsigned char> S2(bytes + 16, 0);
					spasm_schur_dense_randomized(s.M, s.p.data(), n, s.U, s.f.qinv, S2.data(), dt, q.data(), N, w);
					if (N >= 4 && !memcmp(S2.data(), S, bytes)) c.fail("random-repeated", "two invocations used the same coefficients");
				}
			}
		}
		free(S);
	}
	if (!guard_ok(gA) || !guard_ok(gU)) c.fail("input-modified", "Schur complement modified A or U");
	free_schur(s);
}

PROP(C11)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	int kind = (int)r.below(5);
	if (kind == 0 || kind == 1) {       // sparse solve
		SchurCase s; gen_schur(c, s, false);
		int m = s.A.m; ru64 P = s.A.p;
		CsrGuard gA = guard_csr(s.M), gU = guard_csr(s.U);
		std::vector<int> xj(3 * (size_t)m + 1, 0); xj[3 * m] = 4242;
		std::vector<spasm_ZZp> x((size_t)m + 1, 0x13131313);
		for (int rep = 0; rep < s.A.n && rep < 60; rep++) {
			int i = (int)r.below(s.A.n);
			int top = spasm_sparse_triangular_solve(s.U, s.M, i, xj.data(), x.data(), s.f.qinv);
			count_event("sparse-solves");
			// reachable columns
			std::vector<char> reach(m, 0); std::vector<int> st; int nr = 0;
			for (int j = 0; j < m; j++) if (s.A.at(i, j)) { reach[j] = 1; st.push_back(j); nr++; }
			while (!st.empty()) { int j = st.back(); st.pop_back(); int k = s.T.qinv[j]; if (k < 0) continue; for (int l = 0; l < m; l++) if (s.T.M.at(k, l) && !reach[l]) { reach[l] = 1; st.push_back(l); nr++; } }
			if (top < 0 || m - top != nr) { c.fail("pattern-size", "pattern has %d columns, %d are reachable", m - top, nr); break; }
			std::vector<char> seen(m, 0); bool bad = false;
			for (int t = top; t < m && !bad; t++) { int j = xj[t]; if (j < 0 || j >= m || seen[j] || !reach[j]) { c.fail("pattern", "column %d is repeated in the pattern or not reachable", j); bad = true; } else seen[j] = 1; }
			for (int t = 2 * m; t < 3 * m && !bad; t++) if (xj[t]) { c.fail("workspace", "mark of column %d left behind", t - 2 * m); bad = true; }
			if (bad) break;
			auto y = rowvec(s.A, i); std::vector<ru32> cf; ref_eliminate(s.T, y, cf);
			for (int j = 0; j < m; j++) {
				ru32 want = s.T.qinv[j] >= 0 ? cf[s.T.qinv[j]] : y[j];
				if (!reach[j]) { if (want) { c.fail("reference", "unreachable nonzero?!"); bad = true; } continue; }
				if (res(x[j], P) != want || !canonical(x[j], P)) { c.fail("solution", "x[%d] = %d, exact value is %u", j, x[j], want); bad = true; break; }
			}
			if (bad) break;
			count_event("solution-entries-checked", (ru64)nr);
			for (int j = 0; j < m; j++) if (r.coin(0.3)) x[j] = (spasm_ZZp)r.next();     // it does not need to be initialized
		}
		if (xj[3 * m] != 4242 || x[m] != 0x13131313) c.fail("overflow", "workspace written past its end");
		if (!guard_ok(gA) || !guard_ok(gU)) c.fail("input-modified", "sparse solve modified A or U");
		free_schur(s);
		return;
	}
	int lim = c.slow ? 30 : 90;
	if (kind == 2) {                    // x L = b
		int k = r.range(0, r.coin() ? 8 : lim), n = k + r.range(0, r.coin() ? 3 : 30);
		double d = r.unit() * (r.coin() ? 0.1 : 1);
		auto pr = rperm(r, n); bool id = r.coin(0.2); if (id) for (int i = 0; i < n; i++) pr[i] = i;
		Mat L(n, k, p);
		for (int t = 0; t < n; t++) for (int j = 0; j < k; j++) { if (t < k && j > t) continue; if (t == j) L.at(pr[t], j) = rv(r, p); else if (r.coin(d)) L.at(pr[t], j) = rv(r, p); }
		c.mix(hash_mat(L)); if (k > 1) c.nontrivial = true; c.note(strf("back solve %dx%d p=%llu", n, k, (unsigned long long)p));
		spasm_csr *Lm = make_csr(L, r); CsrGuard g = guard_csr(Lm);
		std::vector<spasm_ZZp> b(k + 1), x(n + 1, 0x777); b[k] = 99;
		std::vector<ru32> b0(k);
		for (int j = 0; j < k; j++) { b0[j] = r.coin(0.3) ? 0 : (ru32)r.below(p); b[j] = (spasm_ZZp)ref_balanced(b0[j], p); }
		spasm_dense_back_solve(Lm, b.data(), x.data(), id && r.coin() ? NULL : pr.data());
		count_event("back-solves");
		if (b[k] != 99 || x[n] != 0x777) c.fail("overflow", "vector written past its end");
		for (int i = 0; i < n; i++) if (!canonical(x[i], p)) { c.fail("not-canonical", "x[%d] = %d", i, x[i]); break; }
		if (vecmat(to_vec(x.data(), n, p), L) != b0) c.fail("back-solve", "x*L differs from b");
		for (int t = k; t < n; t++) if (x[pr[t]] != 0) { c.fail("back-solve-support", "x is nonzero on non-pivotal row %d", pr[t]); break; }
		if (!guard_ok(g)) c.fail("input-modified", "back solve modified L");
		spasm_csr_free(Lm);
	} else if (kind == 3) {             // x U = b
		int k = r.range(0, r.coin() ? 8 : lim), m = k + (r.coin(0.2) ? 0 : r.range(0, 30));
		Tri T = gen_tri(r, p, k, m, r.unit() * (r.coin() ? 0.1 : 1), false);
		bool id = r.coin(0.2);
		if (id) { T.M = Mat(k, m, p); for (int i = 0; i < k; i++) { T.piv[i] = i; T.M.at(i, i) = 1; for (int j = i + 1; j < m; j++) if (r.coin(0.2)) T.M.at(i, j) = rv(r, p); } }
		c.mix(hash_mat(T.M)); if (k > 1) c.nontrivial = true; c.note(strf("forward solve %dx%d p=%llu", k, m, (unsigned long long)p));
		spasm_csr *U = tri_csr(T, r, r.coin()); CsrGuard g = guard_csr(U); Span sp(T.M);
		for (int rep = 0; rep < 4; rep++) {
			std::vector<ru32> b0(m, 0);
			if (rep == 0) for (auto &v : b0) v = (ru32)r.below(p);
			else { std::vector<ru32> w(k); for (auto &v : w) v = r.coin(0.3) ? 0 : (ru32)r.below(p); b0 = vecmat(w, T.M); if (rep == 2 && m) { int j = (int)r.below(m); b0[j] = (ru32)((b0[j] + 1) % p); } }
			std::vector<spasm_ZZp> b(m + 1), x(k + 1, 0x777); b[m] = 99;
			for (int j = 0; j < m; j++) b[j] = (spasm_ZZp)ref_balanced(b0[j], p);
			bool in = sp.contains(b0);
			bool ok = spasm_dense_forward_solve(U, b.data(), x.data(), id && r.coin() ? NULL : T.piv.data());
			count_event(in ? "forward-solvable" : "forward-unsolvable");
			if (ok != in) { c.fail("forward-verdict", "solvable: %d, reported: %d", in, ok); break; }
			if (b[m] != 99 || x[k] != 0x777) c.fail("overflow", "vector written past its end");
			if (ok) {
				for (int i = 0; i < k; i++) if (!canonical(x[i], p)) { c.fail("not-canonical", "x[%d] = %d", i, x[i]); break; }
				if (vecmat(to_vec(x.data(), k, p), T.M) != b0) { c.fail("forward-solve", "x*U differs from b"); break; }
			}
		}
		if (!guard_ok(g)) c.fail("input-modified", "forward solve modified U");
		spasm_csr_free(U);
	} else {                            // products
		Mat A = gen_matrix(r, p, c.desc, c.slow ? SZ_TINY | SZ_SMALL : SZ_ALL); int n = A.n, m = A.m;
		c.mix(hash_mat(A)); if (n && m) c.nontrivial = true;
		spasm_csr *M = make_csr(A, r); CsrGuard g = guard_csr(M);
		auto rvv = [&](int k) { std::vector<ru32> v(k); for (auto &t : v) t = r.coin(0.2) ? 0 : r.coin(0.3) ? rv(r, p) : (ru32)r.below(p); return v; };
		auto tob = [&](const std::vector<ru32> &v) { std::vector<spasm_ZZp> w(v.size() + 1, 0x5a5a); for (size_t i = 0; i < v.size(); i++) w[i] = (spasm_ZZp)ref_balanced(v[i], p); return w; };
		auto cmp = [&](const char *what, std::vector<spasm_ZZp> &w, const std::vector<ru32> &want) {
			if (w.back() != 0x5a5a) c.fail("overflow", "%s wrote past the end", what);
			for (size_t i = 0; i < want.size(); i++) if (res(w[i], p) != want[i] || !canonical(w[i], p)) { c.fail(what, "%s: entry %zu is %d, exact value %u", what, i, w[i], want[i]); return; }
			count_event("product-entries-checked", want.size());
		};
		{ auto x = rvv(n), y = rvv(m); auto xb = tob(x), yb = tob(y); auto xb0 = xb; spasm_xApy(xb.data(), M, yb.data()); auto z = vecmat(x, A); for (int j = 0; j < m; j++) z[j] = (ru32)(((ru64)z[j] + y[j]) % p); cmp("xApy", yb, z); if (xb != xb0) c.fail("input-modified", "xApy modified x"); }
		{ auto x = rvv(m), y = rvv(n); auto xb = tob(x), yb = tob(y); auto xb0 = xb; spasm_Axpy(M, xb.data(), yb.data()); std::vector<ru32> z(n); for (int i = 0; i < n; i++) { ru64 a = y[i]; for (int j = 0; j < m; j++) a = (a + (ru64)A.at(i, j) * x[j]) % p; z[i] = (ru32)a; } cmp("Axpy", yb, z); if (xb != xb0) c.fail("input-modified", "Axpy modified x"); }
		if (n) { int i = (int)r.below(n); auto y = rvv(m); auto yb = tob(y); ru32 be = r.coin(0.2) ? 0 : rv(r, p); spasm_scatter(M, i, (spasm_ZZp)ref_balanced(be, p), yb.data()); std::vector<ru32> z(m); for (int j = 0; j < m; j++) z[j] = (ru32)((y[j] + (ru64)be * A.at(i, j)) % p); cmp("scatter", yb, z); }
		if (!guard_ok(g)) c.fail("input-modified", "a product modified the matrix");
		spasm_csr_free(M);
	}
}

PROP(C28)
{
	Rng &r = c.rng;
	static const ri64 lim[] = {189812531, 8191, 4294967291LL};        // indexed by spasm_datatype
	ru64 p = pick_prime(r);
	// type selection
	spasm_datatype ch = spasm_datatype_choose((i64)p);
	ru64 h = (p - 1) / 2;
	if ((ch == SPASM_FLOAT && h * h > (1ULL << 24)) || (ch == SPASM_DOUBLE && (unsigned __int128)h * h > ((unsigned __int128)1 << 53)) || (int)ch < 0 || (int)ch > 2)
		c.fail("type-too-small", "type %d chosen for p = %llu cannot hold products of two elements", (int)ch, (unsigned long long)p);
	count_event("type-selections");
	spasm_datatype dt = ch;
	if (r.coin(0.35)) {      // another type that can represent this modulus
		std::vector<spasm_datatype> ok; for (spasm_datatype t : {SPASM_DOUBLE, SPASM_FLOAT, SPASM_I64}) if ((ri64)p <= lim[t]) ok.push_back(t);
		dt = ok[r.below(ok.size())];
	}
	size_t es = dt == SPASM_DOUBLE ? sizeof(double) : dt == SPASM_FLOAT ? sizeof(float) : sizeof(i64);
	if (spasm_datatype_size(dt) != es) { c.fail("type-size", "size of type %d is %zu", (int)dt, spasm_datatype_size(dt)); return; }
	int n, m;
	if (c.mode == 1) { n = r.range(100, c.thorough ? 500 : 260); m = r.range(100, c.thorough ? 500 : 260); }
	else { int L = r.coin(0.4) ? 6 : r.coin() ? 25 : 70; n = r.range(1, L); m = r.range(1, L); }
	Mat A(n, m, p);
	int fam = (int)r.below(6);
	if (fam == 0) for (auto &v : A.a) v = (ru32)r.below(p);
	else if (fam == 1) { int k = (int)r.below(std::min(n, m) + 1); Mat X(n, k, p), Y(k, m, p); for (auto &v : X.a) v = (ru32)r.below(p); for (auto &v : Y.a) v = (ru32)r.below(p); A = ref_matmul(X, Y); }
	else if (fam == 2) for (auto &v : A.a) v = (ru32)(r.coin() ? (p - 1) / 2 : (p + 1) / 2);      // largest magnitudes
	else if (fam == 3) { for (auto &v : A.a) v = r.coin(0.1) ? rv(r, p) : 0; }
	else if (fam == 4) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ru64 x = (ru64)(i + 1) * (j + 1) % p; A.at(i, j) = (ru32)x; } for (int t = 0; t < 3; t++) A.at((int)r.below(n), (int)r.below(m)) = rv(r, p); }
	else { for (int i = 0; i < std::min(n, m); i++) A.at(n - 1 - i, i) = rv(r, p); if (r.coin()) for (int i = 0; i < n; i++) if (r.coin(0.3)) for (int j = 0; j < m; j++) A.at(i, j) = (ru32)((ru64)A.at(0, j) * (p - 1) % p); }
	c.mix(hash_mat(A)); c.mix((ru64)dt);
	int ld = m + (r.coin(0.25) ? r.range(1, 5) : 0);
	c.note(strf("%dx%d ld=%d p=%llu type=%s family=%d", n, m, ld, (unsigned long long)p, spasm_datatype_name(dt), fam));
	size_t total = (size_t)n * ld;
	unsigned char *D = (unsigned char *)malloc(total * es + 32); memset(D, 0x3c, total * es + 32);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
		ri64 v = ref_balanced(A.at(i, j), p); size_t k = (size_t)i * ld + j;
		if (r.coin()) spasm_datatype_write(D, k, dt, (spasm_ZZp)v);
		else if (dt == SPASM_DOUBLE) ((double *)D)[k] = (double)v; else if (dt == SPASM_FLOAT) ((float *)D)[k] = (float)v; else ((i64 *)D)[k] = v;
	}
	for (int t = 0; t < 10; t++) { int i = (int)r.below(n), j = (int)r.below(m); if (spasm_datatype_read(D, (size_t)i * ld + j, dt) != ref_balanced(A.at(i, j), p)) { c.fail("read-write", "element read back differs from the element written"); break; } }
	auto rd = [&](int i, int j) -> ru32 { return (ru32)res(spasm_datatype_read(D, (size_t)i * ld + j, dt), p); };
	auto canon = [&](int i, int j) { size_t k = (size_t)i * ld + j; double v = dt == SPASM_DOUBLE ? ((double *)D)[k] : dt == SPASM_FLOAT ? ((float *)D)[k] : (double)((i64 *)D)[k]; return v == floor(v) && canonical((ri64)v, p); };
	int rank = ref_rank(A);
	if (rank > 1) c.nontrivial = true;
	std::vector<size_t> P(n + 1, 12345678), Q(m + 1, 12345678);
	bool lu = r.coin();
	int got = lu ? spasm_ffpack_LU((i64)p, n, m, D, ld, dt, P.data(), Q.data()) : spasm_ffpack_rref((i64)p, n, m, D, ld, dt, Q.data());
	count_event(lu ? "dense-LU" : "dense-rref"); distinct("type-kind", (ru64)dt * 2 + lu);
	auto perm = [](const std::vector<size_t> &v, int k) { std::vector<char> s(k, 0); for (int i = 0; i < k; i++) { if (v[i] >= (size_t)k || s[v[i]]) return false; s[v[i]] = 1; } return true; };
	if (got != rank) c.fail("rank", "rank %d returned, exact rank %d", got, rank);
	else if (!perm(Q, m) || (lu && !perm(P, n))) c.fail("permutation", "row or column permutation is not one");
	else {
		if (Q[m] != 12345678 || P[n] != 12345678) c.fail("overflow", "permutation written past its end");
		for (int i = 0; i < n; i++) for (size_t b = ((size_t)i * ld + m) * es; b < ((size_t)i * ld + ld) * es; b++) if (D[b] != 0x3c) { c.fail("padding", "padding of row %d overwritten", i); i = n; break; }
		for (int t = 0; t < 32; t++) if (D[total * es + t] != 0x3c) { c.fail("overflow", "matrix written past its end"); break; }
		bool bad = false;
		if (!lu) {
			Mat R(rank, m, p);
			for (int i = 0; i < rank && !bad; i++) { R.at(i, (int)Q[i]) = 1; for (int k = rank; k < m; k++) { if (!canon(i, k)) { c.fail("not-canonical", "entry (%d,%d) is not a canonical element", i, k); bad = true; break; } R.at(i, (int)Q[k]) = rd(i, k); } }
			if (!bad && c.mode == 1) { Mat B = A; ref_rref(B); Mat R2 = R; ref_rref(R2); for (int i = 0; i < rank && !bad; i++) if (!std::equal(R2.row(i), R2.row(i) + m, B.row(i))) { c.fail("rref-row-space", "row space differs from the input's"); bad = true; } }
			else if (!bad && ref_rank(ref_vstack(A, R)) != rank) c.fail("rref-row-space", "row space differs from the input's");
			count_event("rref-rows-checked", (ru64)rank);
		} else {
			Mat Lm(n, rank, p), U(rank, m, p);
			for (int i = 0; i < n && !bad; i++) for (int j = 0; j < rank && j <= i; j++) { if (!canon(i, j)) { c.fail("not-canonical", "entry (%d,%d) is not a canonical element", i, j); bad = true; break; } Lm.at(i, j) = rd(i, j); }
			for (int i = 0; i < rank && !bad; i++) { U.at(i, i) = 1; for (int j = i + 1; j < m; j++) { if (!canon(i, j)) { c.fail("not-canonical", "entry (%d,%d) is not a canonical element", i, j); bad = true; break; } U.at(i, j) = rd(i, j); } }
			Mat X = ref_matmul(Lm, U);
			for (int i = 0; i < n && !bad; i++) for (int j = 0; j < m; j++) if (X.at(i, j) != A.at((int)P[i], (int)Q[j])) { c.fail("PLUQ", "factors do not reproduce entry (%d,%d)", (int)P[i], (int)Q[j]); bad = true; break; }
			for (int i = 0; i < rank && !bad; i++) if (!Lm.at(i, i)) { c.fail("PLUQ", "zero pivot in L"); bad = true; }
			count_event("lu-rows-checked", (ru64)n);
		}
	}
	free(D);
}
