// Matrices with more than 2^31 entries. Their long rows are one block of memory mapped again and again, so
// that the input takes little memory; results are small (or large in one array only) and known by construction.
#include "mon.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <thread>

struct HugeMem {
	std::vector<std::pair<void *, size_t>> maps;
	void *region(size_t bytes)
	{
		bytes = (bytes + 4095) & ~(size_t)4095;
		void *b = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b == MAP_FAILED) { perror("huge map"); _exit(3); }
		maps.push_back({b, bytes});
		return b;
	}
	~HugeMem() { for (auto &m : maps) munmap(m.first, m.second); }
};
static const int BLOCK_ROWS = 256, W = 65536;
static const int NB = 130;                      // blocks: 130 * 256 * 65536 = 2^31 + 2^25 entries
static const int F = NB * BLOCK_ROWS;           // long rows
// an array whose entries head, head + 1, ... repeat f(k), k in [0, W), F times
static int *huge_array(HugeMem &H, i64 head, i64 tail, const std::function<int(int)> &f)
{
	if (head % 1024) { fprintf(stderr, "huge: unaligned head\n"); _exit(3); }
	size_t bb = (size_t)BLOCK_ROWS * W * sizeof(int);
	int fd = memfd_create("huge", 0);
	if (fd < 0 || ftruncate(fd, bb)) { perror("memfd"); _exit(3); }
	int *blk = (int *)mmap(nullptr, bb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (blk == MAP_FAILED) { perror("huge map"); _exit(3); }
	for (int k = 0; k < W; k++) blk[k] = f(k);
	for (int r = 1; r < BLOCK_ROWS; r++) memcpy(blk + (size_t)r * W, blk, W * sizeof(int));
	munmap(blk, bb);
	int *a = (int *)H.region((head + (i64)F * W + tail + 1024) * sizeof(int));
	for (int b = 0; b < NB; b++)
		if (mmap(a + head + (i64)b * BLOCK_ROWS * W, bb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { perror("huge map"); _exit(3); }
	close(fd);
	return a;
}
typedef std::vector<std::pair<int, spasm_ZZp>> Row;
struct Huge {
	HugeMem mem;
	spasm_csr A;
	std::vector<i64> p;
	int first, last;        // the long rows are first .. last - 1
	Huge(int m, ru64 prime, const std::vector<Row> &head, const std::function<int(int)> &fj, const std::function<int(int)> &fx, const std::vector<Row> &tail)
	{
		memset(&A, 0, sizeof A);
		i64 h = 0, t = 0;
		for (auto &r : head) h += r.size();
		for (auto &r : tail) t += r.size();
		A.n = (int)head.size() + F + (int)tail.size(); A.m = m;
		A.nzmax = h + (i64)F * W + t;
		spasm_field_init((i64)prime, A.field);
		A.j = huge_array(mem, h, t, fj);
		A.x = fx ? huge_array(mem, h, t, fx) : nullptr;
		p.assign(A.n + 1, 0);
		i64 k = 0; int i = 0;
		auto put = [&](const std::vector<Row> &R) { for (auto &r : R) { for (auto &e : r) { A.j[k] = e.first; if (A.x) A.x[k] = e.second; k++; } p[++i] = k; } };
		put(head); first = i;
		for (int l = 0; l < F; l++) { k += W; p[++i] = k; }
		last = i;
		put(tail);
		A.p = p.data();
	}
	int *row(int i) { return A.j + p[i]; }
	spasm_ZZp *rowx(int i) { return A.x + p[i]; }
};
static Row random_row(Rng &r, int lo, int hi, int w, ru64 p)
{
	std::set<int> s;
	while ((int)s.size() < w) s.insert(lo + (int)r.below(hi - lo));
	Row o;
	for (int j : s) o.push_back({j, (spasm_ZZp)ref_balanced(1 + r.below(p - 1), p)});
	for (size_t k = o.size(); k > 1; k--) std::swap(o[k - 1], o[r.below(k)]);
	return o;
}
static ru64 dense_rank(std::vector<std::vector<ru32>> M, ru64 p)
{
	size_t r = 0;
	size_t m = M.empty() ? 0 : M[0].size();
	for (size_t j = 0; j < m && r < M.size(); j++) {
		size_t k = r; while (k < M.size() && !M[k][j]) k++;
		if (k == M.size()) continue;
		std::swap(M[k], M[r]);
		ru64 inv = ref_inv(M[r][j], p);
		for (size_t i = r + 1; i < M.size(); i++) if (M[i][j]) {
			ru64 f = p - ref_mul(M[i][j], inv, p);
			for (size_t l = j; l < m; l++) M[i][l] = (ru32)((M[i][l] + ref_mul(f, M[r][l], p)) % p);
		}
		r++;
	}
	return r;
}
static spasm_lu *plain_lu(spasm_csr *U, int *qinv) { spasm_lu *f = (spasm_lu *)calloc(1, sizeof *f); f->U = U; f->qinv = qinv; f->r = U->n; return f; }

static const char *HUGE_NAME[] = {"products", "structure", "compression", "components", "pivots", "rank", "schur", "rref", "matching", "transpose", "triangular", "certificate", "wide"};
// more than 2^31 / 3 columns: the elimination and the RREF work in arrays of 3 * m integers
static void huge_wide(Case &c, Rng &r, ru64 p)
{
	omp_set_num_threads(1);
	int m = 715827883 + (int)r.below(4000000), n = 5 + (int)r.below(4), nc = 12;
	c.note(strf("%d x %d", n, m));
	std::set<int> cs;
	while ((int)cs.size() < nc) cs.insert(cs.size() % 3 == 0 ? (int)r.below(1000) : cs.size() % 3 == 1 ? m - 1 - (int)r.below(1000) : (int)r.below(m));
	std::vector<int> col(cs.begin(), cs.end());
	std::map<int, int> at;
	for (int k = 0; k < nc; k++) at[col[k]] = k;
	std::vector<std::vector<ru32>> D(n, std::vector<ru32>(nc));
	int d = 2 + (int)r.below(3);            // the rows without a column of their own span d dimensions
	for (int i = 0; i < n; i++) {
		if (i < d) for (int k = 0; k < nc; k++) D[i][k] = r.below(4) ? (ru32)r.below(p) : 0;
		else for (int e = 0; e < d; e++) { ru64 f = r.below(p); for (int k = 0; k < nc; k++) D[i][k] = (ru32)((D[i][k] + ref_mul(f, D[e][k], p)) % p); }
		if (r.below(3) == 0) for (int k = 0; k < nc; k++) if (k != 1) D[i][k] = 0;
	}
	for (int i = n - 1; i > 0; i--) std::swap(D[i], D[r.below(i + 1)]);
	spasm_csr *A = spasm_csr_alloc(n, m, n * nc, (i64)p, true);
	i64 z = 0;
	for (int i = 0; i < n; i++) {
		for (int k = 0; k < nc; k++) if (D[i][k]) { A->j[z] = col[k]; A->x[z] = (spasm_ZZp)ref_balanced(D[i][k], p); z++; }
		A->p[i + 1] = z;
	}
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.enable_greedy_pivot_search = r.coin();
	o.enable_dense = 0; o.enable_tall_and_skinny = 0;
	if (r.coin()) o.enable_GPLU = 1;
	if (r.coin()) o.max_round = r.below(3);
	spasm_lu *f = spasm_echelonize(A, &o);
	ru64 want = dense_rank(D, p);
	auto compact = [&](const spasm_csr *M, std::vector<std::vector<ru32>> &out) {
		for (int i = 0; i < M->n; i++) {
			std::vector<ru32> v(nc);
			for (i64 k = M->p[i]; k < M->p[i + 1]; k++) {
				auto it = at.find(M->j[k]);
				if (it == at.end()) { c.fail("wide-column", "an entry on column %d, which is empty in the input", M->j[k]); return; }
				v[it->second] = (ru32)res(M->x[k], p);
			}
			out.push_back(v);
		}
	};
	std::vector<std::vector<ru32>> all = D, U, R;
	if ((ru64)f->U->n != want || f->U->m != m) c.fail("wide-rank", "rank %d instead of %d on %d columns", f->U->n, (int)want, m);
	compact(f->U, U);
	for (auto &v : U) all.push_back(v);
	if (!c.nviol && (dense_rank(all, p) != want || dense_rank(U, p) != want)) c.fail("wide-space", "U does not span the row space");
	spasm_csr_free(A);
	std::vector<int> rq(m, -7);
	spasm_csr *E = spasm_rref(f, rq.data());
	if (!c.nviol) {
		compact(E, R);
		if ((ru64)E->n != want) c.fail("wide-rref", "%d rows instead of %d", E->n, (int)want);
		all.insert(all.end(), R.begin(), R.end());
		if (!c.nviol && (dense_rank(all, p) != want || dense_rank(R, p) != want)) c.fail("wide-rref-space", "the RREF does not span the row space");
		int np = 0;
		for (int j = 0; j < m && !c.nviol; j++) {
			if (rq[j] < 0) continue;
			np++;
			auto it = at.find(j);
			bool ok = it != at.end() && rq[j] < E->n;
			for (size_t i = 0; ok && i < R.size(); i++) ok = R[i][it->second] == ((int)i == rq[j] ? 1u : 0u);
			if (!ok) c.fail("wide-rref-pivot", "column %d is not the unit column of its row", j);
		}
		if (!c.nviol && np != E->n) c.fail("wide-rref-pivot", "%d pivots for %d rows", np, E->n);
	}
	spasm_csr_free(E);
	spasm_lu_free(f);
	count_event("wide-columns", m);
}
PROP(HUGE)
{
	Rng &r = c.rng;
	ru64 p = r.coin() ? 65537 : pick_prime(r);
	while (p < 100) p = pick_prime(r);
	int mode = c.mode;
	c.note(strf("matrix or workspace with more than 2^31 entries: %s, p=%llu", HUGE_NAME[mode], (unsigned long long)p));
	omp_set_num_threads(std::min(c.maxthreads, mode == 4 || mode == 5 || mode == 11 ? 8 : 4));
	std::vector<ru32> f(W);
	for (auto &v : f) v = (ru32)(1 + r.below(p - 1));
	auto fx = [&](int k) { return (int)ref_balanced(f[k], p); };
	auto id = [](int k) { return k; };
	c.nontrivial = true; c.mix(mode); c.mix(p);
	if (mode == 12) { huge_wide(c, r, p); return; }
	count_event("entries", (ru64)F * W);
	int m = W + 64;
	if (mode == 0 || mode == 1 || mode == 6) {
		std::vector<Row> tail;
		int T = 40;
		for (int t = 0; t < T; t++) tail.push_back(t % 7 == 3 ? Row() : random_row(r, 0, m, 1 + (int)r.below(30), p));
		Huge H(m, p, {}, id, fx, tail);
		spasm_csr *A = &H.A;
		if (mode == 0) {
			std::vector<spasm_ZZp> x(A->n), y(m), xx(m), yy(A->n);
			for (auto &v : x) v = (spasm_ZZp)ref_balanced(r.below(p), p);
			for (auto &v : y) v = (spasm_ZZp)ref_balanced(r.below(p), p);
			for (auto &v : xx) v = (spasm_ZZp)ref_balanced(r.below(p), p);
			for (auto &v : yy) v = (spasm_ZZp)ref_balanced(r.below(p), p);
			std::vector<ru64> want(m), want2(A->n);
			ru64 s = 0;
			for (int i = 0; i < F; i++) s += res(x[i], p);
			s %= p;
			for (int j = 0; j < m; j++) want[j] = (res(y[j], p) + (j < W ? ref_mul(s, f[j], p) : 0)) % p;
			for (int t = 0; t < T; t++) for (auto &e : tail[t]) want[e.first] = (want[e.first] + ref_mul(res(x[F + t], p), res(e.second, p), p)) % p;
			s = 0;
			for (int k = 0; k < W; k++) s = (s + ref_mul(f[k], res(xx[k], p), p)) % p;
			for (int i = 0; i < A->n; i++) want2[i] = (res(yy[i], p) + (i < F ? s : 0)) % p;
			for (int t = 0; t < T; t++) for (auto &e : tail[t]) want2[F + t] = (want2[F + t] + ref_mul(res(xx[e.first], p), res(e.second, p), p)) % p;
			std::thread th([&]() { spasm_xApy(x.data(), A, y.data()); });
			spasm_Axpy(A, xx.data(), yy.data());
			th.join();
			for (int j = 0; j < m; j++) if ((ri64)y[j] != ref_balanced(want[j], p)) { c.fail("wrong-xApy", "column %d of x*A + y is wrong", j); break; }
			for (int i = 0; i < A->n; i++) if ((ri64)yy[i] != ref_balanced(want2[i], p)) { c.fail("wrong-Axpy", "row %d of A*x + y is wrong", i); break; }
			if (spasm_nnz(A) != A->p[A->n]) c.fail("wrong-nnz", "number of entries");
		} else if (mode == 1) {
			int r0 = F - 1, c0 = W - 5;
			spasm_csr *B = spasm_submatrix(A, r0, A->n, c0, m, true);
			bool ok = B->n == A->n - r0 && B->m == m - c0;
			if (ok) for (int i = 0; i < B->n; i++) {
				std::map<int, spasm_ZZp> want;
				if (i == 0) for (int j = c0; j < W; j++) want[j - c0] = fx(j);
				else for (auto &e : tail[i - 1]) if (e.first >= c0) want[e.first - c0] = e.second;
				std::map<int, spasm_ZZp> got;
				for (i64 k = B->p[i]; k < B->p[i + 1]; k++) got[B->j[k]] = B->x[k];
				if (got != want || (i64)want.size() != B->p[i + 1] - B->p[i]) { ok = false; break; }
			}
			if (!ok) c.fail("wrong-submatrix", "rows after the 2^31st entry are wrong");
			spasm_csr_free(B);
			// the result has more than 2^31 entries as well: all the rows, without the first column and without values
			B = spasm_submatrix(A, 0, A->n, 1, m, false);
			ok = B->n == A->n && B->m == m - 1 && B->x == nullptr;
			for (i64 i = 0; ok && i < B->n; i++) {
				i64 lost = 0;
				if (i < F) lost = 1;
				else for (auto &e : tail[i - F]) lost += e.first == 0;
				ok = B->p[i + 1] - B->p[i] == A->p[i + 1] - A->p[i] - lost;
				if (i < F && i % 97 && i < F - 5) continue;
				for (i64 k = A->p[i], l = B->p[i]; ok && k < A->p[i + 1]; k++) if (A->j[k] != 0) ok = B->j[l++] == A->j[k] - 1;
			}
			if (!ok) c.fail("wrong-submatrix", "a submatrix with more than 2^31 entries is wrong");
			spasm_csr_free(B);
			// rows reversed, columns shifted; without values
			std::vector<int> pp(A->n), q(m);
			for (int i = 0; i < A->n; i++) pp[i] = A->n - 1 - i;
			for (int j = 0; j < m; j++) q[j] = (j + 3) % m;
			B = spasm_permute(A, pp.data(), q.data(), false);
			ok = B->n == A->n && B->m == m && B->p[B->n] == A->p[A->n] && B->x == nullptr;
			for (int i = 0; ok && i < B->n; i++) {
				int o = A->n - 1 - i;
				ok = B->p[i + 1] - B->p[i] == A->p[o + 1] - A->p[o];
				if (o < F && o % 97 && o < F - 5) continue;
				for (i64 k = 0; ok && k < B->p[i + 1] - B->p[i]; k++) ok = B->j[B->p[i] + k] == (A->j[A->p[o] + k] + 3) % m;
			}
			if (!ok) c.fail("wrong-permute", "the permuted matrix is wrong");
			spasm_csr_free(B);
		} else {
			// U: ten rows in echelon form
			std::vector<Row> ur;
			int nu = 10;
			for (int i = 0; i < nu; i++) { Row w = random_row(r, nu, m, 6, p); Row o; o.push_back({i, 1}); for (int k = i + 1; k < nu; k++) if (r.coin(0.3)) o.push_back({k, (spasm_ZZp)ref_balanced(1 + r.below(p - 1), p)}); o.insert(o.end(), w.begin(), w.end()); ur.push_back(o); }
			i64 unz = 0; for (auto &o : ur) unz += o.size();
			spasm_csr *U = spasm_csr_alloc(nu, m, unz, (i64)p, true);
			i64 k = 0; for (int i = 0; i < nu; i++) { for (auto &e : ur[i]) { U->j[k] = e.first; U->x[k] = e.second; k++; } U->p[i + 1] = k; }
			std::vector<int> qinv(m, -1); for (int i = 0; i < nu; i++) qinv[i] = i;
			spasm_lu fact; memset(&fact, 0, sizeof fact); fact.U = U; fact.qinv = qinv.data(); fact.r = nu;
			int N = T + 1;
			std::vector<int> sel(N), pout(N, -1);
			for (int t = 0; t < N; t++) sel[t] = F - 1 + t;
			std::vector<std::vector<ru32>> want(N, std::vector<ru32>(m, 0));
			for (int t = 0; t < N; t++) {
				auto &w = want[t];
				if (t == 0) for (int j = 0; j < W; j++) w[j] = f[j];
				else for (auto &e : tail[t - 1]) w[e.first] = (ru32)res(e.second, p);
				for (int i = 0; i < nu; i++) { ru64 v = w[i]; if (v) for (auto &e : ur[i]) w[e.first] = (ru32)((w[e.first] + ref_mul(p - v, res(e.second, p), p)) % p); }
			}
			spasm_csr *S = spasm_schur(A, sel.data(), N, &fact, 0.001, nullptr, nullptr, pout.data());
			std::set<int> seen;
			if (S->n != N) c.fail("wrong-schur", "%d rows instead of %d", S->n, N);
			else for (int i = 0; i < N && !c.nviol; i++) {
				int o = pout[i] - (F - 1);
				if (o < 0 || o >= N || !seen.insert(o).second) { c.fail("wrong-schur-origin", "row %d", i); break; }
				std::vector<ru32> got(m, 0);
				for (i64 l = S->p[i]; l < S->p[i + 1]; l++) got[S->j[l]] = (ru32)((got[S->j[l]] + res(S->x[l], p)) % p);
				if (got != want[o]) c.fail("wrong-schur", "row %d of the Schur complement is wrong", i);
			}
			spasm_csr_free(S); spasm_csr_free(U);
		}
		return;
	}
	if (mode == 2) {           // compression: the long rows all fall on 256 rows, given many times
		HugeMem M;
		int n = BLOCK_ROWS + 50, T = 300;
		spasm_triplet Tr; memset(&Tr, 0, sizeof Tr);
		std::vector<std::pair<int, int>> tail;
		for (int t = 0; t < T; t++) tail.push_back({(int)r.below(n), (int)r.below(m)});
		// row indices: a block goes through 256 rows; same shape of mapping, filled directly
		size_t bb = (size_t)BLOCK_ROWS * W * sizeof(int);
		int fd = memfd_create("huge-i", 0);
		if (fd < 0 || ftruncate(fd, bb)) _exit(3);
		int *blk = (int *)mmap(nullptr, bb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		for (int i = 0; i < BLOCK_ROWS; i++) for (int k = 0; k < W; k++) blk[(size_t)i * W + k] = (i + k) & (BLOCK_ROWS - 1);
		munmap(blk, bb);
		int *ti = (int *)M.region(((i64)F * W + T + 1024) * sizeof(int));
		for (int b = 0; b < NB; b++) if (mmap(ti + (i64)b * BLOCK_ROWS * W, bb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) _exit(3);
		close(fd);
		int *tj = huge_array(M, 0, T, id);
		i64 base = (i64)F * W;
		for (int t = 0; t < T; t++) { ti[base + t] = tail[t].first; tj[base + t] = tail[t].second; }
		Tr.n = n; Tr.m = m; Tr.nz = Tr.nzmax = base + T; Tr.i = ti; Tr.j = tj; Tr.x = nullptr;
		spasm_field_init((i64)p, Tr.field);
		spasm_csr *C = spasm_compress(&Tr);
		std::set<std::pair<int, int>> extra;
		for (auto &e : tail) if (!(e.first < BLOCK_ROWS && e.second < W)) extra.insert(e);
		bool ok = C->n == n && C->m == m && spasm_nnz(C) == (i64)BLOCK_ROWS * W + (i64)extra.size();
		std::vector<char> seen(m);
		for (int i = 0; ok && i < n; i++) {
			std::fill(seen.begin(), seen.end(), 0);
			for (i64 k = C->p[i]; ok && k < C->p[i + 1]; k++) {
				int j = C->j[k];
				ok = j >= 0 && j < m && !seen[j] && ((i < BLOCK_ROWS && j < W) || extra.count({i, j}));
				if (ok) seen[j] = 1;
			}
		}
		if (!ok) c.fail("wrong-compress", "compression of %lld triplets is wrong", (long long)Tr.nz);
		spasm_csr_free(C);
		return;
	}
	if (mode == 3) {           // components: the long rows form one, the rows after them form cycles of known lengths
		int n = W + 200;
		std::vector<Row> tail;
		std::vector<int> comp(n, -1);
		for (int i = 0; i < F; i++) comp[i] = 0;
		int nc = 1, i = F;
		while (i < n) {
			int s = std::min<int>(1 + (int)r.below(r.coin(0.2) ? 500 : 4), n - i);
			for (int k = 0; k < s; k++) {
				Row w;
				std::set<int> cols;
				if (s > 1) cols.insert(i + (k + 1) % s);
				for (int e = (int)r.below(3); e > 0 && i + s < n; e--) cols.insert(i + s + (int)r.below(n - i - s));
				if (r.coin(0.2)) cols.insert(i + k);
				for (int j : cols) w.push_back({j, 1});
				tail.push_back(w);
				comp[i + k] = nc;
			}
			nc++; i += s;
		}
		Huge H(n, p, {}, id, nullptr, tail);
		spasm_dm *D = spasm_strongly_connected_components(&H.A);
		bool ok = D->nb == nc && D->r[0] == 0 && D->r[D->nb] == n;
		std::vector<int> pos(n, -1), blk(n, -1);
		for (int k = 0; ok && k < n; k++) { ok = D->p[k] >= 0 && D->p[k] < n && pos[D->p[k]] < 0 && D->p[k] == D->q[k]; if (ok) pos[D->p[k]] = k; }
		for (int b = 0; ok && b < D->nb; b++) {
			ok = D->r[b] < D->r[b + 1] && D->c[b] == D->r[b];
			for (int k = D->r[b]; ok && k < D->r[b + 1]; k++) { blk[D->p[k]] = b; ok = comp[D->p[k]] == comp[D->p[D->r[b]]]; }
		}
		for (size_t t = 0; ok && t < tail.size(); t++) for (auto &e : tail[t]) ok = ok && blk[F + (int)t] <= blk[e.first];
		for (int j = 0; ok && j < W; j++) ok = blk[0] <= blk[j];
		if (!ok) c.fail("wrong-components", "components of a graph with more than 2^31 arcs are wrong (%d, expected %d)", D->nb, nc);
		spasm_dm_free(D);
		return;
	}
	if (mode == 4 || mode == 5 || mode == 11) {
		// tail of known rank on few columns
		int T = 120, cw = 100, rk = 60;
		std::vector<int> cols;
		{ std::set<int> s; while ((int)s.size() < cw) s.insert(r.coin(0.7) ? W + (int)r.below(m - W) : (int)r.below(W)); cols.assign(s.begin(), s.end()); if ((int)cols.size() > m - W + 40) {} }
		std::vector<std::vector<ru32>> base(rk, std::vector<ru32>(cw, 0)), tl(T, std::vector<ru32>(cw, 0));
		for (auto &b : base) for (auto &v : b) v = r.coin(0.15) ? (ru32)r.below(p) : 0;
		for (int t = 0; t < T; t++) {
			if (t < rk && r.coin(0.7)) { tl[t] = base[t]; continue; }
			for (int e = 0; e < 3; e++) { int k = (int)r.below(rk); ru64 a = r.below(p); for (int j = 0; j < cw; j++) tl[t][j] = (ru32)((tl[t][j] + ref_mul(a, base[k][j], p)) % p); }
		}
		std::vector<Row> tail;
		for (auto &w : tl) { Row o; for (int j = 0; j < cw; j++) if (w[j]) o.push_back({cols[j], (spasm_ZZp)ref_balanced(w[j], p)}); tail.push_back(o); }
		int rank = 1 + (int)dense_rank(tl, p);
		Huge H(m, p, {}, id, fx, tail);
		spasm_csr *A = &H.A;
		if (mode == 4) {
			spasm_lu fact; memset(&fact, 0, sizeof fact);
			spasm_csr *U = spasm_csr_alloc(A->n, m, 10, (i64)p, true);
			U->n = 0;
			std::vector<int> qinv(m, -1), perm(A->n, -1), lp(A->n, -1);
			fact.U = U; fact.qinv = qinv.data(); fact.p = lp.data();
			echelonize_opts o; spasm_echelonize_init_opts(&o);
			int np = spasm_pivots_extract_structural(A, nullptr, &fact, perm.data(), &o);
			bool ok = np >= 1 && np <= rank && U->n == np;
			std::vector<char> seen(A->n);
			for (int k = 0; ok && k < A->n; k++) { ok = perm[k] >= 0 && perm[k] < A->n && !seen[perm[k]]; if (ok) seen[perm[k]] = 1; }
			std::map<int, int> piv;
			for (int k = 0; ok && k < np; k++) {
				int i = perm[k], j = U->j[U->p[k]];
				ok = U->x[U->p[k]] == 1 && qinv[j] == k && U->p[k + 1] - U->p[k] == A->p[i + 1] - A->p[i] && !piv.count(j);
				std::map<int, ru64> a, b;
				for (i64 l = A->p[i]; ok && l < A->p[i + 1]; l++) a[A->j[l]] = res(A->x[l], p);
				for (i64 l = U->p[k]; ok && l < U->p[k + 1]; l++) { b[U->j[l]] = res(U->x[l], p); ok = !piv.count(U->j[l]); }
				if (!ok) break;
				ru64 s = a.count(j) ? a[j] : 0;
				ok = s != 0;
				for (auto &e : a) ok = ok && ref_mul(b[e.first], s, p) == e.second;
				piv[j] = k;
			}
			for (int j = 0, n = 0; ok && j < m; j++) { if (qinv[j] >= 0) n++; if (j == m - 1) ok = n == np; }
			if (!ok) c.fail("wrong-pivots", "structural pivots of a matrix with more than 2^31 entries are wrong");
			count_event("pivots", np);
			spasm_csr_free(U);
			return;
		}
		echelonize_opts o; spasm_echelonize_init_opts(&o);
		o.min_pivot_proportion = 1e-9; o.L = mode == 11;
		spasm_lu *fact = spasm_echelonize(A, &o);
		if (fact->r != rank) c.fail("wrong-rank", "rank %d of a matrix with more than 2^31 entries, expected %d", fact->r, rank);
		if (mode == 11 && fact->r == rank) {
			u8 hash[32]; for (auto &h : hash) h = (u8)r.below(256);
			spasm_rank_certificate *ct = spasm_certificate_rank_create(A, hash, fact);
			if (ct->r != rank) c.fail("wrong-certificate", "states rank %d", ct->r);
			if (!spasm_certificate_rank_verify(A, hash, ct)) c.fail("honest-rejected", "a genuine certificate of a matrix with more than 2^31 entries is refused");
			if (!spasm_factorization_verify(A, fact, r.next())) count_event("factorization-not-verified");
			int t = -1;   // altered in a place that matters
			for (int k = 0; k < ct->r; k++) if (ct->x[k]) { t = k; break; }
			if (t >= 0) {
				ct->x[t] = (spasm_ZZp)ref_balanced((res(ct->x[t], p) + 1) % p, p);
				if (spasm_certificate_rank_verify(A, hash, ct)) c.fail("false-accepted", "an altered certificate is accepted");
			}
			free(ct->i); free(ct->j); free(ct->x); free(ct->y); free(ct);
		}
		spasm_lu_free(fact);
		return;
	}
	if (mode == 8) {           // matching
		std::vector<Row> tail;
		int singles = 20;
		for (int t = 0; t < 3 * singles; t++) tail.push_back({{W + t % singles, 1}});
		Huge H(m, p, {}, id, nullptr, tail);
		std::vector<int> jm(H.A.n, -7), im(m, -7);
		int k = spasm_maximum_matching(&H.A, jm.data(), im.data());
		bool ok = k == F + singles;
		int cnt = 0;
		for (int i = 0; ok && i < H.A.n; i++) if (jm[i] >= 0) { cnt++; ok = jm[i] < m && im[jm[i]] == i && (i < F ? jm[i] < W : jm[i] == W + (i - F) % singles); }
		for (int j = 0; ok && j < m; j++) if (im[j] >= 0) ok = im[j] < H.A.n && jm[im[j]] == j;
		if (!ok || cnt != k) c.fail("wrong-matching", "matching of size %d (%d rows), expected %d", k, cnt, F + singles);
		return;
	}
	if (mode == 9) {           // transpose, pattern only
		std::vector<Row> tail;
		for (int t = 0; t < 50; t++) tail.push_back(random_row(r, 0, m, 1 + (int)r.below(20), p));
		Huge H(m, p, {}, id, nullptr, tail);
		spasm_csr *B = spasm_transpose(&H.A, false);
		bool ok = B->n == m && B->m == H.A.n && B->p[m] == H.A.p[H.A.n] && B->x == nullptr;
		std::vector<std::set<int>> want(m);
		for (size_t t = 0; t < tail.size(); t++) for (auto &e : tail[t]) want[e.first].insert(F + (int)t);
		for (int j = 0; ok && j < m; j++) {
			i64 w = B->p[j + 1] - B->p[j];
			ok = w == (i64)want[j].size() + (j < W ? F : 0);
			if (!ok || (j < W - 300 && j % 61)) continue;
			std::vector<char> s(H.A.n);
			for (i64 k = B->p[j]; ok && k < B->p[j + 1]; k++) { int i = B->j[k]; ok = i >= 0 && i < H.A.n && !s[i] && (i < F ? j < W : want[j].count(i)); if (ok) s[i] = 1; }
		}
		if (!ok) c.fail("wrong-transpose", "the transpose is wrong");
		spasm_csr_free(B);
		return;
	}
	if (mode == 7 || mode == 10) {
		// U: row i has a pivot on column i, then W - 1 common entries on columns F ..; one more row carries these entries alone
		int mu = F + W - 1 + 40, T = 20;
		f[1] = 1;
		auto uj = [&](int k) { return F + k - 1; };
		auto ux = [&](int k) { return k == 0 ? 1 : fx(k); };
		std::vector<Row> tail;
		if (mode == 7) { Row w; for (int k = 1; k < W; k++) w.push_back({F + k - 1, fx(k)}); tail.push_back(w); }
		for (int t = 0; t < T; t++) { Row o; o.push_back({F + W - 1 + t, 1}); o.push_back({F + W - 1 + T + t, (spasm_ZZp)ref_balanced(1 + r.below(p - 1), p)}); tail.push_back(o); }
		Huge H(mu, p, {}, uj, ux, tail);
		spasm_csr *U = &H.A;
		for (int i = 0; i < F; i++) U->j[U->p[i]] = i;
		std::vector<int> qinv(mu, -1);
		for (int i = 0; i < U->n; i++) qinv[U->j[U->p[i]]] = i;
		if (mode == 7) {
			spasm_lu *fact = plain_lu(U, qinv.data());
			std::vector<int> rq(mu, -5);
			spasm_csr *R = spasm_rref(fact, rq.data());
			bool ok = R->n == U->n && R->m == mu && R->p[R->n] == (i64)F + (W - 1) + 2 * T;
			std::vector<char> seen(U->n);
			for (int i = 0; ok && i < R->n; i++) {
				int j = R->j[R->p[i]];
				ok = j >= 0 && j < mu && qinv[j] >= 0 && !seen[qinv[j]] && rq[j] == i && R->x[R->p[i]] == 1;
				if (!ok) break;
				int o = qinv[j]; seen[o] = 1;
				if (o < F) ok = R->p[i + 1] - R->p[i] == 1;
				else {
					std::map<int, spasm_ZZp> a, b;
					for (i64 k = U->p[o]; k < U->p[o + 1]; k++) a[U->j[k]] = U->x[k];
					for (i64 k = R->p[i]; k < R->p[i + 1]; k++) b[R->j[k]] = R->x[k];
					ok = a == b;
				}
			}
			for (int j = 0; ok && j < mu; j++) ok = (rq[j] < 0) == (qinv[j] < 0);
			if (!ok) c.fail("wrong-rref", "the reduced form of U with more than 2^31 entries is wrong");
			spasm_csr_free(R); free(fact);
			return;
		}
		// mode 10: x * U = b, dense and sparse
		std::vector<spasm_ZZp> x0(U->n), x(U->n), b(mu);
		std::vector<int> q(U->n);
		for (int i = 0; i < U->n; i++) q[i] = U->j[U->p[i]];
		ru64 s = 0;
		std::vector<ru64> bb(mu, 0);
		for (int i = 0; i < U->n; i++) {
			x0[i] = (spasm_ZZp)ref_balanced(r.below(p), p);
			if (i < F) { bb[i] = res(x0[i], p); s = (s + bb[i]) % p; }
			else for (auto &e : tail[i - F]) bb[e.first] = (bb[e.first] + ref_mul(res(x0[i], p), res(e.second, p), p)) % p;
		}
		for (int k = 1; k < W; k++) bb[F + k - 1] = (bb[F + k - 1] + ref_mul(s, f[k], p)) % p;
		for (int j = 0; j < mu; j++) b[j] = (spasm_ZZp)ref_balanced(bb[j], p);
		std::vector<spasm_ZZp> b2 = b;
		bool yes = spasm_dense_forward_solve(U, b2.data(), x.data(), q.data());
		if (!yes) c.fail("wrong-verdict", "a solvable system with more than 2^31 entries is reported unsolvable");
		else if (x != x0) c.fail("wrong-forward", "wrong solution");
		b2 = b; b2[F + 5] = (spasm_ZZp)ref_balanced((bb[F + 5] + 1) % p, p);
		if (spasm_dense_forward_solve(U, b2.data(), x.data(), q.data())) c.fail("wrong-verdict", "an unsolvable system is reported solvable");
		// sparse: right-hand sides touching late rows of U
		spasm_csr *B = spasm_csr_alloc(3, mu, 60, (i64)p, true);
		i64 k = 0;
		for (int i = 0; i < 3; i++) {
			std::set<int> cs;
			for (int e = 0; e < 12; e++) cs.insert(e % 3 == 0 ? F - 1 - (int)r.below(50) : e % 3 == 1 ? F + W - 1 + (int)r.below(2 * T) : F + (int)r.below(W - 1));
			for (int j : cs) { B->j[k] = j; B->x[k] = (spasm_ZZp)ref_balanced(1 + r.below(p - 1), p); k++; }
			B->p[i + 1] = k;
		}
		std::vector<int> xj(3 * (size_t)mu, 0);
		std::vector<spasm_ZZp> xs(mu);
		for (int i = 0; i < 3 && !c.nviol; i++) {
			std::vector<ru64> want(mu, 0);
			for (i64 l = B->p[i]; l < B->p[i + 1]; l++) want[B->j[l]] = res(B->x[l], p);
			for (int u = 0; u < U->n; u++) {
				int j = q[u]; ru64 v = want[j];
				if (!v) continue;
				if (u < F) for (int l = 1; l < W; l++) want[F + l - 1] = (want[F + l - 1] + ref_mul(p - v, f[l], p)) % p;
				else want[tail[u - F][1].first] = (want[tail[u - F][1].first] + ref_mul(p - v, res(tail[u - F][1].second, p), p)) % p;
			}
			int top = spasm_sparse_triangular_solve(U, B, i, xj.data(), xs.data(), qinv.data());
			std::vector<char> seen(mu);
			for (int l = top; l < mu; l++) {
				int j = xj[l];
				if (seen[j]) { c.fail("duplicate-pattern", "column %d twice", j); break; }
				seen[j] = 1;
				if (res(xs[j], p) != want[j]) { c.fail("wrong-sparse-solve", "column %d is wrong", j); break; }
			}
			for (int j = 0; j < mu && !c.nviol; j++) if (want[j] && !seen[j]) { c.fail("missing-pattern", "column %d missing", j); break; }
		}
		spasm_csr_free(B);
		return;
	}
}
