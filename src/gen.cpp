// Workload generators and shared structural checks.
#include "mon.hpp"
#include <cmath>

bool is_prime(ru64 n)
{
	if (n < 2) return false;
	for (ru64 q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == q) return true; if (n % q == 0) return false; }
	ru64 d = n - 1; int s = 0;
	while (!(d & 1)) { d >>= 1; s++; }
	for (ru64 a : {2, 3, 5, 7}) {    // deterministic below 3,215,031,751 with these; add 11 for the rest of 2^32
		ru64 x = ref_pow(a, d, n);
		if (x == 1 || x == n - 1) continue;
		bool comp = true;
		for (int k = 1; k < s && comp; k++) { x = (ru64)((unsigned __int128)x * x % n); if (x == n - 1) comp = false; }
		if (comp) return false;
	}
	ru64 x = ref_pow(11, d, n);
	if (x == 1 || x == n - 1) return true;
	for (int k = 1; k < s; k++) { x = (ru64)((unsigned __int128)x * x % n); if (x == n - 1) return true; }
	return false;
}
ru64 prev_prime(ru64 n) { while (n > 3 && !is_prime(n)) n--; return n < 3 ? 3 : n; }
static ru64 next_prime(ru64 n) { while (!is_prime(n)) n++; return n; }

ru64 pick_prime(Rng &r)
{
	static const ru64 fixed[] = {3, 3, 5, 7, 11, 13, 101, 127, 257, 257, 4093, 8179, 8191, 8191, 8209, 8219, 32003, 42013, 42013, 46337, 46349, 65521, 65537, 65537,
		1000003, 16777213, 16777259, 67108859, 94906249, 94906273, 189812507, 189812507, 189812533, 268435399, 536870909,
		1073741789, 1073741827, 2147483629, 2147483647, 2147483647, 2147483659, 3037000493ULL, 3037000507ULL, 4294967279ULL, 4294967291ULL, 4294967291ULL};
	if (r.coin(0.7)) {
		ru64 p = fixed[r.below(sizeof fixed / sizeof *fixed)];
		return is_prime(p) ? p : next_prime(p);
	}
	int bits = r.range(2, 32);
	ru64 lo = 1ULL << (bits - 1), hi = (1ULL << bits) - 1;
	return prev_prime(lo + r.below(hi - lo + 1));
}

static int rdim(Rng &r, int sizes)
{
	int k = 0; int opt[3];
	if (sizes & SZ_TINY) opt[k++] = 0;
	if (sizes & SZ_SMALL) opt[k++] = 1;
	if (sizes & SZ_MED) opt[k++] = 2;
	int s = opt[r.below(k)];
	if (s == 0) return r.range(0, 8);
	if (s == 1) return r.range(5, 40);
	return r.range(30, 130);
}
static ru32 rval(Rng &r, ru64 p)      // nonzero residue, with emphasis on extreme values
{
	switch (r.below(6)) {
	case 0: return 1;
	case 1: return (ru32)(p - 1);
	case 2: { static const int d[] = {0, 1, 2}; ru64 v = (p - 1) / 2 + d[r.below(3)]; v %= p; return v ? (ru32)v : 1; }
	default: return (ru32)(1 + r.below(p - 1));
	}
}
static void fill(Rng &r, Mat &M, double d) { for (auto &x : M.a) x = r.coin(d) ? rval(r, M.p) : 0; }
static Mat rand_mat(Rng &r, int n, int m, ru64 p, double d) { Mat M(n, m, p); fill(r, M, d); return M; }
static std::vector<int> rperm(Rng &r, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }
static Mat permuted(const Mat &A, const std::vector<int> &pr, const std::vector<int> &pc) { Mat B(A.n, A.m, A.p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) B.at(pr[i], pc[j]) = A.at(i, j); return B; }

static const char *famname[] = {"uniform", "lowrank-product", "triangular", "banded", "few-distinct-rows", "empty-rows-cols", "tall-skinny", "dense-lowrank",
	"hidden-dense-schur", "arrow", "special", "layered-rounds", "important-last", "incidence", "cycle-blocks", "planted-LU", "dense-schur-lowrank-tall", "duplicate-heavy", "sorted-structured", "cycle-coupled-dense"};
int gen_nfamilies() { return sizeof famname / sizeof *famname; }

Mat gen_matrix(Rng &r, ru64 p, std::string &desc, int sizes, int fam)
{
	if (fam < 0) fam = (int)r.below(gen_nfamilies());
	int n = rdim(r, sizes), m = rdim(r, sizes);
	Mat A(n, m, p);
	switch (fam) {
	case 0: { static const double d[] = {0.01, 0.03, 0.05, 0.1, 0.2, 0.4}; double dd = d[r.below(6)]; if (n < 10) dd = std::max(dd, 0.2); fill(r, A, dd); break; }
	case 1: { int k = (int)r.below(std::min(n, m) + 1); Mat X = rand_mat(r, n, k, p, r.coin() ? 0.1 : 0.4), Y = rand_mat(r, k, m, p, r.coin() ? 0.1 : 0.3); A = ref_matmul(X, Y); break; }
	case 2: {
		Mat T(n, m, p);
		double d = r.unit() * 0.3;
		for (int i = 0; i < n; i++) for (int j = i; j < m; j++) if (i == j) T.at(i, j) = rval(r, p); else if (r.coin(d)) T.at(i, j) = rval(r, p);
		A = permuted(T, rperm(r, n), rperm(r, m)); break; }
	case 3: { int w = r.range(0, 4); for (int i = 0; i < n; i++) for (int j = std::max(0, i - w); j <= std::min(m - 1, i + w); j++) if (r.coin(0.7)) A.at(i, j) = rval(r, p); break; }
	case 4: {
		int k = r.range(1, 6); Mat B = rand_mat(r, k, m, p, 0.2);
		for (int i = 0; i < n; i++) { int b = (int)r.below(k); ru64 f = rval(r, p); for (int j = 0; j < m; j++) A.at(i, j) = (ru32)ref_mul(B.at(b, j), f, p); }
		break; }
	case 5: {
		std::vector<char> zr(n), zc(m); double a = r.unit(), b = r.unit();
		for (auto &x : zr) x = r.coin(a);
		for (auto &x : zc) x = r.coin(b);
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!zr[i] && !zc[j] && r.coin(0.3)) A.at(i, j) = rval(r, p);
		break; }
	case 6: { n = sizes & SZ_MED ? r.range(60, 300) : r.range(10, 60); m = r.range(1, std::max(1, n / 8)); A = rand_mat(r, n, m, p, r.coin() ? 0.05 : 0.5); if (r.coin(0.4)) A = ref_transpose(A); break; }
	case 7: { int k = (int)r.below(std::min(n, m) + 1); A = ref_matmul(rand_mat(r, n, k, p, 1), rand_mat(r, k, m, p, 1)); break; }
	case 8: {   // [T X; Y Y T^-1 X + D] : structural pivots in T, dense Schur complement D of chosen rank
		int t = std::min(n, m) / 2, nn = n - t, mm = m - t;
		Mat T(t, t, p); for (int i = 0; i < t; i++) { T.at(i, i) = 1; for (int j = i + 1; j < t; j++) if (r.coin(0.05)) T.at(i, j) = rval(r, p); }
		Mat X = rand_mat(r, t, mm, p, 0.1); int k = (int)r.below(std::min(nn, mm) + 1);
		Mat D = ref_matmul(rand_mat(r, nn, k, p, 1), rand_mat(r, k, mm, p, 1));
		Mat C = rand_mat(r, nn, t, p, 0.1);       // lower left = C*T, lower right = C*X + D
		Mat CT = ref_matmul(C, T), CX = ref_matmul(C, X);
		for (int i = 0; i < t; i++) { for (int j = 0; j < t; j++) A.at(i, j) = T.at(i, j); for (int j = 0; j < mm; j++) A.at(i, t + j) = X.at(i, j); }
		for (int i = 0; i < nn; i++) { for (int j = 0; j < t; j++) A.at(t + i, j) = CT.at(i, j); for (int j = 0; j < mm; j++) A.at(t + i, t + j) = (ru32)((CX.at(i, j) + (ru64)D.at(i, j)) % p); }
		A = permuted(A, rperm(r, n), r.coin() ? rperm(r, m) : [&] { std::vector<int> v(m); for (int i = 0; i < m; i++) v[i] = i; return v; }());
		break; }
	case 9: { for (int i = 0; i < n; i++) { if (i < m) A.at(i, i) = rval(r, p); if (m) A.at(i, 0) = rval(r, p); } for (int j = 0; j < m && n; j++) A.at(0, j) = rval(r, p); if (r.coin()) A = permuted(A, rperm(r, n), rperm(r, m)); break; }
	case 10: switch (r.below(8)) {
		case 0: break;                                            // zero matrix
		case 1: for (auto &x : A.a) x = 1; break;                  // all ones
		case 2: for (int i = 0; i < std::min(n, m); i++) A.at(i, i) = 1; break;
		case 3: if (n && m) A.at((int)r.below(n), (int)r.below(m)) = rval(r, p); break;
		case 4: A = Mat(r.below(2) ? 0 : n, r.below(2) ? 0 : m, p); break;
		case 5: for (int i = 0; i < n && m; i++) A.at(i, (int)r.below(m)) = rval(r, p); break;
		case 6: for (int j = 0; j < m && n; j++) A.at((int)r.below(n), j) = rval(r, p); break;
		default: for (int i = 0; i < std::min(n, m); i++) A.at(n - 1 - i, i) = (ru32)(p - 1); break;
		} break;
	case 11: {   // several strata of dependent sparse blocks so that each round finds some pivots only
		int k = r.range(2, 5); A = rand_mat(r, n, m, p, 0.02);
		for (int b = 0; b < k; b++) { int s = std::min(n, m) / k; int o = b * s; Mat B = rand_mat(r, s, s, p, std::min(1.0, 3.0 / std::max(1, s))); for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) if (B.at(i, j)) A.at(o + i, o + j) = B.at(i, j); }
		break; }
	case 12: {   // many combinations of a small space first, independent rows last
		int k = std::min({n / 3, m / 3, 12}); Mat B = rand_mat(r, k, m, p, 0.3); Mat C = rand_mat(r, n, k, p, 0.4); A = ref_matmul(C, B);
		int last = std::min(n, r.range(1, 12)); for (int i = n - last; i < n; i++) for (int j = 0; j < m; j++) A.at(i, j) = r.coin(0.15) ? rval(r, p) : 0;
		if (r.coin(0.3)) for (int i = 0; i < n / 2; i++) std::swap_ranges(A.row(i), A.row(i) + m, A.row(n - 1 - i));
		break; }
	case 13: { for (int i = 0; i < n && m > 1; i++) { int a = (int)r.below(m), b = (int)r.below(m); A.at(i, a) = 1; A.at(i, b) = a == b ? 0 : (ru32)(p - 1); } break; }
	case 14: {   // blocks whose bipartite graph is a cycle: structurally nonsingular, pivots conflict
		int o = 0; while (o < std::min(n, m)) { int s = r.range(1, 6); s = std::min(s, std::min(n, m) - o); for (int i = 0; i < s; i++) { A.at(o + i, o + i) = rval(r, p); A.at(o + i, o + (i + 1) % s) = rval(r, p); } o += s; }
		for (int k = 0; k < n / 4 && n && m; k++) A.at((int)r.below(n), (int)r.below(m)) = rval(r, p);
		A = permuted(A, rperm(r, n), rperm(r, m)); break; }
	case 15: { int k = (int)r.below(std::min(n, m) + 1); Mat L(n, k, p), U(k, m, p);
		for (int i = 0; i < n; i++) { for (int j = 0; j < std::min(i, k); j++) if (r.coin(0.05)) L.at(i, j) = rval(r, p); if (i < k) L.at(i, i) = 1; }
		for (int i = 0; i < k; i++) { U.at(i, i) = 1; for (int j = i + 1; j < m; j++) if (r.coin(0.05)) U.at(i, j) = rval(r, p); }
		A = permuted(ref_matmul(L, U), rperm(r, n), rperm(r, m)); break; }
	case 16: {   // tall; few structural pivots; the rest is dense of low rank, spread over a few late rows
		n = sizes & SZ_MED ? r.range(80, 260) : r.range(12, 60); m = r.range(4, std::max(5, n / 3)); int k = (int)r.below(m / 2 + 1);
		A = Mat(n, m, p); Mat D = ref_matmul(rand_mat(r, n, k, p, r.coin() ? 0.1 : 1), rand_mat(r, k, m, p, 1));
		A = D; int special = r.range(0, 6); for (int s = 0; s < special; s++) { int i = r.coin() ? n - 1 - s : (int)r.below(n); for (int j = 0; j < m; j++) A.at(i, j) = r.coin(0.5) ? rval(r, p) : 0; }
		if (r.coin(0.3)) { int z = r.range(0, n / 2); for (int i = n - z; i < n; i++) for (int j = 0; j < m; j++) A.at(i, j) = 0; }
		break; }
	case 17: {   // values cancel often: entries from {1,-1} and repeated rows
		for (auto &x : A.a) x = r.coin(0.15) ? (r.coin() ? 1 : (ru32)(p - 1)) : 0;
		for (int i = 1; i < n; i++) if (r.coin(0.4)) std::copy(A.row(i - 1), A.row(i - 1) + m, A.row(i));
		break; }
	case 18: {   // staircase: leftmost entries shared by groups of rows of different weights
		for (int i = 0; i < n && m; i++) { int j0 = (int)((ri64)(i / 3) * m / std::max(1, n)); A.at(i, j0) = rval(r, p); int extra = r.range(0, 5); for (int e = 0; e < extra; e++) { int j = j0 + (int)r.below(m - j0); A.at(i, j) = rval(r, p); } }
		break; }
	case 19: {   // cyclic sparse part coupled with a dense low-rank part: rounds then dense finish
		int s = std::min(n, m) * 2 / 3; for (int i = 0; i < s; i++) { A.at(i, i) = rval(r, p); if (s > 1) A.at(i, (i + 1 + (int)r.below(2)) % s) = rval(r, p); }
		int k = std::min(n, m) ? (int)r.below(std::min(n, m) / 3 + 1) : 0; Mat D = ref_matmul(rand_mat(r, n, k, p, 0.5), rand_mat(r, k, m, p, 0.7));
		for (int i = s; i < n; i++) for (int j = s / 2; j < m; j++) A.at(i, j) = D.at(i, j);
		A = permuted(A, rperm(r, n), rperm(r, m)); break; }
	}
	desc += strf("family=%s %dx%d p=%llu", famname[fam], A.n, A.m, (unsigned long long)p);
	count_event((std::string("family:") + famname[fam]).c_str());
	return A;
}

SMat gen_planted(Rng &r, ru64 p, int n, int m, int rank, double lw, double uw, std::string &desc)
{
	SMat S; S.n = n; S.m = m; S.p = p; S.rows.resize(n);
	rank = std::min(rank, std::min(n, m));
	std::vector<int> pc = rperm(r, m), pr = rperm(r, n);
	std::vector<std::map<int, ru32>> U(rank);
	for (int i = 0; i < rank; i++) {
		U[i][i] = 1;
		int k = (int)(uw * 2 * r.unit());
		for (int e = 0; e < k && i + 1 < m; e++) U[i][i + 1 + (int)r.below(m - i - 1)] = rval(r, p);
	}
	for (int i = 0; i < n; i++) {
		std::map<int, ru64> acc;
		auto add = [&](int k, ru64 f) { for (auto &e : U[k]) { ru64 &x = acc[e.first]; x = (x + f * e.second) % p; } };
		if (i < rank) add(i, rval(r, p));
		int lim = std::min(i, rank);
		int k = i < rank ? (int)(lw * 2 * r.unit()) : 1 + (int)(lw * 2 * r.unit());
		for (int e = 0; e < k && lim > 0; e++) add((int)r.below(lim), rval(r, p));
		for (auto &e : acc) if (e.second) S.rows[pr[i]].push_back({pc[e.first], (ru32)e.second});
	}
	desc += strf("planted %dx%d rank %d p=%llu", n, m, rank, (unsigned long long)p);
	return S;
}

static struct spasm_csr *alloc_csr(int n, int m, i64 nz, i64 slack, ru64 p, bool values)
{
	struct spasm_csr *A = (struct spasm_csr *)malloc(sizeof *A);
	memset(A, 0, sizeof *A);
	spasm_field_init((i64)p, A->field);
	A->n = n; A->m = m; A->nzmax = nz + slack;
	A->p = (i64 *)malloc(((size_t)n + 1) * sizeof(i64));
	A->j = (int *)malloc((size_t)(nz + slack) * sizeof(int));
	A->x = values ? (spasm_ZZp *)malloc((size_t)(nz + slack) * sizeof(spasm_ZZp)) : NULL;
	A->p[0] = 0;
	return A;
}
struct spasm_csr *make_csr(const Mat &M, Rng &r, CsrOpt o)
{
	i64 nz = 0;
	for (ru32 v : M.a) nz += v != 0;
	struct spasm_csr *A = alloc_csr(M.n, M.m, nz, o.slack, M.p, o.values);
	i64 k = 0;
	for (int i = 0; i < M.n; i++) {
		i64 s = k;
		for (int j = 0; j < M.m; j++) if (M.at(i, j)) { A->j[k] = j; k++; }
		if (o.shuffle) for (i64 t = k - 1; t > s; t--) std::swap(A->j[t], A->j[s + (i64)r.below(t - s + 1)]);
		if (o.values) for (i64 t = s; t < k; t++) A->x[t] = (spasm_ZZp)ref_balanced(M.at(i, A->j[t]), M.p);
		A->p[i + 1] = k;
	}
	for (i64 t = nz; t < nz + o.slack; t++) { A->j[t] = 0; if (o.values) A->x[t] = 0; }
	return A;
}
struct spasm_csr *make_csr(const SMat &M, Rng &r)
{
	i64 nz = 0;
	for (auto &w : M.rows) nz += (i64)w.size();
	struct spasm_csr *A = alloc_csr(M.n, M.m, nz, 0, M.p, true);
	i64 k = 0;
	for (int i = 0; i < M.n; i++) {
		auto w = M.rows[i];
		for (size_t t = w.size(); t > 1; t--) std::swap(w[t - 1], w[r.below(t)]);
		for (auto &e : w) { A->j[k] = e.first; A->x[k] = (spasm_ZZp)ref_balanced(e.second, M.p); k++; }
		A->p[i + 1] = k;
	}
	return A;
}

ru64 hash_bytes(const void *p, size_t n, ru64 h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL; return h; }
ru64 hash_csr(const spasm_csr *A)
{
	ru64 h = 1469598103934665603ULL;
	h = mix64(h, (ru64)A->n * 1000003 + A->m);
	h = hash_bytes(A->p, sizeof(i64) * ((size_t)A->n + 1), h);
	size_t nz = (size_t)A->p[A->n];
	h = hash_bytes(A->j, sizeof(int) * nz, h);
	if (A->x) h = hash_bytes(A->x, sizeof(spasm_ZZp) * nz, h);
	h = hash_bytes(&A->field->p, 8, h);
	return h;
}
ru64 hash_mat(const Mat &M) { ru64 h = mix64((ru64)M.n * 65537 + M.m, M.p); for (ru32 v : M.a) h = (h ^ v) * 1099511628211ULL; return h; }
CsrGuard guard_csr(const spasm_csr *A) { return CsrGuard{A, hash_csr(A), A->n, A->m, A->nzmax, A->p, A->j, A->x}; }
bool guard_ok(const CsrGuard &g) { return g.A->n == g.n && g.A->m == g.m && g.A->nzmax == g.nzmax && g.A->p == g.p && g.A->j == g.j && g.A->x == g.x && hash_csr(g.A) == g.h; }

std::string csr_complaint(const spasm_csr *A, int flags)
{
	if (!A) return "null matrix";
	if (A->n < 0 || A->m < 0) return strf("negative dimension %d x %d", A->n, A->m);
	if (A->p[0] != 0) return strf("p[0] = %lld", (long long)A->p[0]);
	ru64 p = (ru64)A->field->p;
	std::vector<int> seen((size_t)A->m, -1);
	for (int i = 0; i < A->n; i++) {
		if (A->p[i + 1] < A->p[i]) return strf("row pointers decrease at row %d", i);
		if (A->p[i + 1] > A->nzmax) return strf("row %d ends at %lld beyond the capacity %lld", i, (long long)A->p[i + 1], (long long)A->nzmax);
		for (i64 t = A->p[i]; t < A->p[i + 1]; t++) {
			int j = A->j[t];
			if (j < 0 || j >= A->m) return strf("row %d has column index %d outside [0,%d)", i, j, A->m);
			if ((flags & CK_DUP) && seen[j] == i) return strf("row %d has column %d twice", i, j);
			seen[j] = i;
			if (A->x) {
				if ((flags & CK_ZERO) && A->x[t] == 0) return strf("stored zero at (%d,%d)", i, j);
				if ((flags & CK_CANON) && !canonical(A->x[t], p)) return strf("non-canonical value %d at (%d,%d) mod %llu", A->x[t], i, j, (unsigned long long)p);
			}
		}
	}
	return "";
}
Mat to_mat(const spasm_csr *A)
{
	ru64 p = (ru64)A->field->p;
	if ((i64)p < 2) p = 3;
	Mat M(A->n, A->m, p);
	for (int i = 0; i < A->n; i++)
		for (i64 t = A->p[i]; t < A->p[i + 1]; t++) {
			ru32 &x = M.at(i, A->j[t]);
			x = (ru32)((x + res(A->x ? A->x[t] : 1, p)) % p);
		}
	return M;
}
std::vector<ru32> to_vec(const spasm_ZZp *x, int n, ru64 p) { std::vector<ru32> v((size_t)n); for (int i = 0; i < n; i++) v[i] = (ru32)res(x[i], p); return v; }
std::vector<ru32> vecmat(const std::vector<ru32> &x, const Mat &A)
{
	std::vector<ru32> y((size_t)A.m, 0);
	for (int i = 0; i < A.n; i++) if (x[i]) { ru64 f = x[i]; const ru32 *a = A.row(i); for (int j = 0; j < A.m; j++) if (a[j]) y[j] = (ru32)((y[j] + f * a[j]) % A.p); }
	return y;
}

std::string opts_str(const struct echelonize_opts &o)
{
	return strf("opts{greedy=%d tall=%d dense=%d gplu=%d L=%d complete=%d minpiv=%g rounds=%d thr=%g blk=%d lowrank=%g ratio=%g w=%g}", o.enable_greedy_pivot_search, o.enable_tall_and_skinny, o.enable_dense, o.enable_GPLU,
		o.L, o.complete, o.min_pivot_proportion, o.max_round, o.sparsity_threshold, o.dense_block_size, o.low_rank_ratio, o.tall_and_skinny_ratio, o.low_rank_start_weight);
}

// full_expected: a finishing method that applies is enabled, so the echelonization must be complete
void gen_opts(Rng &r, struct echelonize_opts *o, int n, int m, bool &full, std::string &desc, bool allowL, bool forceL)
{
	spasm_echelonize_init_opts(o);
	full = true;
	if (!r.coin(0.15)) {
		static const double thr[] = {-1, 0, 0.02, 0.05, 0.1, 0.3, 0.6, 2}, mp[] = {-1, 0, 0.1, 0.3, 0.7, 1.5}, lr[] = {-1, 0, 0.3, 0.5, 0.9, 1.0, 1.5}, ra[] = {-1, 0, 0.3, 1, 2, 5, 50}, we[] = {-1, -1, 0, 1, 2, 5, 40};
		static const int bl[] = {1, 2, 3, 5, 8, 16, 33, 100, 1000}, mr[] = {0, 1, 1, 2, 3, 3, 6, 20};
		o->enable_greedy_pivot_search = r.coin(0.7);
		o->enable_tall_and_skinny = r.coin(0.7);
		o->enable_dense = r.coin(0.75);
		o->enable_GPLU = r.coin(0.75);
		o->min_pivot_proportion = mp[r.below(6)];
		o->max_round = mr[r.below(8)];
		o->sparsity_threshold = thr[r.below(8)];
		o->dense_block_size = bl[r.below(9)];
		o->low_rank_ratio = lr[r.below(7)];
		o->tall_and_skinny_ratio = ra[r.below(7)];
		o->low_rank_start_weight = we[r.below(7)];
		// steer toward one finisher from time to time
		switch (r.below(6)) {
		case 0: o->enable_tall_and_skinny = 0; o->enable_dense = 1; o->sparsity_threshold = -1; break;                       // dense
		case 1: o->enable_tall_and_skinny = 1; o->tall_and_skinny_ratio = -1; break;                                         // low rank
		case 2: o->enable_tall_and_skinny = 0; o->enable_dense = 0; o->enable_GPLU = 1; break;                               // GPLU
		case 3: o->enable_dense = 1; o->enable_tall_and_skinny = 1; o->tall_and_skinny_ratio = 1000; o->sparsity_threshold = -1; o->low_rank_ratio = 0.5 + r.unit(); o->dense_block_size = r.range(1, 12); break;   // dense then low rank
		}
	}
	if (forceL || (allowL && r.coin(0.4))) { o->L = 1; if (r.coin(0.4)) o->complete = 1; if (!forceL && r.coin(0.1)) { o->L = 0; o->complete = 1; } }
	bool L = o->L || o->complete;
	bool gplu = o->enable_GPLU, dense = o->enable_dense && o->sparsity_threshold < 0, tall = o->enable_tall_and_skinny && !L && o->tall_and_skinny_ratio < 0;
	full = gplu || dense || tall;
	// the low-rank finisher works by random sampling; with very small weights it may need many passes, never a wrong answer
	desc += "; " + opts_str(*o);
	(void)n; (void)m;
}

void free_lu(spasm_lu *f) { spasm_lu_free(f); }

bool check_U(Case &c, const spasm_lu *f, const Mat &A, bool full, int refrank, bool space)
{
	const spasm_csr *U = f->U;
	int v0 = c.nviol;
	if (!U) { c.fail("no-U", "factorization without U"); return false; }
	std::string w = csr_complaint(U, CK_DUP | CK_CANON);
	if (!w.empty()) { c.fail("U-malformed", "U: %s", w.c_str()); return false; }
	if (U->m != A.m || (ru64)U->field->p != A.p) { c.fail("U-shape", "U has %d columns mod %lld, expected %d mod %llu", U->m, (long long)U->field->p, A.m, (unsigned long long)A.p); return false; }
	if (f->r != U->n) { c.fail("r-mismatch", "r = %d but U has %d rows", f->r, U->n); return false; }
	if (U->n > std::min(A.n, A.m)) { c.fail("too-many-rows", "U has %d rows for a %d x %d matrix", U->n, A.n, A.m); return false; }
	// pivots
	std::vector<int> piv((size_t)U->n, -1);
	for (int j = 0; j < U->m; j++) {
		int i = f->qinv[j];
		if (i == -1) continue;
		if (i < 0 || i >= U->n) { c.fail("qinv-range", "qinv[%d] = %d with %d rows in U", j, i, U->n); return false; }
		if (piv[i] != -1) { c.fail("qinv-dup", "columns %d and %d both claim row %d", piv[i], j, i); return false; }
		piv[i] = j;
	}
	for (int i = 0; i < U->n; i++) {
		if (piv[i] < 0) { c.fail("row-without-pivot", "row %d of U has no pivot in qinv", i); return false; }
		if (U->p[i] == U->p[i + 1]) { c.fail("empty-row", "row %d of U is empty", i); return false; }
		if (U->j[U->p[i]] != piv[i]) { c.fail("pivot-not-first", "row %d starts with column %d, pivot is on column %d", i, U->j[U->p[i]], piv[i]); return false; }
		if (U->x[U->p[i]] != 1) { c.fail("pivot-not-unit", "pivot of row %d is %d", i, U->x[U->p[i]]); return false; }
		for (i64 t = U->p[i] + 1; t < U->p[i + 1]; t++) {
			int k = f->qinv[U->j[t]];
			if (k >= 0 && k < i && U->x[t] != 0) { c.fail("not-triangular", "row %d has entry %d on column %d, the pivot column of earlier row %d", i, U->x[t], U->j[t], k); return false; }
		}
	}
	count_event("U-rows-checked", (ru64)U->n);
	if (full && U->n != refrank) { c.fail("wrong-rank", "rank %d reported, exact rank is %d", U->n, refrank); }
	if (!full && U->n > refrank) { c.fail("rank-too-large", "%d rows reported, exact rank is %d", U->n, refrank); }
	if (space) {
		Mat Um = to_mat(U);
		Mat st = ref_vstack(A, Um);
		int rr = ref_rank(st);
		if (rr != refrank) c.fail("U-outside-row-space", "rank([A;U]) = %d, rank(A) = %d", rr, refrank);
	}
	return c.nviol == v0;
}

bool check_L(Case &c, const spasm_lu *f, const Mat &A, bool complete, bool full)
{
	int v0 = c.nviol;
	const spasm_csr *L = f->L, *U = f->U;
	if (!L || (!f->p && U->n)) { c.fail("no-L", "L or p missing although requested"); return false; }
	std::string w = csr_complaint(L, CK_DUP | CK_CANON | CK_ZERO);
	if (!w.empty()) { c.fail("L-malformed", "L: %s", w.c_str()); return false; }
	if (L->n != A.n || L->m != U->n) { c.fail("L-shape", "L is %d x %d, expected %d x %d", L->n, L->m, A.n, U->n); return false; }
	if (f->complete != complete) { c.fail("complete-flag", "complete flag is %d, requested %d", f->complete, complete); return false; }
	std::vector<int> row_of((size_t)A.n, -1);
	int r = U->n;
	for (int k = 0; k < r; k++) {
		int i = f->p[k];
		if (i < 0 || i >= A.n) { c.fail("p-range", "p[%d] = %d", k, i); return false; }
		if (row_of[i] >= 0) { c.fail("p-dup", "p[%d] = p[%d] = %d", k, row_of[i], i); return false; }
		row_of[i] = k;
	}
	Mat Lm = to_mat(L), Um = to_mat(U);
	for (int k = 0; k < r; k++) {
		int i = f->p[k];
		if (Lm.at(i, k) == 0) { c.fail("L-zero-diagonal", "L[p[%d]=%d][%d] is zero", k, i, k); return false; }
		for (int j = k + 1; j < r; j++) if (Lm.at(i, j)) { c.fail("L-not-triangular", "L[p[%d]=%d][%d] = %u", k, i, j, Lm.at(i, j)); return false; }
	}
	Mat P = ref_matmul(Lm, Um);
	for (int i = 0; i < A.n; i++) {
		if (!(complete && full) && row_of[i] < 0) continue;
		for (int j = 0; j < A.m; j++) if (P.at(i, j) != A.at(i, j)) { c.fail("LU-differs", "(L*U)[%d][%d] = %u, A has %u (%s row)", i, j, P.at(i, j), A.at(i, j), row_of[i] >= 0 ? "pivotal" : "non-pivotal"); return false; }
		count_event("LU-rows-checked");
	}
	// pivotal rows x pivotal columns nonsingular
	std::vector<int> cols;
	for (int j = 0; j < A.m; j++) if (f->qinv[j] >= 0) cols.push_back(j);
	Mat S(r, (int)cols.size(), A.p);
	for (int k = 0; k < r; k++) for (size_t t = 0; t < cols.size(); t++) S.at(k, (int)t) = A.at(f->p[k], cols[t]);
	if (ref_rank(S) != r) c.fail("pivotal-singular", "pivotal submatrix of order %d is singular", r);
	return c.nviol == v0;
}
