// Field, assembly, permutations, hash and generator, files, images
#include <set>
#include "files.hpp"
#include <climits>
#include <unistd.h>
#include <sys/resource.h>

// ---- C01 ---------------------------------------------------------------------------------------
static void c01_pair(Case &c, const spasm_field F, ru64 p, spasm_ZZp a, spasm_ZZp b, spasm_ZZp y)
{
	ru64 A = res(a, p), B = res(b, p), Y = res(y, p);
	auto chk = [&](const char *op, spasm_ZZp got, ru64 want) {
		if ((ri64)got != ref_balanced(want, p)) c.fail(std::string("wrong-") + op, "%s(%d,%d,%d) mod %llu = %d, expected %lld", op, a, b, y, (unsigned long long)p, got, (long long)ref_balanced(want, p));
	};
	chk("add", spasm_ZZp_add(F, a, b), (A + B) % p);
	chk("sub", spasm_ZZp_sub(F, a, b), (A + p - B) % p);
	chk("mul", spasm_ZZp_mul(F, a, b), ref_mul(A, B, p));
	chk("axpy", spasm_ZZp_axpy(F, a, b, y), (ref_mul(A, B, p) + Y) % p);
	if (a) chk("inverse", spasm_ZZp_inverse(F, a), ref_inv(A, p));
}
PROP(C01)
{
	Rng &r = c.rng;
	spasm_field F;
	if (c.mode == 1) {          // small fields completely
		ru64 p = 3;
		for (long k = 0; k < c.idx; k++) { p += 2; while (!is_prime(p)) p += 2; }
		c.note(strf("all pairs modulo %llu", (unsigned long long)p));
		spasm_field_init((i64)p, F);
		int h = (int)(p - 1) / 2;
		for (int a = -h; a <= h; a++)
			for (int b = -h; b <= h; b++) {
				c01_pair(c, F, p, a, b, (spasm_ZZp)ref_balanced(r.below(p), p));
				if (p <= 31) for (int y = -h; y <= h; y++) c01_pair(c, F, p, a, b, y);
			}
		count_event("operations", 5 * p * p * (p <= 31 ? p : 1));
		c.mix(p); c.nontrivial = true;
		return;
	}
	ru64 p = pick_prime(r);
	c.note(strf("p=%llu", (unsigned long long)p));
	spasm_field_init((i64)p, F);
	ri64 h = (ri64)(p - 1) / 2;
	auto elem = [&]() -> spasm_ZZp {
		switch (r.below(8)) {
		case 0: return (spasm_ZZp)(h - (ri64)r.below(std::min<ru64>(3, p / 2)));
		case 1: return (spasm_ZZp)(-h + (ri64)r.below(std::min<ru64>(3, p / 2)));
		case 2: return (spasm_ZZp)ref_balanced(r.below(std::min<ru64>(5, p)), p);
		case 3: return (spasm_ZZp)ref_balanced(p - 1 - r.below(std::min<ru64>(5, p)), p);
		case 4: { ru64 x = r.below(p) >> r.below(32); return (spasm_ZZp)ref_balanced(x, p); }
		default: return (spasm_ZZp)ref_balanced(r.below(p), p);
		}
	};
	int N = c.slow ? 300 : 3000;
	for (int k = 0; k < N && c.nviol == 0; k++) {
		spasm_ZZp a = elem(), b = elem(), y = elem();
		if (r.coin(0.3) && a) {   // quotients close to integers: b close to k*p/a, and exact cancellations
			ru64 A = res(a, p), q = 1 + r.below(A);
			ru64 B = (ru64)((__int128)q * p / A) + r.below(3); B = B > 0 ? B - 1 : 0; b = (spasm_ZZp)ref_balanced(B % p, p);
			if (r.coin()) y = (spasm_ZZp)ref_balanced((p - ref_mul(res(a, p), res(b, p), p) + r.below(3)) % p, p);
		}
		else if (r.coin(0.3) && a) {   // the product within a few units of a multiple of the modulus
			b = (spasm_ZZp)ref_balanced(ref_mul(ref_inv(res(a, p), p), res(r.range(-4, 4), p), p), p);
		}
		if (r.coin(0.4)) { ri64 e = std::max<ri64>(0, h - (ri64)r.below(4)); y = (spasm_ZZp)(r.coin() ? e : -e); }     // extreme addend
		c01_pair(c, F, p, a, b, y);
		c.mix((ru32)a);
		ri64 x;
		switch (r.below(6)) {
		case 0: x = (ri64)r.next(); break;
		case 1: x = (ri64)(r.next() >> r.below(63)); break;
		case 2: x = INT64_MIN + (ri64)r.below(3); break;
		case 3: x = INT64_MAX - (ri64)r.below(3); break;
		case 4: x = (ri64)p * ((ri64)r.next() % (ri64)(INT64_MAX / (ri64)p)) + r.range(-1, 1); break;
		default: x = h + r.range(-2, 3) + (ri64)p * r.range(-2, 2); break;
		}
		spasm_ZZp g = spasm_ZZp_init(F, x);
		if ((ri64)g != ref_balanced(ref_mod(x, p), p)) c.fail("wrong-init", "conversion of %lld modulo %llu gives %d", (long long)x, (unsigned long long)p, g);
	}
	count_event("operations", 6 * (ru64)N);
	distinct("modulus", p);
	c.nontrivial = true;
}

// ---- C19 ---------------------------------------------------------------------------------------
PROP(C19)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	bool values = !r.coin(0.2), noprime = !values && r.coin(0.5);
	int n0 = r.range(0, r.coin(0.2) ? 60 : 12), m0 = r.range(0, r.coin(0.2) ? 60 : 12);
	int n = n0 + (r.coin(0.5) ? 0 : r.range(0, 5)), m = m0 + (r.coin(0.5) ? 0 : r.range(0, 5));
	int k = (n && m) ? (int)r.below(r.coin(0.1) ? 2000 : 80) : 0;
	i64 cap = r.coin(0.3) ? 0 : r.range(0, 20);
	struct spasm_triplet *T = spasm_triplet_alloc(n0, m0, cap, noprime ? -1 : (i64)p, values);
	c.note(strf("triplet %dx%d cap %lld, %d entries, p=%lld values=%d", n0, m0, (long long)cap, k, noprime ? -1LL : (long long)p, values));
	std::vector<Ent> es;
	int spread = r.coin(0.4) ? 1 : r.coin(0.5) ? 3 : 1000;        // few cells: many duplicates
	for (int t = 0; t < k; t++) {
		Ent e; e.i = (ri64)r.below(std::min(n, spread)); e.j = (ri64)r.below(std::min(m, spread));
		if (r.coin(0.2)) { e.i = (ri64)r.below(n); e.j = (ri64)r.below(m); }
		switch (r.below(6)) {
		case 0: e.x = 1; break;
		case 1: e.x = -1; break;
		case 2: e.x = (ri64)r.next(); break;
		case 3: e.x = (ri64)(p / 2) + r.range(-1, 1); break;
		case 4: e.x = es.empty() ? 5 : -es[r.below(es.size())].x; if (!es.empty() && r.coin(0.7)) { auto &o = es[r.below(es.size())]; e.i = o.i; e.j = o.j; e.x = o.x == INT64_MIN ? 1 : -o.x; } break;
		default: e.x = (ri64)r.below(p); break;
		}
		es.push_back(e);
		i64 nz0 = T->nz;
		spasm_add_entry(T, (int)e.i, (int)e.j, e.x);
		if (T->nz > T->nzmax) { c.fail("overfull", "nz exceeds nzmax after adding an entry"); break; }
		if (values && r.coin(0.03) && T->nz > nz0) { T->x[T->nz - 1] = 0; es.back().x = 0; }     // an explicit zero
	}
	if (r.coin(0.2)) spasm_triplet_realloc(T, r.coin() ? -1 : T->nz + r.range(0, 30));
	int En0 = n0, Em0 = m0, En1 = n0, Em1 = m0;     // dimensions: nonzero entries count for sure, zero ones may
	for (auto &e : es) {
		bool nz = !values || ref_mod(e.x, p) != 0;
		if (nz) { En0 = std::max(En0, (int)e.i + 1); Em0 = std::max(Em0, (int)e.j + 1); }
		En1 = std::max(En1, (int)e.i + 1); Em1 = std::max(Em1, (int)e.j + 1);
	}
	bool tr = r.coin(0.4);
	if (T->n < En0 || T->n > En1 || T->m < Em0 || T->m > Em1) c.fail("dimensions", "triplet is %d x %d, expected %d..%d x %d..%d", T->n, T->m, En0, En1, Em0, Em1);
	if (c.nviol) { spasm_triplet_free(T); return; }
	if (tr) { spasm_triplet_transpose(T); std::swap(En0, Em0); std::swap(En1, Em1); if (r.coin(0.1)) { spasm_triplet_transpose(T); spasm_triplet_transpose(T); } }
	if (T->n < En0 || T->n > En1 || T->m < Em0 || T->m > Em1) { c.fail("dimensions", "transposed triplet is %d x %d", T->n, T->m); spasm_triplet_free(T); return; }
	Mat W(T->n, T->m, p);
	for (auto &e : es) {
		int i = tr ? (int)e.j : (int)e.i, j = tr ? (int)e.i : (int)e.j;
		if (values) { ru64 v = ref_mod(e.x, p); if (v == 0 && (i >= W.n || j >= W.m)) continue; W.at(i, j) = (ru32)((W.at(i, j) + v) % p); }
		else W.at(i, j) = 1;
	}
	ru64 h0 = mix64(hash_bytes(T->i, sizeof(int) * T->nz), hash_bytes(T->j, sizeof(int) * T->nz)); if (values) h0 = mix64(h0, hash_bytes(T->x, 4 * T->nz));
	spasm_csr *C = spasm_compress(T);
	ru64 h1 = mix64(hash_bytes(T->i, sizeof(int) * T->nz), hash_bytes(T->j, sizeof(int) * T->nz)); if (values) h1 = mix64(h1, hash_bytes(T->x, 4 * T->nz));
	if (h0 != h1) c.fail("triplet-modified", "compression modified the list of entries");
	std::string w = csr_complaint(C, CK_ALL);
	if (!w.empty()) c.fail("malformed", "%s", w.c_str());
	else if (C->n != T->n || C->m != T->m) c.fail("dimensions", "compressed matrix is %d x %d, list is %d x %d", C->n, C->m, T->n, T->m);
	else if ((C->x != NULL) != values) c.fail("values", "values %s", values ? "lost" : "appeared");
	else if (C->field->p != (noprime ? -1 : (i64)p)) c.fail("field", "field is %lld", (long long)C->field->p);
	else {
		Mat G(C->n, C->m, p);
		for (int i = 0; i < C->n; i++) for (i64 t = C->p[i]; t < C->p[i + 1]; t++) G.at(i, C->j[t]) = values ? (ru32)res(C->x[t], p) : 1;
		for (int i = 0; i < C->n && !c.nviol; i++) for (int j = 0; j < C->m; j++) if (G.at(i, j) != W.at(i, j)) { c.fail("wrong-sum", "entry (%d,%d) is %u, expected %u", i, j, G.at(i, j), W.at(i, j)); break; }
	}
	if (k > 1) c.nontrivial = true;
	count_event("entries", (ru64)k); count_event("matrices");
	c.mix(h0);
	spasm_csr_free(C); spasm_triplet_free(T);
}

// ---- C20 ---------------------------------------------------------------------------------------
static std::vector<int> rp(Rng &r, int n) { std::vector<int> v((size_t)n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }
// compare the content of a matrix (pattern if without values) to a dense one
static void same(Case &c, const char *what, const spasm_csr *C, const Mat &W, bool values)
{
	std::string w = csr_complaint(C, CK_ALL);
	if (!w.empty()) { c.fail(std::string(what) + "-malformed", "%s: %s", what, w.c_str()); return; }
	if (C->n != W.n || C->m != W.m) { c.fail(std::string(what) + "-dimensions", "%s is %d x %d, expected %d x %d", what, C->n, C->m, W.n, W.m); return; }
	if ((C->x != NULL) != values) { c.fail(std::string(what) + "-values", "%s %s values", what, values ? "lost its" : "has unexpected"); return; }
	if (C->field->p != (i64)W.p) { c.fail(std::string(what) + "-field", "%s has modulus %lld", what, (long long)C->field->p); return; }
	std::vector<ru32> row((size_t)W.m);
	for (int i = 0; i < W.n; i++) {
		std::fill(row.begin(), row.end(), 0);
		for (i64 t = C->p[i]; t < C->p[i + 1]; t++) row[C->j[t]] = values ? (ru32)res(C->x[t], W.p) : 1;
		for (int j = 0; j < W.m; j++) { ru32 e = values ? W.at(i, j) : (W.at(i, j) ? 1 : 0); if (row[j] != e) { c.fail(std::string(what) + "-wrong", "%s has %u at (%d,%d), expected %u", what, row[j], i, j, e); return; } }
	}
	count_event("matrices-compared");
}
PROP(C20)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	Mat A = gen_matrix(r, p, c.desc, r.coin(0.7) ? SZ_TINY : (SZ_TINY | SZ_SMALL));
	int n = A.n, m = A.m;
	CsrOpt co; co.values = !r.coin(0.2); co.slack = r.coin(0.4) ? r.range(1, 9) : 0;
	spasm_csr *M = make_csr(A, r, co);
	CsrGuard g = guard_csr(M);
	bool vals = co.values;
	int keep = r.coin(0.7);
	// transpose
	spasm_csr *T = spasm_transpose(M, keep);
	same(c, "transpose", T, ref_transpose(A), vals && keep);
	if (!c.nviol) { spasm_csr *TT = spasm_transpose(T, 1); same(c, "double-transpose", TT, A, vals && keep); spasm_csr_free(TT); }
	spasm_csr_free(T);
	// permutations
	auto P = rp(r, n), Q = rp(r, m);
	bool idp = r.coin(0.15), idq = r.coin(0.15);
	{
		keep = r.coin(0.7);
		spasm_csr *C = spasm_permute(M, idp ? NULL : P.data(), idq ? NULL : Q.data(), keep);
		Mat W(n, m, p);
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) W.at(i, idq ? j : Q[j]) = A.at(idp ? i : P[i], j);
		same(c, "permute", C, W, vals && keep);
		int *pi = spasm_pinv(idp ? NULL : P.data(), n), *qi = spasm_pinv(idq ? NULL : Q.data(), m);
		if (idp != (pi == NULL) || idq != (qi == NULL)) { if (idp ? pi != NULL : (n > 0 && !pi)) c.fail("pinv-null", "inverse of the identity"); }
		if (pi) for (int i = 0; i < n; i++) if (pi[P[i]] != i) { c.fail("pinv-wrong", "pinv[p[%d]] = %d", i, pi[P[i]]); break; }
		if (qi) for (int j = 0; j < m; j++) if (qi[Q[j]] != j) { c.fail("pinv-wrong", "pinv[p[%d]] = %d", j, qi[Q[j]]); break; }
		if (!c.nviol) { spasm_csr *D = spasm_permute(C, pi, qi, 1); same(c, "permute-back", D, A, vals && keep); spasm_csr_free(D); }
		free(pi); free(qi);
		spasm_csr_free(C);
	}
	// vectors
	{
		std::vector<spasm_ZZp> b((size_t)n + 1), x((size_t)n + 1, 77), y((size_t)n + 1, 77);
		for (auto &v : b) v = (spasm_ZZp)ref_balanced(r.below(p), p);
		auto b0 = b;
		const int *pp = idp ? NULL : P.data();
		spasm_pvec(pp, b.data(), x.data(), n);
		for (int i = 0; i < n; i++) if (x[i] != b[pp ? pp[i] : i]) { c.fail("pvec", "x[%d]", i); break; }
		spasm_ipvec(pp, b.data(), y.data(), n);
		for (int i = 0; i < n; i++) if (y[pp ? pp[i] : i] != b[i]) { c.fail("ipvec", "x[p[%d]]", i); break; }
		if (x[n] != 77 || y[n] != 77 || b != b0) c.fail("vector-overrun", "element n or the input was modified");
		int a = r.range(0, n), e = r.range(a, n);
		auto R = rp(r, e - a); auto R2 = R; R2.push_back(-5);
		std::vector<int> v((size_t)n); for (auto &t : v) t = (int)r.below(1000);
		auto v0 = v;
		spasm_range_pvec(v.data(), a, e, R2.data());
		for (int i = 0; i < n; i++) { int want = (i >= a && i < e) ? v0[a + R[i - a]] : v0[i]; if (v[i] != want) { c.fail("range-pvec", "x[%d] = %d, expected %d (range %d..%d)", i, v[i], want, a, e); break; } }
		if (R2.back() != -5) c.fail("range-pvec-overrun", "wrote beyond the permutation");
		// random permutations
		int k = r.range(0, 40);
		int *q = spasm_random_permutation(k);
		std::vector<char> seen((size_t)k, 0);
		for (int i = 0; i < k; i++) { if (q[i] < 0 || q[i] >= k || seen[q[i]]) { c.fail("random-permutation", "not a permutation of %d", k); break; } seen[q[i]] = 1; }
		free(q);
	}
	// extraction
	for (int t = 0; t < 3; t++) {
		int r0 = r.range(0, n), r1 = r.range(0, n), c0 = r.range(0, m), c1 = r.range(0, m);
		if (r0 > r1 && r.coin(0.9)) std::swap(r0, r1);
		if (c0 > c1 && r.coin(0.9)) std::swap(c0, c1);
		if (r.coin(0.1)) { r0 = 0; r1 = n; c0 = 0; c1 = m; }
		keep = r.coin(0.7);
		spasm_csr *S = spasm_submatrix(M, r0, r1, c0, c1, keep);
		Mat W(std::max(0, r1 - r0), std::max(0, c1 - c0), p);
		for (int i = 0; i < W.n; i++) for (int j = 0; j < W.m; j++) W.at(i, j) = A.at(r0 + i, c0 + j);
		int v = c.nviol;
		same(c, "submatrix", S, W, vals && keep);
		if (c.nviol > v) c.note(strf("[%d:%d, %d:%d]", r0, r1, c0, c1));
		spasm_csr_free(S);
	}
	if (!guard_ok(g)) c.fail("input-modified", "an operation modified its input matrix");
	// resizing (in place): grow rows and columns, shrink rows, shrink columns down to the last one in use
	{
		int used = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A.at(i, j)) used = std::max(used, j + 1);
		int n1 = r.coin(0.5) ? n + r.range(0, 9) : r.range(0, n), m1 = r.coin(0.5) ? m + r.range(0, 9) : r.range(used, m);
		if (n1 < n) { used = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A.at(i, j)) used = std::max(used, j + 1); }
		spasm_csr_resize(M, n1, m1);
		Mat W(n1, m1, p);
		for (int i = 0; i < std::min(n, n1); i++) for (int j = 0; j < std::min(m, m1); j++) W.at(i, j) = A.at(i, j);
		int v = c.nviol;
		same(c, "resize", M, W, vals);
		if (c.nviol > v) c.note(strf("resize %dx%d -> %dx%d", n, m, n1, m1));
		if (!c.nviol) {
			i64 nz = spasm_nnz(M), cap = r.coin() ? -1 : nz + r.range(0, 20);
			spasm_csr_realloc(M, cap);
			if (M->nzmax != (cap < 0 ? nz : cap)) c.fail("realloc-capacity", "capacity %lld after asking for %lld", (long long)M->nzmax, (long long)cap);
			same(c, "realloc", M, W, vals);
			// the extra room is writable
			for (i64 t = nz; t < M->nzmax; t++) { M->j[t] = 3; if (M->x) M->x[t] = 3; }
		}
	}
	spasm_csr_free(M);
	if (n * m > 1) c.nontrivial = true;
	c.mix(hash_mat(A));
}

// ---- C21 ---------------------------------------------------------------------------------------
static std::string hex(const u8 *d) { std::string s; for (int i = 0; i < 32; i++) s += strf("%02x", d[i]); return s; }
PROP(C21)
{
	Rng &r = c.rng;
	if (c.mode == 1) {     // beyond 2^29 bytes: the bit count no longer fits in 32 bits
		size_t total = ((size_t)1 << 29) + (c.idx % 3) * 64 + r.below(200) - (c.idx % 2 ? 300 : 0);
		if (c.idx % 4 == 3) total += (size_t)1 << 29;
		std::vector<u8> buf(total < ((size_t)1 << 20) || c.idx % 2 == 0 ? total : ((size_t)1 << 23) + 7);
		for (size_t k = 0; k + 8 <= buf.size(); k += 8) { ru64 v = r.next(); memcpy(&buf[k], &v, 8); }
		RefSha R; spasm_sha256_ctx S; spasm_SHA256_init(&S);
		for (size_t o = 0; o < total;) {
			size_t k = std::min(total - o, buf.size());
			spasm_SHA256_update(&S, buf.data(), k); R.update(buf.data(), k); o += k;
		}
		u8 a[32], b[32]; spasm_SHA256_final(a, &S); R.final(b);
		c.note(strf("%zu bytes in pieces of at most %zu", total, buf.size()));
		if (memcmp(a, b, 32)) c.fail("sha-large", "digest of %zu bytes is %s, expected %s", total, hex(a).c_str(), hex(b).c_str());
		count_event("bytes-hashed", total); c.mix(total); c.nontrivial = true;
		return;
	}
	// digests
	for (int t = 0; t < 20; t++) {
		size_t len = t < 3 ? (size_t)((c.idx * 3 + t) % 400) : r.coin(0.1) ? r.below(70000) : r.below(300);
		std::vector<u8> m(len + 1); for (auto &v : m) v = (u8)r.next();
		if (r.coin(0.1)) std::fill(m.begin(), m.end(), r.coin() ? 0 : 0xff);
		auto m0 = m;
		u8 a[34], b[32]; a[32] = 0x5a; a[33] = 0xa5;
		spasm_sha256_ctx S;
		memset(&S, (int)r.below(256), sizeof S);      // init must not rely on the previous content
		spasm_SHA256_init(&S);
		size_t o = 0; int pieces = 0;
		int style = (int)r.below(5);
		while (o < len) {
			size_t k = style == 0 ? len : style == 1 ? 1 : style == 2 ? r.below(130) : style == 3 ? 64 - r.below(3) : r.below(len + 1);
			k = std::min(k, len - o);
			spasm_SHA256_update(&S, m.data() + o, k); o += k; pieces++;
			if (k == 0 && pieces > 500) { style = 0; }
		}
		if (r.coin(0.1)) spasm_SHA256_update(&S, m.data(), 0);
		spasm_SHA256_final(a, &S);
		RefSha::digest(m0.data(), len, b);
		if (memcmp(a, b, 32)) { c.fail("sha-wrong", "digest of %zu bytes in %d pieces is %s, expected %s", len, pieces, hex(a).c_str(), hex(b).c_str()); break; }
		if (a[32] != 0x5a || a[33] != 0xa5 || m != m0) c.fail("sha-overrun", "wrote outside of the digest");
		count_event("digests"); distinct("message-length", len);
	}
	// generator
	for (int t = 0; t < 4; t++) {
		ru64 p = pick_prime(r); ru32 seq = r.coin(0.3) ? (ru32)r.below(4) : (ru32)r.next();
		u8 seed[32]; for (auto &v : seed) v = (u8)r.next();
		if (r.coin(0.1)) memset(seed, 0, 32);
		spasm_prng_ctx C, C2; memset(&C, 0xee, sizeof C); memset(&C2, 0x11, sizeof C2);
		spasm_prng_seed(seed, (i64)p, seq, &C);
		spasm_prng_seed(seed, (i64)p, seq, &C2);
		RefPrng R(seed, p, seq);
		int N = r.coin(0.05) ? 5000 : r.range(1, 120); bool mixed = r.coin(0.3);
		for (int k = 0; k < N; k++) {
			if (mixed && r.coin()) { ru32 a = spasm_prng_u32(&C), b = R.u32(), d = spasm_prng_u32(&C2); if (a != b || a != d) { c.fail("prng-u32", "draw %d is %u, expected %u", k, a, b); break; } continue; }
			spasm_ZZp a = spasm_prng_ZZp(&C), d = spasm_prng_ZZp(&C2); ri64 b = ref_balanced(R.zzp(), p);
			if (!canonical(a, p)) { c.fail("prng-not-canonical", "draw %d is %d modulo %llu", k, a, (unsigned long long)p); break; }
			if (a != d) { c.fail("prng-not-deterministic", "two generators with the same seed differ at draw %d", k); break; }
			if (a != b) { c.fail("prng-zzp", "draw %d modulo %llu seq %u is %d, expected %lld", k, (unsigned long long)p, seq, a, (long long)b); break; }
			count_event("draws");
		}
		// distinct (seed, modulus, sequence) give distinct streams: compare 8 raw words
		auto first = [&](spasm_prng_ctx *X) { std::vector<ru32> v; for (int k = 0; k < 8; k++) v.push_back(spasm_prng_u32(X)); return v; };
		ru64 s1 = r.next(), s2 = s1 ^ (1ULL << r.below(64)); ru32 q2 = seq ^ (1u << r.below(32)); ru64 p2 = pick_prime(r);
		spasm_prng_ctx X;
		spasm_prng_seed_simple((i64)p, s1, seq, &X); auto base = first(&X);
		spasm_prng_seed_simple((i64)p, s1, seq, &X); if (first(&X) != base) c.fail("prng-simple-not-deterministic", "same seed, different streams");
		spasm_prng_seed_simple((i64)p, s2, seq, &X); if (first(&X) == base) c.fail("prng-seed-ignored", "seeds %llx and %llx give the same stream", (unsigned long long)s1, (unsigned long long)s2);
		spasm_prng_seed_simple((i64)p, s1, q2, &X); if (first(&X) == base) c.fail("prng-seq-ignored", "sequences %u and %u give the same stream", seq, q2);
		if (p2 != p) { spasm_prng_seed_simple((i64)p2, s1, seq, &X); if (first(&X) == base) c.fail("prng-modulus-ignored", "moduli %llu and %llu give the same stream", (unsigned long long)p, (unsigned long long)p2); }
		seed[r.below(32)] ^= (u8)(1 << r.below(8));
		spasm_prng_seed(seed, (i64)p, seq, &C); RefPrng R2(seed, p, seq);
		if (spasm_prng_u32(&C) != R2.u32()) c.fail("prng-u32", "first draw after changing one bit of the seed");
		spasm_prng_seed_simple((i64)p, s1, seq, &X);
		for (int k = 0; k < 40; k++) { spasm_ZZp a = spasm_prng_ZZp(&X); if (!canonical(a, p)) c.fail("prng-not-canonical", "draw %d is %d modulo %llu", k, a, (unsigned long long)p); }
		count_event("streams-compared", 4);
	}
	c.nontrivial = true;
}

// ---- files -------------------------------------------------------------------------------------
static std::vector<Ent> trip_entries(const struct spasm_triplet *T) { std::vector<Ent> v; for (i64 k = 0; k < T->nz; k++) v.push_back({T->i[k], T->j[k], T->x ? T->x[k] : 1}); return v; }
// compare a loaded triplet with the description of a file
static void check_loaded(Case &c, const struct spasm_triplet *T, const FileMat &F, ri64 prime)
{
	bool values = prime != -1;
	if ((T->x != NULL) != values) { c.fail("values", "values %s", values ? "missing" : "unexpected"); return; }
	if (T->field->p != prime) { c.fail("field", "loaded with modulus %lld instead of %lld", (long long)T->field->p, (long long)prime); return; }
	if (T->nz < 0 || T->nz > T->nzmax) { c.fail("nz", "nz = %lld, nzmax = %lld", (long long)T->nz, (long long)T->nzmax); return; }
	std::map<std::pair<int, int>, ru64> W, G;
	ru64 p = values ? (ru64)prime : 3;
	int mi = 0, mj = 0, mi0 = 0, mj0 = 0;
	for (auto &e : F.ents) {
		ru64 v = values ? ref_mod(e.x, p) : 1;
		mi = std::max<ri64>(mi, e.i); mj = std::max<ri64>(mj, e.j);
		if (!v) continue;
		mi0 = std::max<ri64>(mi0, e.i); mj0 = std::max<ri64>(mj0, e.j);
		ru64 &w = W[{(int)e.i - 1, (int)e.j - 1}]; w = values ? (w + v) % p : 1;
	}
	for (i64 k = 0; k < T->nz; k++) {
		if (T->i[k] < 0 || T->i[k] >= T->n || T->j[k] < 0 || T->j[k] >= T->m) { c.fail("index", "entry %lld at (%d,%d) outside of %d x %d", (long long)k, T->i[k], T->j[k], T->n, T->m); return; }
		if (values && !canonical(T->x[k], p)) { c.fail("not-canonical", "entry %lld is %d modulo %lld", (long long)k, T->x[k], (long long)prime); return; }
		ru64 &w = G[{T->i[k], T->j[k]}]; w = values ? (w + res(T->x[k], p)) % p : 1;
	}
	if (T->n < std::max<ri64>(F.n, mi0) || T->m < std::max<ri64>(F.m, mj0) || T->n > std::max<ri64>(F.n, mi) || T->m > std::max<ri64>(F.m, mj)) { c.fail("dimensions", "loaded %d x %d, file declares %lld x %lld", T->n, T->m, (long long)F.n, (long long)F.m); return; }
	for (auto &e : W) { auto it = G.find(e.first); ru64 g = it == G.end() ? 0 : it->second; if (g != e.second) { c.fail("wrong-entry", "entry (%d,%d) is %llu, expected %llu", e.first.first + 1, e.first.second + 1, (unsigned long long)g, (unsigned long long)e.second); return; } }
	for (auto &e : G) if (e.second && !W.count(e.first)) { c.fail("extra-entry", "entry (%d,%d) is not in the file", e.first.first + 1, e.first.second + 1); return; }
	count_event("entries-compared", W.size());
}

PROP(C16)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	if (c.mode == 1) {            // bigger files: digest across many blocks and buffers
		FileMat F; F.n = r.range(1, 5000); F.m = r.range(1, 5000); F.mm = r.coin();
		int k = r.range(3000, 60000);
		std::string s;
		for (int t = 0; t < k; t++) F.ents.push_back({1 + (ri64)r.below(F.n), 1 + (ri64)r.below(F.m), (ri64)(r.next() >> r.range(1, 63))});
		s = F.mm ? strf("%%%%MatrixMarket matrix coordinate integer general\n%lld %lld %d\n", (long long)F.n, (long long)F.m, k) : strf("%lld %lld M\n", (long long)F.n, (long long)F.m);
		for (auto &e : F.ents) s += strf("%lld %lld %lld\n", (long long)e.i, (long long)e.j, (long long)e.x);
		if (!F.mm) s += "0 0 0\n";
		FILE *f = open_text_kind(s, 0);
		u8 h[32], w[32];
		struct spasm_triplet *T = spasm_triplet_load(f, (i64)p, h); fclose(f);
		check_loaded(c, T, F, (ri64)p);
		RefSha::digest((const u8 *)s.data(), s.size(), w);
		if (memcmp(h, w, 32)) c.fail("digest", "digest of %zu bytes is %s, expected %s", s.size(), hex(h).c_str(), hex(w).c_str());
		spasm_triplet_free(T); count_event("bytes-loaded", s.size()); count_event("files"); c.nontrivial = true; c.mix(s.size());
		return;
	}
	for (int t = 0; t < (c.slow ? 2 : 6) && !c.nviol; t++) {
		FileMat F;
		c.desc.clear();
		std::string s = gen_file(r, p, F, c.desc, r.coin(0.2) ? 400 : 9, true);
		// our own parser must agree that this is a valid file
		FileMat R = ref_parse(s, true);
		if (R.verdict != FileMat::VALID) { fprintf(stderr, "generator and parser disagree: %s\n%s\n", R.why.c_str(), s.c_str()); _exit(99); }
		bool pattern = r.coin(0.15); ri64 prime = pattern ? -1 : (ri64)p;
		u8 h[34], w[32]; memset(h, 0x77, sizeof h);
		bool want_hash = r.coin(0.8);
		FILE *f = open_text(s, r);
		struct spasm_triplet *T = spasm_triplet_load(f, prime, want_hash ? h : NULL);
		fclose(f);
		if (!T) { c.fail("null", "NULL returned for a valid file"); return; }
		check_loaded(c, T, F, prime);
		RefSha::digest((const u8 *)s.data(), s.size(), w);
		if (want_hash && memcmp(h, w, 32)) c.fail("digest", "digest of %zu bytes is %s, expected %s", s.size(), hex(h).c_str(), hex(w).c_str());
		if (h[32] != 0x77 || h[33] != 0x77) c.fail("digest-overrun", "wrote past the digest");
		if (c.nviol) c.note("file: " + s.substr(0, 700));
		spasm_triplet_free(T);
		count_event("files"); distinct("file-size", s.size());
		c.mix(hash_bytes(s.data(), s.size()));
		if (F.ents.size() > 0) c.nontrivial = true;
	}
}

// malformed files, by construction or by mutation
static std::string mutate(Rng &r, std::string s, std::string &what)
{
	auto line_at = [&](size_t pos) { size_t b = s.rfind('\n', pos ? pos - 1 : 0); b = b == std::string::npos ? 0 : b + 1; if (pos < s.size() && s[pos] == '\n' && b > pos) b = pos; size_t e = s.find('\n', pos); if (e == std::string::npos) e = s.size(); if (b > e) b = e; return std::make_pair(b, e); };
	static const char *tok[] = {"0", "-1", "-5", "x", "1.5", "99999999999999999999", "2147483648", "4294967297", "9223372036854775808", "", "nan", "1e3", "0x10", "-9223372036854775809", "+", "-", "1 1", "%", "2147483647", "-2147483649", "18446744073709551617", "1000000000000", "1000000000000000", "700000000000000000"};
	int kind = (int)r.below(14);
	auto tokens = [&](std::vector<std::pair<size_t, size_t>> &v) { for (size_t k = 0; k < s.size();) { while (k < s.size() && isspace((unsigned char)s[k])) k++; size_t b = k; while (k < s.size() && !isspace((unsigned char)s[k])) k++; if (k > b) v.push_back({b, k}); } };
	switch (kind) {
	case 0: what = "truncated"; s.resize(r.below(s.size() + 1)); break;
	case 1: what = "bit-flip"; if (!s.empty()) s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
	case 2: what = "byte-inserted"; s.insert(r.below(s.size() + 1), 1, (char)r.below(256)); break;
	case 3: what = "byte-removed"; if (!s.empty()) s.erase(r.below(s.size()), 1); break;
	case 4: case 5: case 6: case 7: { std::vector<std::pair<size_t, size_t>> v; tokens(v); if (v.empty()) break; auto t = v[kind == 7 ? r.below(std::min<size_t>(v.size(), 8)) : r.below(v.size())]; std::string n = tok[r.below(sizeof tok / sizeof *tok)]; what = "token-replaced by '" + n + "'"; s.replace(t.first, t.second - t.first, n); break; }
	case 8: { what = "line-removed"; if (s.empty()) break; auto l = line_at(r.below(s.size())); s.erase(l.first, std::min(l.second + 1, s.size()) - l.first); break; }
	case 9: { what = "line-too-long"; s.insert(r.below(s.size() + 1), std::string(500 + r.below(1500), r.coin() ? ' ' : 'z')); break; }
	case 10: { what = "lines-joined"; size_t k = s.find('\n', r.below(s.size() + 1)); if (k != std::string::npos) s[k] = ' '; break; }
	case 11: case 12: {   // another declared size
		std::vector<std::pair<size_t, size_t>> v; tokens(v);
		size_t k = s[0] == '%' ? 5 + r.below(3) : r.below(2);
		if (k >= v.size()) break;
		static const char *size[] = {"0", "1", "2", "-1", "2147483647", "2147483648", "4294967296", "1000000000", "1000000000000", "1000000000000000", "700000000000000000", "1152921504606846975", "1152921504606846976", "9223372036854775807"};
		std::string n = size[r.below(sizeof size / sizeof *size)]; what = "declared size " + n; s.replace(v[k].first, v[k].second - v[k].first, n); break; }
	default: { what = "random-bytes"; s.resize(r.below(300)); for (auto &ch : s) ch = r.coin(0.7) ? "0123456789 \nM%-"[r.below(15)] : (char)r.next(); break; }
	}
	return s;
}
static const char *kinds_mm[] = {"array integer general", "coordinate real general", "coordinate complex general", "coordinate pattern general", "coordinate integer symmetric", "coordinate integer skew-symmetric", "coordinate integer hermitian", "coordinate integer", "coordinate", ""};

PROP(C17)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	int per = c.slow ? 3 : 8;
	for (int t = 0; t < per && !c.nviol; t++) {
		FileMat F0; c.desc.clear();
		std::string s = gen_file(r, p, F0, c.desc, r.coin(0.1) ? 100 : 6, r.coin());
		std::string what;
		if (r.coin(0.1)) { what = "unsupported MatrixMarket kind"; s = std::string("%%MatrixMarket ") + (r.coin(0.2) ? "vector " : "matrix ") + kinds_mm[r.below(10)] + "\n" + "2 2 1\n1 1 1\n"; if (r.coin(0.2)) s = "%%MatrixMarket vector coordinate integer general\n2 2 1\n1 1 1\n"; }
		else if (r.coin(0.05)) { what = "header only"; s = s.substr(0, s.find('\n') + 1); }
		else { s = mutate(r, s, what); if (r.coin(0.2)) s = mutate(r, s, what); }
		bool pattern = r.coin(0.15);
		FileMat R = ref_parse(s, !pattern);
		ri64 prime = pattern ? -1 : (ri64)p;
		c.note(what + "; judged " + (R.verdict == FileMat::VALID ? "valid" : R.verdict == FileMat::INVALID ? "invalid: " + R.why : "unspecified: " + R.why));
		struct Out { int done, n, m; ri64 nz; u8 h[32]; int ok; };
		Out *o = (Out *)shared_alloc(sizeof(Out));
		size_t msg0 = 0;
		int skind = (s.size() < 60000 && r.coin(0.3)) ? 1 : 0;
		Child ch = run_child([&]() {
			FILE *f = open_text_kind(s, skind);
			// memory for huge declared sizes is not the subject here: cap it so that they end in a clean failure
			struct spasm_triplet *T = spasm_triplet_load(f, prime, o->h);
			o->n = T->n; o->m = T->m; o->nz = T->nz; o->done = 1;
			Case cc; cc.prop = c.prop; cc.idx = c.idx; cc.desc = c.desc + "; file: " + s.substr(0, 500);
			if (R.verdict == FileMat::VALID) check_loaded(cc, T, R, prime);
			else {
				// whatever was accepted must at least be a well-formed matrix
				for (i64 k = 0; k < T->nz; k++) if (T->i[k] < 0 || T->i[k] >= T->n || T->j[k] < 0 || T->j[k] >= T->m) { cc.fail("accepted-bad-index", "entry (%d,%d) in a %d x %d matrix", T->i[k], T->j[k], T->n, T->m); break; }
			}
			o->ok = cc.nviol == 0 ? 1 : 2;
			spasm_triplet_free(T);
			return 0;
		}, 60);
		(void)msg0;
		count_event("files");
		std::string shown = s.substr(0, 600);
		if (ch.hung) { c.note("file: " + shown); c.fail("hang", "loading does not end (%s)", what.c_str()); }
		else if (ch.sanitizer) { c.note("file: " + shown); c.fail("memory-error", "%s: %s", what.c_str(), ch.err.substr(0, 1500).c_str()); }
		else if (ch.signaled) { c.note("file: " + shown); c.fail(strf("signal-%d", ch.sig), "%s: killed by signal %d: %s", what.c_str(), ch.sig, ch.err.substr(0, 500).c_str()); }
		else if (o->done) {
			if (o->ok == 2) c.nviol++;
			if (R.verdict == FileMat::INVALID) { c.note("file: " + shown); c.fail("accepted-invalid", "file that is invalid (%s; %s) was accepted as %d x %d with %lld entries", R.why.c_str(), what.c_str(), o->n, o->m, (long long)o->nz); }
			count_event(R.verdict == FileMat::VALID ? "mutants-still-valid-accepted" : "mutants-unspecified-accepted");
		} else {
			if (ch.code == 0) { c.note("file: " + shown); c.fail("exit-0", "stopped with exit status 0 without returning a matrix"); }
			if (R.verdict == FileMat::VALID) { c.note("file: " + shown); c.fail("refused-valid", "valid file refused (%s): %s", what.c_str(), ch.err.substr(0, 300).c_str()); }
			if (ch.err.empty()) { c.note("file: " + shown); c.fail("no-message", "refused without an error message"); }
			count_event(R.verdict == FileMat::INVALID ? "mutants-refused" : "mutants-unspecified-refused");
		}
		distinct("verdict", hash_bytes(R.why.data(), R.why.size()));
		if (R.verdict == FileMat::INVALID) c.nontrivial = true;
		c.mix(hash_bytes(s.data(), s.size()));
	}
}

PROP(C18)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	Mat A = gen_matrix(r, p, c.desc, r.coin(0.6) ? SZ_TINY : SZ_ALL);
	int n = A.n, m = A.m;
	CsrOpt co; co.values = !r.coin(0.2); co.slack = r.coin(0.4) ? r.range(1, 9) : 0;
	bool values = co.values;
	Mat W = A; if (!values) for (auto &v : W.a) v = v ? 1 : 0;
	bool trip = r.coin(0.4);
	char *buf = NULL; size_t len = 0;
	FILE *f = r.coin(0.5) ? open_memstream(&buf, &len) : tmpfile();
	if (!f) { perror("tmpfile"); _exit(99); }
	bool mem = true;
	if (trip) {
		struct spasm_triplet *T = spasm_triplet_alloc(n, m, r.range(0, 5), (i64)p, values);
		std::vector<std::pair<int, int>> cells;
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A.at(i, j)) cells.push_back({i, j});
		for (size_t k = cells.size(); k > 1; k--) std::swap(cells[k - 1], cells[r.below(k)]);
		for (auto &e : cells) spasm_add_entry(T, e.first, e.second, ref_balanced(A.at(e.first, e.second), p));
		ru64 h = hash_bytes(T->i, 4 * T->nz) ^ hash_bytes(T->j, 4 * T->nz);
		spasm_triplet_save(T, f);
		if ((hash_bytes(T->i, 4 * T->nz) ^ hash_bytes(T->j, 4 * T->nz)) != h || T->n != n || T->m != m) c.fail("input-modified", "saving modified the matrix");
		spasm_triplet_free(T);
	} else {
		spasm_csr *M = make_csr(A, r, co); CsrGuard g = guard_csr(M);
		spasm_csr_save(M, f);
		if (!guard_ok(g)) c.fail("input-modified", "saving modified the matrix");
		spasm_csr_free(M);
	}
	std::string s;
	if (buf || len) { fclose(f); s.assign(buf, len); free(buf); }
	else { s = slurp(f); fclose(f); if (buf) { s.assign(buf, len); free(buf); } }
	(void)mem;
	c.note(strf("%s values=%d, %zu bytes", trip ? "triplet" : "csr", values, s.size()));
	FileMat R = ref_parse(s, true);
	if (R.verdict != FileMat::VALID) { c.fail("file-invalid", "saved file is not a valid SMS file: %s", R.why.c_str()); return; }
	FILE *in = open_text(s, r);
	struct spasm_triplet *T = spasm_triplet_load(in, (i64)p, NULL);
	fclose(in);
	spasm_csr *C = spasm_compress(T);
	std::string w = csr_complaint(C, CK_ALL);
	if (!w.empty()) c.fail("malformed", "%s", w.c_str());
	else if (C->n != n || C->m != m) c.fail("dimensions", "loaded %d x %d, saved %d x %d", C->n, C->m, n, m);
	else if (!(to_mat(C) == W)) c.fail("content", "loaded matrix differs from the saved one");
	// the number of entries in the file: one line per entry
	size_t nz = 0; for (ru32 v : W.a) nz += v != 0;
	if (R.ents.size() != nz) c.fail("entry-count", "%zu entries in the file, %zu in the matrix", R.ents.size(), nz);
	spasm_csr_free(C); spasm_triplet_free(T);
	count_event("round-trips"); count_event("entries-compared", nz);
	if (nz) c.nontrivial = true;
	c.mix(hash_mat(A));
}

// ---- C33 ---------------------------------------------------------------------------------------
PROP(C33)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	spasm_csr *M; int n, m, big = c.mode == 1;
	std::vector<std::pair<int, int>> E;           // the entries
	if (big) {                                    // long matrices: the products of an index and an image size exceed 32 bits
		auto len = [&]() { return r.coin(0.3) ? r.range(1, 3) : (int)(1 << r.range(8, 20)) + r.range(0, 1 << 20); };
		n = len(), m = len();
		std::set<std::pair<int, int>> S;
		for (int k = r.range(0, 3000); k > 0; k--)
			S.insert({r.coin(0.1) ? n - 1 : r.range(0, n - 1), r.coin(0.1) ? m - 1 : r.range(0, m - 1)});
		E.assign(S.begin(), S.end());
		struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, (i64)p, true);
		for (auto &e : E) spasm_add_entry(T, e.first, e.second, 1 + (i64)r.below(p - 1));
		M = spasm_compress(T);
		spasm_triplet_free(T);
		c.desc = strf("%d x %d, %zu entries", n, m, E.size());
	} else {
		Mat A = gen_matrix(r, p, c.desc, r.coin(0.6) ? (SZ_TINY | SZ_SMALL) : SZ_ALL);
		n = A.n, m = A.m;
		CsrOpt co; co.values = r.coin();
		M = make_csr(A, r, co);
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A.at(i, j)) E.push_back({i, j});
	}
	if (c.mode == 2) {                            // more than 2^31 pixels: there is not enough memory, and that must be said
		int side = r.coin() ? 65536 : r.range(46400, 70000);
		struct spasm_triplet *T = spasm_triplet_alloc(side, side, 1, (i64)p, true);
		spasm_add_entry(T, side - 1, side - 1, 1);
		for (int k = 0; k < 50; k++) spasm_add_entry(T, r.range(0, side - 1), r.range(0, side - 1), 1);
		struct spasm_csr *L = spasm_compress(T);
		spasm_triplet_free(T);
		int im = r.range(1, 2);
		c.desc = strf("%d x %d, image of the same size, mode %d, 4 GB of memory", side, side, im);
		Child ch = run_child([&]() {
			struct rlimit l = {4ull << 30, 4ull << 30}; setrlimit(RLIMIT_AS, &l);
			FILE *f = fopen("/dev/null", "w");
			spasm_save_pnm(L, f, side, side, im, NULL);
			return 0;
		}, 100);
		if (ch.hung || ch.signaled || ch.sanitizer || ch.code == 0 || ch.err.empty()) c.fail("huge-image", "%s: %s", ch.summary().c_str(), ch.err.substr(0, 1500).c_str());
		spasm_csr_free(L);
		c.nontrivial = true; c.mix(side);
		return;
	}
	int mode = r.range(1, 3);
	int x = r.coin(0.2) ? m : r.coin(0.2) ? m + r.range(0, 20) : r.range(0, m + 1), y = r.coin(0.2) ? n : r.coin(0.2) ? n + r.range(0, 20) : r.range(0, n + 1);
	if (big) {                                    // at most about a million pixels
		bool wide = r.coin();
		x = r.coin(0.5) ? m : r.range(1, m); y = r.coin(0.5) ? n : r.range(1, n);
		if (wide) y = std::min<ri64>(y, std::max(1, 1000000 / std::min(x, 1000000))); else x = std::min<ri64>(x, std::max(1, 1000000 / std::min(y, 1000000)));
		x = std::min(x, std::max(1, 2000000 / y)); y = std::min(y, std::max(1, 2000000 / x));
	}
	struct spasm_dm *DM = NULL;
	spasm_csr *B = M;
	if (mode == 3) {
		DM = spasm_dulmage_mendelsohn(M);
		int *qinv = spasm_pinv(DM->q, m);
		B = spasm_permute(M, DM->p, qinv, 1);
		std::vector<int> ip(n);
		for (int i = 0; i < n; i++) ip[DM->p[i]] = i;
		for (auto &e : E) e = {ip[e.first], qinv[e.second]};
		free(qinv);
	} else if (r.coin(0.1) && mode != 3) DM = NULL;
	c.note(strf("image %dx%d mode %d", x, y, mode));
	CsrGuard g = guard_csr(B);
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	spasm_save_pnm(B, f, x, y, mode, DM);
	fclose(f);
	if (!guard_ok(g)) c.fail("input-modified", "drawing modified the matrix");
	std::string s(buf, len); free(buf);
	int X = std::min(x, m), Y = std::min(y, n);
	// parse
	size_t k = 0;
	auto tok = [&](std::string &o) { while (k < s.size() && isspace((unsigned char)s[k])) k++; size_t b = k; while (k < s.size() && !isspace((unsigned char)s[k])) k++; o = s.substr(b, k - b); return !o.empty(); };
	std::string t; bool ok = true;
	auto integer = [&](long &v) { if (!tok(t)) return false; char *e; v = strtol(t.c_str(), &e, 10); return *e == 0; };
	long W, H, mx = 1;
	if (!tok(t) || t != strf("P%d", mode)) { c.fail("magic", "image starts with '%s'", t.c_str()); ok = false; }
	if (ok && (!integer(W) || !integer(H) || W != X || H != Y)) { c.fail("announced-size", "announces %ld x %ld, expected %d x %d", W, H, X, Y); ok = false; }
	if (ok && mode > 1 && (!integer(mx) || mx != 255)) { c.fail("maxval", "maximum value is %ld", mx); ok = false; }
	if (ok) {
		std::vector<ri64> w((size_t)X * Y, 0);
		if (X && Y) for (auto &e : E) w[(size_t)((ri64)e.first * Y / n) * X + (size_t)((ri64)e.second * X / m)]++;
		int comp = mode == 3 ? 3 : 1;
		std::vector<long> v((size_t)X * Y * comp);
		for (size_t q = 0; q < v.size() && ok; q++) {
			if (!integer(v[q])) { c.fail("short", "%zu values instead of %zu", q, v.size()); ok = false; break; }
			if (v[q] < 0 || v[q] > (mode == 1 ? 1 : 255)) { c.fail("range", "value %ld", v[q]); ok = false; }
		}
		if (ok && tok(t)) { c.fail("long", "more values than announced"); ok = false; }
		for (size_t q = 0; q < w.size() && ok; q++) {
			if (mode == 1 && v[q] != (w[q] > 0)) { c.fail("bw-pixel", "pixel %zu is %ld, the block has %lld entries", q, v[q], (long long)w[q]); ok = false; }
			if (mode == 2 && w[q] == 0 && v[q] != 255) { c.fail("gray-empty", "empty block %zu is drawn %ld", q, v[q]); ok = false; }
			if (mode == 3 && w[q] == 0 && !v[3 * q] && !v[3 * q + 1] && !v[3 * q + 2]) { c.fail("color-empty", "empty block %zu is black", q); ok = false; }
			if (mode == 3 && w[q] > 0 && (v[3 * q] || v[3 * q + 1] || v[3 * q + 2])) { c.fail("color-nonempty", "non-empty block %zu is not black", q); ok = false; }
		}
		if (mode == 3 && ok && X && Y) {          // empty blocks: one colour per pair of parts (three shades inside the square part)
			std::map<int, std::set<long>> col;
			for (int i = 0; i < Y; i++) for (int j = 0; j < X; j++) {
				size_t q = (size_t)i * X + j;
				if (w[q]) continue;
				int bv = i < (ri64)DM->rr[1] * Y / n ? 0 : i < (ri64)DM->rr[2] * Y / n ? 1 : 2;
				int bh = j < (ri64)DM->cc[2] * X / m ? 0 : j < (ri64)DM->cc[3] * X / m ? 1 : 2;
				col[3 * bv + bh].insert(v[3 * q] << 16 | v[3 * q + 1] << 8 | v[3 * q + 2]);
			}
			for (auto &e : col) if (e.second.size() > (e.first == 4 ? 3u : 1u)) { c.fail("color-parts", "%zu background colours in the pair of parts (%d,%d)", e.second.size(), e.first / 3, e.first % 3); break; }
		}
		if (mode == 2 && ok) {
			std::map<ri64, std::pair<long, long>> lv;   // count -> min,max gray
			for (size_t q = 0; q < w.size(); q++) { auto it = lv.find(w[q]); if (it == lv.end()) lv[w[q]] = {v[q], v[q]}; else { it->second.first = std::min(it->second.first, v[q]); it->second.second = std::max(it->second.second, v[q]); } }
			long prev = 256;
			for (auto &e : lv) { if (e.second.second > prev) { c.fail("gray-order", "a block with %lld entries is lighter than one with fewer", (long long)e.first); break; } prev = e.second.first; }
		}
		count_event("pixels", w.size());
		if (w.size() > 1) c.nontrivial = true;
	}
	count_event("images"); c.mix(hash_bytes(s.data(), s.size()));
	if (B != M) spasm_csr_free(B);
	if (DM) spasm_dm_free(DM);
	spasm_csr_free(M);
}
