// Independent reference model: exact dense linear algebra modulo p, graph algorithms, SHA-256.
// Shares no code with the library under test; everything is done on residues in [0, p) with
// 64/128-bit integer arithmetic.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <algorithm>
#include <utility>
#include <cstring>

typedef uint64_t ru64;
typedef int64_t ri64;
typedef uint32_t ru32;

struct Rng {
	ru64 s;
	explicit Rng(ru64 seed = 1) : s(seed) {}
	ru64 next() {
		ru64 z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	ru64 below(ru64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((ru64)(b - a + 1)); }   // inclusive
	bool coin(double p = 0.5) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

static inline ru64 mix64(ru64 a, ru64 b)
{
	Rng r(a * 0x2545F4914F6CDD1DULL + b + 0x1234567);
	r.next();
	return r.next();
}

static inline ru64 ref_mod(ri64 x, ru64 p) { ri64 r = (ri64)((__int128)x % (__int128)p); return r < 0 ? (ru64)(r + (ri64)p) : (ru64)r; }
static inline ru64 ref_mul(ru64 a, ru64 b, ru64 p) { return (a * b) % p; }     // a,b < p < 2^32
static inline ru64 ref_pow(ru64 a, ru64 e, ru64 p) { ru64 r = 1 % p; a %= p; while (e) { if (e & 1) r = ref_mul(r, a, p); a = ref_mul(a, a, p); e >>= 1; } return r; }
static inline ru64 ref_inv(ru64 a, ru64 p) { return ref_pow(a, p - 2, p); }
// canonical balanced representative, in [-(p-1)/2, (p-1)/2] for odd p
static inline ri64 ref_balanced(ru64 a, ru64 p) { return a > (p - 1) / 2 ? (ri64)a - (ri64)p : (ri64)a; }

struct Mat {
	int n = 0, m = 0;
	ru64 p = 3;
	std::vector<ru32> a;
	Mat() {}
	Mat(int n_, int m_, ru64 p_) : n(n_), m(m_), p(p_), a((size_t)n_ * m_, 0) {}
	ru32 *row(int i) { return a.data() + (size_t)i * m; }
	const ru32 *row(int i) const { return a.data() + (size_t)i * m; }
	ru32 &at(int i, int j) { return a[(size_t)i * m + j]; }
	ru32 at(int i, int j) const { return a[(size_t)i * m + j]; }
	bool operator==(const Mat &o) const { return n == o.n && m == o.m && p == o.p && a == o.a; }
};

// y -= f * x on [from, m)
static inline void ref_rowsub(ru32 *y, const ru32 *x, ru64 f, ru64 p, int from, int m)
{
	if (f == 0) return;
	ru64 g = p - f;
	for (int j = from; j < m; j++)
		if (x[j]) y[j] = (ru32)((y[j] + g * x[j]) % p);
}

// in-place reduced row echelon form (leftmost pivots); returns rank, pivot columns in piv
static inline int ref_rref(Mat &M, std::vector<int> *piv = nullptr, bool reduced = true)
{
	int r = 0;
	if (piv) piv->clear();
	for (int j = 0; j < M.m && r < M.n; j++) {
		int k = -1;
		for (int i = r; i < M.n; i++) if (M.at(i, j)) { k = i; break; }
		if (k < 0) continue;
		if (k != r) std::swap_ranges(M.row(k), M.row(k) + M.m, M.row(r));
		ru64 inv = ref_inv(M.at(r, j), M.p);
		if (inv != 1) for (int c = j; c < M.m; c++) M.at(r, c) = (ru32)ref_mul(M.at(r, c), inv, M.p);
		for (int i = reduced ? 0 : r + 1; i < M.n; i++)
			if (i != r && M.at(i, j)) ref_rowsub(M.row(i), M.row(r), M.at(i, j), M.p, j, M.m);
		if (piv) piv->push_back(j);
		r++;
	}
	return r;
}
static inline int ref_rank(Mat M) {
	if (M.n > 2 * M.m) {   // process tall matrices incrementally, cheaper
		std::vector<std::vector<ru32>> basis(M.m);
		int r = 0;
		for (int i = 0; i < M.n && r < M.m; i++) {
			ru32 *x = M.row(i);
			for (int j = 0; j < M.m; j++) {
				if (!x[j]) continue;
				if (basis[j].empty()) {
					ru64 inv = ref_inv(x[j], M.p);
					std::vector<ru32> b(x, x + M.m);
					for (int c = j; c < M.m; c++) b[c] = (ru32)ref_mul(b[c], inv, M.p);
					basis[j] = b; r++;
					break;
				}
				ref_rowsub(x, basis[j].data(), x[j], M.p, j, M.m);
			}
		}
		return r;
	}
	return ref_rref(M, nullptr, false);
}
static inline Mat ref_transpose(const Mat &A) { Mat T(A.m, A.n, A.p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) T.at(j, i) = A.at(i, j); return T; }
static inline Mat ref_matmul(const Mat &A, const Mat &B)
{
	Mat C(A.n, B.m, A.p);
	for (int i = 0; i < A.n; i++)
		for (int k = 0; k < A.m; k++)
			if (A.at(i, k)) {
				ru64 f = A.at(i, k);
				ru32 *c = C.row(i); const ru32 *b = B.row(k);
				for (int j = 0; j < B.m; j++) if (b[j]) c[j] = (ru32)((c[j] + f * b[j]) % A.p);
			}
	return C;
}
static inline Mat ref_vstack(const Mat &A, const Mat &B) { Mat C(A.n + B.n, A.m, A.p); std::copy(A.a.begin(), A.a.end(), C.a.begin()); std::copy(B.a.begin(), B.a.end(), C.a.begin() + A.a.size()); return C; }

// canonical form of the row space
static inline Mat ref_rowspace(Mat A) { int r = ref_rref(A); Mat B(r, A.m, A.p); std::copy(A.a.begin(), A.a.begin() + (size_t)r * A.m, B.a.begin()); return B; }

// incremental reducer against a fixed row space
struct Span {
	Mat R; std::vector<int> piv; int r = 0;
	explicit Span(const Mat &A) : R(A) { r = ref_rref(R, &piv); }
	bool contains(std::vector<ru32> x) const {
		for (int k = 0; k < r; k++) if (x[piv[k]]) ref_rowsub(x.data(), R.row(k), x[piv[k]], R.p, 0, R.m);
		for (ru32 v : x) if (v) return false;
		return true;
	}
};

// reference SHA-256 straight from FIPS 180-4
struct RefSha {
	ru32 H[8]; uint8_t buf[64]; size_t fill = 0; ru64 total = 0;
	static ru32 ror(ru32 x, int k) { return (x >> k) | (x << (32 - k)); }
	static const ru32 *consts()   // K[64] then H0[8], derived from primes with integer arithmetic only
	{
		static ru32 C[72]; static bool init = false;
		if (!init) {
			int pr[64], c = 0;
			for (int x = 2; c < 64; x++) { bool is = true; for (int d = 2; d * d <= x; d++) if (x % d == 0) { is = false; break; } if (is) pr[c++] = x; }
			for (int i = 0; i < 64; i++) {   // frac(cbrt(p)) * 2^32 = floor(cbrt(p * 2^96)) mod 2^32
				unsigned __int128 lo = 0, hi = ((unsigned __int128)8) << 32;
				while (lo + 1 < hi) { unsigned __int128 mid = (lo + hi) / 2; if (mid * mid * mid <= (((unsigned __int128)pr[i]) << 96)) lo = mid; else hi = mid; }
				C[i] = (ru32)lo;
			}
			for (int i = 0; i < 8; i++) {
				unsigned __int128 lo = 0, hi = ((unsigned __int128)5) << 32;
				while (lo + 1 < hi) { unsigned __int128 mid = (lo + hi) / 2; if (mid * mid <= (((unsigned __int128)pr[i]) << 64)) lo = mid; else hi = mid; }
				C[64 + i] = (ru32)lo;
			}
			init = true;
		}
		return C;
	}
	RefSha() { memcpy(H, consts() + 64, sizeof H); }
	void block(const uint8_t *m)
	{
		const ru32 *K = consts();
		ru32 w[64];
		for (int t = 0; t < 16; t++) w[t] = (ru32)m[4*t] << 24 | (ru32)m[4*t+1] << 16 | (ru32)m[4*t+2] << 8 | m[4*t+3];
		for (int t = 16; t < 64; t++) { ru32 s0 = ror(w[t-15],7)^ror(w[t-15],18)^(w[t-15]>>3), s1 = ror(w[t-2],17)^ror(w[t-2],19)^(w[t-2]>>10); w[t] = w[t-16]+s0+w[t-7]+s1; }
		ru32 a=H[0],b=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],h=H[7];
		for (int t = 0; t < 64; t++) {
			ru32 T1 = h + (ror(e,6)^ror(e,11)^ror(e,25)) + ((e&f)^(~e&g)) + K[t] + w[t];
			ru32 T2 = (ror(a,2)^ror(a,13)^ror(a,22)) + ((a&b)^(a&c)^(b&c));
			h=g; g=f; f=e; e=d+T1; d=c; c=b; b=a; a=T1+T2;
		}
		H[0]+=a;H[1]+=b;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=h;
	}
	void update(const uint8_t *d, size_t len)
	{
		total += len;
		while (len > 0) {
			if (fill == 0 && len >= 64) { block(d); d += 64; len -= 64; continue; }
			size_t k = std::min(len, (size_t)64 - fill);
			memcpy(buf + fill, d, k); fill += k; d += k; len -= k;
			if (fill == 64) { block(buf); fill = 0; }
		}
	}
	void final(uint8_t *out)
	{
		ru64 bits = total * 8;
		uint8_t pad[72]; size_t n = (fill < 56 ? 56 : 120) - fill;
		memset(pad, 0, sizeof pad); pad[0] = 0x80;
		for (int i = 0; i < 8; i++) pad[n + i] = (uint8_t)(bits >> (56 - 8 * i));
		update(pad, n + 8);
		for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) out[4*i+k] = (uint8_t)(H[i] >> (24 - 8*k));
	}
	static void digest(const uint8_t *d, size_t len, uint8_t *out) { RefSha s; s.update(d, len); s.final(out); }
};

// the documented generator: SHA-256 in counter mode, rejection sampling
static inline ru32 be32(const uint8_t *b) { return (ru32)b[0] << 24 | (ru32)b[1] << 16 | (ru32)b[2] << 8 | b[3]; }
struct RefPrng {
	uint8_t block[44], hash[32]; ru32 counter = 0; int i = 0; ru64 p, mask;
	void rehash() { RefSha::digest(block, 44, hash); counter++; block[36] = counter >> 24; block[37] = counter >> 16; block[38] = counter >> 8; block[39] = counter; i = 0; }
	RefPrng(const uint8_t *seed, ru64 p_, ru32 seq) : p(p_) { memcpy(block, seed, 32); block[32] = p >> 24; block[33] = p >> 16; block[34] = p >> 8; block[35] = p; memset(block + 36, 0, 4); block[40] = seq >> 24; block[41] = seq >> 16; block[42] = seq >> 8; block[43] = seq; mask = 1; while (mask < p) mask <<= 1; mask--; rehash(); }
	ru32 u32() { if (i == 8) rehash(); return be32(hash + 4 * i++); }
	ru32 zzp() { for (;;) { ru32 x = u32() & (ru32)mask; if (x < p) return x; } }
};
