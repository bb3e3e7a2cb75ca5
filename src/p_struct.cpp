// Structural algorithms: pivot search, matchings, Dulmage-Mendelsohn, strongly connected components
#include "mon.hpp"
#include <algorithm>
#include <queue>

typedef std::vector<std::vector<int>> Adj;      // row -> columns
struct Pat { int n = 0, m = 0; Adj a; };

static std::vector<int> rperm(Rng &r, int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v; }

static spasm_csr *pat_csr(const Pat &P, Rng &r, ru64 p, bool values, bool shuffle)
{
	SMat S; S.n = P.n; S.m = P.m; S.p = p; S.rows.resize(P.n);
	for (int i = 0; i < P.n; i++) for (int j : P.a[i]) S.rows[i].push_back({j, (ru32)(1 + r.below(p - 1))});
	if (!shuffle) for (auto &w : S.rows) std::sort(w.begin(), w.end());
	spasm_csr *A = make_csr(S, r);
	if (!values) { free(A->x); A->x = NULL; }
	return A;
}

static Pat from_mat(const Mat &M) { Pat P; P.n = M.n; P.m = M.m; P.a.resize(M.n); for (int i = 0; i < M.n; i++) for (int j = 0; j < M.m; j++) if (M.at(i, j)) P.a[i].push_back(j); return P; }

static Pat gen_pat(Case &c, bool square)
{
	Rng &r = c.rng;
	Pat P;
	bool big = c.mode == 1;
	if (!big && !square && r.coin(0.4)) { Mat M = gen_matrix(r, 3, c.desc, c.slow ? SZ_TINY | SZ_SMALL : SZ_ALL); return from_mat(M); }
	int lim = c.slow ? 30 : (r.below(12) == 0 ? 400 : r.coin(0.3) ? 120 : r.coin() ? 30 : 8);
	if (big) { static const int L[] = {2000, 5000, 12000, 40000}; lim = square ? (r.coin(0.2) ? 200000 : L[r.below(4)]) : L[r.below(4)]; }
	int n = r.range(big ? 300 : 0, lim), m = square ? n : r.coin(0.3) ? n : r.range(big ? 300 : 0, lim);
	std::vector<std::set<int>> S(n);
	int fam = (int)r.below(9);
	if (big && fam == 4) fam = 1;
	auto add = [&](int i, int j) { if (i >= 0 && i < n && j >= 0 && j < m) S[i].insert(j); };
	switch (fam) {
	case 0: { double k = 0.3 + 4 * r.unit(); for (int i = 0; i < n; i++) for (int e = 0; e < 6; e++) if (r.coin(k / 6) && m) add(i, (int)r.below(m)); break; }
	case 1: for (int i = 0; i < n; i++) { add(i, i); add(i, i + 1); if (r.coin(0.05)) add(i, (int)r.below(m ? m : 1)); } break;              // path
	case 2: for (int i = 0; i < n; i++) { add(i, i); add(i, (i + 1) % std::max(1, m)); } break;                                              // cycle
	case 3: { int b = r.range(1, 6); for (int i = 0; i < n; i++) for (int j = (i / b) * b; j < (i / b) * b + b; j++) if (r.coin(0.6)) add(i, j); for (int k = 0; k < n && m; k++) { int i = (int)r.below(n), j = (int)r.below(m); if (j >= i) add(i, j); } break; }   // block triangular
	case 4: { double d = r.unit() * r.unit(); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (r.coin(d)) add(i, j); break; }
	case 5: { int hub = m ? (int)r.below(m) : 0; for (int i = 0; i < n; i++) { add(i, hub); if (r.coin(0.5)) add(i, (int)r.below(m ? m : 1)); } break; }       // star
	case 6: for (int i = 0; i < n; i++) { add(i, n - 1 - i); for (int e = 0; e < 2 && m; e++) if (r.coin(0.3)) add(i, (int)r.below(m)); } break;      // antidiagonal
	case 7: { int h = n / 3, w = m / 3; for (int i = 0; i < n; i++) for (int e = 0; e < 3; e++) { int lo = i < h ? 0 : i < 2 * h ? w : 2 * w; if (m > lo) add(i, lo + (int)r.below(m - lo)); } break; }   // coarse structure
	case 8: { for (int i = 0; i < n; i++) { if (r.coin(0.2)) continue; int k = r.range(1, 3); for (int e = 0; e < k && m; e++) { int j = (int)(m * r.unit() * r.unit()); add(i, j); } } break; }        // crowded columns
	}
	P.n = n; P.m = m; P.a.resize(n);
	for (int i = 0; i < n; i++) P.a[i].assign(S[i].begin(), S[i].end());
	if (r.coin(0.6) && n) {
		auto pr = rperm(r, n), pc = square && r.coin(0.7) ? pr : rperm(r, m);
		Adj B(n);
		for (int i = 0; i < n; i++) { for (int j : P.a[i]) B[pr[i]].push_back(pc[j]); }
		P.a = B;
	}
	c.note(strf("pattern family %d %dx%d", fam, n, m));
	max_event("rows-max", (ru64)n);
	return P;
}

// reference maximum matching: Hopcroft-Karp
struct RefMatch {
	std::vector<int> rowm, colm; int size = 0;
	explicit RefMatch(const Pat &P) : rowm(P.n, -1), colm(P.m, -1)
	{
		std::vector<int> dist(P.n);
		for (;;) {
			std::queue<int> q; bool found = false;
			for (int i = 0; i < P.n; i++) { dist[i] = rowm[i] < 0 ? 0 : -1; if (rowm[i] < 0) q.push(i); }
			while (!q.empty()) { int i = q.front(); q.pop(); for (int j : P.a[i]) { int k = colm[j]; if (k < 0) found = true; else if (dist[k] < 0) { dist[k] = dist[i] + 1; q.push(k); } } }
			if (!found) break;
			for (int s = 0; s < P.n; s++) {
				if (rowm[s] >= 0) continue;
				// iterative DFS along the layers
				std::vector<std::pair<int, size_t>> st{{s, 0}}; std::vector<int> via;
				bool ok = false;
				while (!st.empty() && !ok) {
					int i = st.back().first; size_t &t = st.back().second;
					bool pushed = false;
					while (t < P.a[i].size()) {
						int j = P.a[i][t++]; int k = colm[j];
						if (k < 0) { via.push_back(j); ok = true; break; }
						if (dist[k] == dist[i] + 1) { via.push_back(j); st.push_back({k, 0}); pushed = true; break; }
					}
					if (ok || pushed) continue;
					dist[i] = -2; st.pop_back(); if (!via.empty()) via.pop_back();
				}
				if (ok) { for (size_t t = 0; t < st.size(); t++) { rowm[st[t].first] = via[t]; colm[via[t]] = st[t].first; } size++; }
			}
		}
	}
};

// canonical coarse decomposition: 0 = horizontal, 1 = square, 2 = vertical
struct RefDM {
	std::vector<int> rset, cset; int size;
	RefDM(const Pat &P, const RefMatch &M) : rset(P.n, 1), cset(P.m, 1), size(M.size)
	{
		Adj col(P.m);
		for (int i = 0; i < P.n; i++) for (int j : P.a[i]) col[j].push_back(i);
		std::queue<int> q;
		for (int j = 0; j < P.m; j++) if (M.colm[j] < 0) { cset[j] = 0; q.push(j); }
		while (!q.empty()) { int j = q.front(); q.pop(); for (int i : col[j]) if (rset[i] == 1) { rset[i] = 0; int k = M.rowm[i]; if (k >= 0 && cset[k] == 1) { cset[k] = 0; q.push(k); } } }
		for (int i = 0; i < P.n; i++) if (M.rowm[i] < 0) { rset[i] = 2; q.push(i); }
		while (!q.empty()) { int i = q.front(); q.pop(); for (int j : P.a[i]) if (cset[j] == 1) { cset[j] = 2; int k = M.colm[j]; if (k >= 0 && rset[k] == 1) { rset[k] = 2; q.push(k); } } }
	}
};

// strongly connected components by two passes of depth-first search (Kosaraju)
static int ref_scc(const Adj &g, std::vector<int> &comp)
{
	int n = (int)g.size();
	Adj rev(n);
	for (int i = 0; i < n; i++) for (int j : g[i]) rev[j].push_back(i);
	std::vector<int> order; std::vector<char> seen(n, 0);
	for (int s = 0; s < n; s++) {
		if (seen[s]) continue;
		std::vector<std::pair<int, size_t>> st{{s, 0}}; seen[s] = 1;
		while (!st.empty()) {
			int u = st.back().first; size_t t = st.back().second;
			if (t < g[u].size()) { st.back().second++; int v = g[u][t]; if (!seen[v]) { seen[v] = 1; st.push_back({v, 0}); } }
			else { order.push_back(u); st.pop_back(); }
		}
	}
	comp.assign(n, -1); int nc = 0;
	for (int k = n - 1; k >= 0; k--) {
		int s = order[k]; if (comp[s] >= 0) continue;
		std::vector<int> st{s}; comp[s] = nc;
		while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : rev[u]) if (comp[v] < 0) { comp[v] = nc; st.push_back(v); } }
		nc++;
	}
	return nc;
}

static bool is_perm(const int *p, int n) { std::vector<char> s(n, 0); for (int i = 0; i < n; i++) { if (p[i] < 0 || p[i] >= n || s[p[i]]) return false; s[p[i]] = 1; } return true; }
static ru64 hash_pat(const Pat &P) { ru64 h = mix64(P.n, P.m); for (auto &w : P.a) { for (int j : w) h = (h ^ (ru64)j) * 1099511628211ULL; h = (h ^ 0xabcdef) * 1099511628211ULL; } return h; }

static std::string match_complaint(const Pat &P, const int *jm, const int *im)
{
	std::vector<char> used(P.m, 0);
	for (int i = 0; i < P.n; i++) {
		int j = jm[i];
		if (j == -1) continue;
		if (j < 0 || j >= P.m) return strf("row %d is matched to column %d", i, j);
		if (used[j]) return strf("column %d is matched twice", j);
		used[j] = 1;
		if (std::find(P.a[i].begin(), P.a[i].end(), j) == P.a[i].end()) return strf("row %d is matched to column %d but has no entry there", i, j);
		if (im && im[j] != i) return strf("row %d is matched to column %d, column %d to row %d", i, j, j, im[j]);
	}
	if (im) for (int j = 0; j < P.m; j++) { if (im[j] == -1) continue; if (im[j] < 0 || im[j] >= P.n || jm[im[j]] != j) return strf("column %d is matched to row %d, not conversely", j, im[j]); }
	return "";
}

PROP(C13)
{
	Rng &r = c.rng;
	Pat P = gen_pat(c, false);
	int n = P.n, m = P.m;
	c.mix(hash_pat(P));
	spasm_csr *A = pat_csr(P, r, 101, r.coin(), r.coin(0.7));
	CsrGuard g = guard_csr(A);
	std::vector<int> jm(n + 1, 777), im(m + 1, 777);
	int sz = spasm_maximum_matching(A, jm.data(), im.data());
	if (!guard_ok(g)) c.fail("input-modified", "matching modified the matrix");
	RefMatch R(P);
	if (R.size > 0) c.nontrivial = true;
	count_event("matchings"); count_event("matched-rows-checked", (ru64)R.size);
	if (jm[n] != 777 || im[m] != 777) c.fail("overflow", "matching written past its end");
	std::string w = match_complaint(P, jm.data(), im.data());
	if (!w.empty()) { c.fail("invalid-matching", "%s", w.c_str()); spasm_csr_free(A); return; }
	int cnt = 0; for (int i = 0; i < n; i++) cnt += jm[i] >= 0;
	if (cnt != R.size) c.fail("not-maximum", "matching of size %d, maximum is %d", cnt, R.size);
	if (sz != cnt) c.fail("wrong-size", "size %d returned, the matching has %d pairs", sz, cnt);
	// permuted along with the matrix
	auto p = rperm(r, n), q = rperm(r, m); std::vector<int> pinv(n), qinv(m);
	for (int i = 0; i < n; i++) pinv[p[i]] = i;
	for (int j = 0; j < m; j++) qinv[q[j]] = j;
	bool block = r.coin();
	int a = 0, b = n, c0 = 0, d = m;
	if (block && n && m) {       // arrange for a block the matching respects: some pairs, unmatched rows, and columns around
		std::vector<int> rows, cols; std::vector<char> inr(n, 0), inc(m, 0);
		for (int i : p) if (r.coin(0.4) ) { rows.push_back(i); inr[i] = 1; if (jm[i] >= 0) { cols.push_back(jm[i]); inc[jm[i]] = 1; } }
		for (int j : q) if (!inc[j] && im[j] < 0 && r.coin(0.4)) { cols.push_back(j); inc[j] = 1; }
		auto cp = rperm(r, (int)cols.size()); std::vector<int> cc; for (int t : cp) cc.push_back(cols[t]);
		std::vector<int> ro, co; for (int i : p) if (!inr[i]) ro.push_back(i); for (int j : q) if (!inc[j]) co.push_back(j);
		a = (int)r.below(ro.size() + 1); c0 = (int)r.below(co.size() + 1);
		ro.insert(ro.begin() + a, rows.begin(), rows.end()); co.insert(co.begin() + c0, cc.begin(), cc.end());
		b = a + (int)rows.size(); d = c0 + (int)cc.size();
		p = ro; q = co;
		for (int i = 0; i < n; i++) pinv[p[i]] = i;
		for (int j = 0; j < m; j++) qinv[q[j]] = j;
	}
	spasm_csr *B = spasm_permute(A, p.data(), qinv.data(), A->x != NULL);
	Pat PB; PB.n = n; PB.m = m; PB.a.resize(n);
	for (int i = 0; i < n; i++) for (i64 t = B->p[i]; t < B->p[i + 1]; t++) PB.a[i].push_back(B->j[t]);
	int *jj = spasm_permute_row_matching(n, jm.data(), p.data(), qinv.data());
	int *ii = spasm_permute_column_matching(m, im.data(), pinv.data(), q.data());
	w = match_complaint(PB, jj, ii);
	int cnt2 = 0; for (int i = 0; i < n; i++) cnt2 += jj[i] >= 0;
	if (!w.empty() || cnt2 != cnt) c.fail("permuted-matching", "permuted matching: %s (%d pairs instead of %d)", w.c_str(), cnt2, cnt);
	for (int i = 0; i < n && c.nviol == 0; i++) if ((jj[i] < 0) != (jm[p[i]] < 0) || (jj[i] >= 0 && q[jj[i]] != jm[p[i]])) c.fail("permuted-matching", "row %d of the permuted matching is not the image of the original pair", i);
	count_event("permuted-matchings");
	if (c.nviol == 0) {
		int *s = spasm_submatching(jj, a, b, c0, d);
		for (int i = a; i < b; i++) if (s[i - a] != (jj[i] < 0 ? -1 : jj[i] - c0)) { c.fail("submatching", "restricted matching is wrong on row %d", i); break; }
		free(s);
		// and by columns, when every matched row of the block's columns lies in the block
		bool resp = true; for (int j = c0; j < d; j++) if (ii[j] >= 0 && (ii[j] < a || ii[j] >= b)) resp = false;
		if (resp) {
			s = spasm_submatching(ii, c0, d, a, b);
			for (int j = c0; j < d; j++) if (s[j - c0] != (ii[j] < 0 ? -1 : ii[j] - a)) { c.fail("submatching", "restricted matching is wrong on column %d", j); break; }
			free(s);
		}
		count_event("submatchings");
	}
	free(jj); free(ii); spasm_csr_free(B); spasm_csr_free(A);
}

static bool check_scc(Case &c, const Adj &g, const spasm_dm *P, const char *key)
{
	int n = (int)g.size();
	std::vector<int> comp; int nc = ref_scc(g, comp);
	std::string k(key);
	if (!is_perm(P->p, n) || !is_perm(P->q, n)) { c.fail(k + "-perm", "p or q is not a permutation"); return false; }
	for (int i = 0; i < n; i++) if (P->p[i] != P->q[i]) { c.fail(k + "-perm", "p and q differ at %d", i); return false; }
	if (P->nb != nc) { c.fail(k + "-count", "%d components reported, there are %d", P->nb, nc); return false; }
	if (n && (P->r[0] != 0 || P->r[nc] != n)) { c.fail(k + "-bounds", "block boundaries do not cover [0,%d)", n); return false; }
	std::vector<int> blk(n);
	for (int b = 0; b < nc; b++) {
		if (P->r[b] != P->c[b] || P->r[b + 1] <= P->r[b]) { c.fail(k + "-bounds", "bad boundaries for block %d", b); return false; }
		for (int t = P->r[b]; t < P->r[b + 1]; t++) { blk[P->p[t]] = b; if (comp[P->p[t]] != comp[P->p[P->r[b]]]) { c.fail(k + "-block", "nodes %d and %d are in one block but not in one component", P->p[t], P->p[P->r[b]]); return false; } }
	}
	for (int i = 0; i < n; i++) for (int j : g[i]) if (blk[j] < blk[i]) { c.fail(k + "-order", "entry from block %d to earlier block %d", blk[i], blk[j]); return false; }
	return true;
}

PROP(C15)
{
	Rng &r = c.rng;
	Pat P = gen_pat(c, true);
	c.mix(hash_pat(P));
	spasm_csr *A = pat_csr(P, r, 101, r.coin(0.3), r.coin(0.7));
	CsrGuard g = guard_csr(A);
	spasm_dm *D = spasm_strongly_connected_components(A);
	if (!guard_ok(g)) c.fail("input-modified", "SCC modified the matrix");
	std::vector<int> comp; int nc = ref_scc(P.a, comp);
	if (nc > 1) c.nontrivial = true;
	count_event("graphs"); count_event("components", (ru64)nc);
	check_scc(c, P.a, D, "scc");
	spasm_dm_free(D); spasm_csr_free(A);
}

PROP(C14)
{
	Rng &r = c.rng;
	Pat P = gen_pat(c, false);
	int n = P.n, m = P.m;
	c.mix(hash_pat(P));
	spasm_csr *A = pat_csr(P, r, 101, r.coin(), r.coin(0.7));
	CsrGuard g = guard_csr(A);
	spasm_dm *D = spasm_dulmage_mendelsohn(A);
	if (!guard_ok(g)) c.fail("input-modified", "DM modified the matrix");
	RefMatch M(P); RefDM R(P, M);
	int hr = 0, sr = 0, vr = 0, hc = 0, sc = 0, vc = 0;
	for (int x : R.rset) (x == 0 ? hr : x == 1 ? sr : vr)++;
	for (int x : R.cset) (x == 0 ? hc : x == 1 ? sc : vc)++;
	count_event("decompositions"); distinct("coarse-shape", (ru64)(hr > 0) + 2 * (sr > 0) + 4 * (vr > 0) + 8 * (hc > hr) + 16 * (vr > vc) + 32 * (m - M.size > 0));
	if (M.size > 0) c.nontrivial = true;
	const int *p = D->p, *q = D->q, *rr = D->rr, *cc = D->cc;
	do {
		if (!is_perm(p, n) || !is_perm(q, m)) { c.fail("not-a-permutation", "p or q is not a permutation"); break; }
		int wr[5] = {0, hr, hr + sr, hr + sr + vr - (n - M.size), n}, wc[5] = {0, m - M.size, hc, hc + sc, m};
		bool bad = false;
		for (int k = 0; k < 5; k++) if (rr[k] != wr[k] || cc[k] != wc[k]) { c.fail("coarse-sizes", "rr/cc[%d] = %d/%d, expected %d/%d", k, rr[k], cc[k], wr[k], wc[k]); bad = true; break; }
		if (bad) break;
		std::vector<int> pi(n), qi(m);
		for (int i = 0; i < n; i++) pi[p[i]] = i;
		for (int j = 0; j < m; j++) qi[q[j]] = j;
		for (int i = 0; i < n && !bad; i++) { int s = pi[i] < rr[1] ? 0 : pi[i] < rr[2] ? 1 : 2; if (s != R.rset[i]) { c.fail("coarse-rows", "row %d put in part %d, belongs to %d", i, s, R.rset[i]); bad = true; } }
		for (int j = 0; j < m && !bad; j++) { int s = qi[j] < cc[2] ? 0 : qi[j] < cc[3] ? 1 : 2; if (s != R.cset[j]) { c.fail("coarse-columns", "column %d put in part %d, belongs to %d", j, s, R.cset[j]); bad = true; } }
		for (int i = 0; i < n && !bad; i++) for (int j : P.a[i]) {
			int s = pi[i] < rr[1] ? 0 : pi[i] < rr[2] ? 1 : 2, t = qi[j] < cc[2] ? 0 : qi[j] < cc[3] ? 1 : 2;
			if (t < s) { c.fail("entry-below", "entry (%d,%d) lies below the block diagonal (parts %d, %d)", i, j, s, t); bad = true; break; }
		}
		// R0 and C0 can be left unmatched by a maximum matching: the rest has a matching of full size
		if (!bad) {
			Pat Q; Q.m = m; Q.n = 0;
			for (int t = 0; t < rr[3]; t++) { Q.a.push_back({}); for (int j : P.a[p[t]]) if (qi[j] >= cc[1]) Q.a.back().push_back(j); Q.n++; }
			if (RefMatch(Q).size != M.size) { c.fail("unmatched-sets", "R0/C0 are not the unmatched rows/columns of a maximum matching"); bad = true; }
		}
		if (bad) break;
		// fine decomposition of the square part
		if (sr == 0) { if (D->nb != 0) c.fail("fine-count", "nb = %d without a square part", D->nb); break; }
		// the components do not depend on the perfect matching used to orient the graph
		std::vector<int> nodeof(m, -1), rowsS;
		for (int i = 0; i < n; i++) if (R.rset[i] == 1) { nodeof[M.rowm[i]] = (int)rowsS.size(); rowsS.push_back(i); }
		Adj G(rowsS.size());
		for (size_t t = 0; t < rowsS.size(); t++) for (int j : P.a[rowsS[t]]) if (R.cset[j] == 1) G[t].push_back(nodeof[j]);
		std::vector<int> comp; int nc = ref_scc(G, comp);
		std::vector<int> rc(n, -1), ccm(m, -1);
		for (size_t t = 0; t < rowsS.size(); t++) { rc[rowsS[t]] = comp[t]; ccm[M.rowm[rowsS[t]]] = comp[t]; }
		if (D->nb != nc + 2) { c.fail("fine-count", "%d fine blocks reported, %d expected", D->nb, nc + 2); break; }
		const int *fr = D->r, *fc = D->c;
		if (fr[0] != 0 || fr[1] != rr[1] || fr[nc + 1] != rr[2] || fr[nc + 2] != n || fc[0] != 0 || fc[1] != cc[2] || fc[nc + 1] != cc[3] || fc[nc + 2] != m) { c.fail("fine-bounds", "fine boundaries do not match the coarse ones"); break; }
		std::vector<int> rb(n, -1), cb(m, -1);
		for (int b = 1; b <= nc && !bad; b++) {
			if (fr[b + 1] <= fr[b] || fr[b + 1] - fr[b] != fc[b + 1] - fc[b]) { c.fail("fine-bounds", "block %d is not square or is empty", b); bad = true; break; }
			for (int t = fr[b]; t < fr[b + 1]; t++) { rb[p[t]] = b; if (rc[p[t]] != rc[p[fr[b]]]) { c.fail("fine-block", "rows %d and %d share block %d but not a component", p[t], p[fr[b]], b); bad = true; break; } }
			for (int t = fc[b]; t < fc[b + 1] && !bad; t++) { cb[q[t]] = b; if (ccm[q[t]] != rc[p[fr[b]]]) { c.fail("fine-block", "column %d is in block %d, not its component", q[t], b); bad = true; break; } }
		}
		for (int i = 0; i < n && !bad; i++) if (rb[i] >= 0) for (int j : P.a[i]) if (cb[j] >= 0 && cb[j] < rb[i]) { c.fail("fine-order", "entry (%d,%d) from block %d to earlier block %d", i, j, rb[i], cb[j]); bad = true; break; }
		count_event("fine-blocks", (ru64)nc);
	} while (0);
	spasm_dm_free(D); spasm_csr_free(A);
}

// ---- structural pivots ------------------------------------------------------------------------------
static spasm_lu *fresh_fact(int n, int m, ru64 p, bool L, Rng &r)
{
	spasm_lu *f = (spasm_lu *)malloc(sizeof *f); memset(f, 0, sizeof *f);
	f->U = spasm_csr_alloc(n, m, r.coin() ? 0 : r.range(1, 50), (i64)p, true); f->U->n = 0; f->U->p[0] = 0;
	f->qinv = (int *)malloc(sizeof(int) * ((size_t)m + 1)); for (int j = 0; j < m; j++) f->qinv[j] = -1;
	if (L) { f->Ltmp = spasm_triplet_alloc(n, n, r.coin() ? 1 : 30, (i64)p, true); f->p = (int *)malloc(sizeof(int) * ((size_t)n + 1)); for (int k = 0; k <= n; k++) f->p[k] = -1; }
	return f;
}
static void free_fact(spasm_lu *f) { if (f->Ltmp) spasm_triplet_free(f->Ltmp); f->Ltmp = NULL; spasm_lu_free(f); }

// A: matrix of this round; rows of A come from rows p_in[i] of the original
static bool check_extract(Case &c, const spasm_csr *A, const int *p_in, const spasm_lu *f, const int *p, int npiv, int u0, i64 l0)
{
	int n = A->n, m = A->m; ru64 P = (ru64)A->field->p;
	const spasm_csr *U = f->U;
	if (!is_perm(p, n)) { c.fail("p-not-permutation", "p does not list each of the %d rows exactly once", n); return false; }
	if (npiv < 0 || npiv > std::min(n, m) || U->n - u0 != npiv) { c.fail("count-mismatch", "%d pivots returned, %d rows added to U", npiv, U->n - u0); return false; }
	if (U->p[U->n] > U->nzmax) { c.fail("U-overflow", "U holds more entries than its capacity"); return false; }
	std::vector<int> pivcol(npiv, -1);
	for (int j = 0; j < m; j++) {
		int k = f->qinv[j];
		if (k < -1 || k >= U->n) { c.fail("qinv-range", "qinv[%d] = %d", j, k); return false; }
		if (k < u0) continue;
		if (pivcol[k - u0] >= 0) { c.fail("qinv-dup", "row %d of U has two pivot columns", k); return false; }
		pivcol[k - u0] = j;
	}
	std::vector<ru64> row(m, 0);
	for (int k = 0; k < npiv; k++) {
		int i = p[k], j = pivcol[k], u = u0 + k;
		if (j < 0) { c.fail("no-pivot", "row %d of U is registered on no column", u); return false; }
		ru64 pv = 0;
		for (i64 t = A->p[i]; t < A->p[i + 1]; t++) { row[A->j[t]] = res(A->x[t], P); if (A->j[t] == j) pv = row[j]; }
		if (!pv) { c.fail("pivot-zero", "row %d has no entry on its pivot column %d", i, j); return false; }
		ru64 inv = ref_inv(pv, P); bool bad = false;
		if (U->p[u + 1] - U->p[u] != A->p[i + 1] - A->p[i] || U->j[U->p[u]] != j || U->x[U->p[u]] != 1) { c.fail("U-row", "row %d of U is not row %d scaled with its pivot first", u, i); return false; }
		for (i64 t = U->p[u]; t < U->p[u + 1] && !bad; t++) {
			int jj = U->j[t];
			if (jj < 0 || jj >= m || res(U->x[t], P) != ref_mul(row[jj], inv, P) || !canonical(U->x[t], P) || !row[jj]) { c.fail("U-row", "entry %d of row %d of U is wrong", (int)(t - U->p[u]), u); bad = true; }
			else { row[jj] = 0; int k2 = f->qinv[jj]; if (k2 >= u0 && k2 < u) { c.fail("not-triangular", "pivotal row %d has an entry on column %d, pivot of earlier row %d", u, jj, k2); bad = true; } }
		}
		if (bad) return false;
		for (i64 t = A->p[i]; t < A->p[i + 1]; t++) row[A->j[t]] = 0;
		int orig = p_in ? p_in[i] : i;
		if (f->Ltmp) {
			const spasm_triplet *L = f->Ltmp;
			if (f->p[u] != orig) { c.fail("Lp", "Lp[%d] = %d, expected row %d", u, f->p[u], orig); return false; }
			if (L->nz - l0 != npiv) { c.fail("L-count", "%lld entries added to L for %d pivots", (long long)(L->nz - l0), npiv); return false; }
			if (L->i[l0 + k] != orig || L->j[l0 + k] != u || res(L->x[l0 + k], P) != pv) { c.fail("L-entry", "L entry (%d,%d) = %d, expected (%d,%d) = %llu", L->i[l0 + k], L->j[l0 + k], L->x[l0 + k], orig, u, (unsigned long long)pv); return false; }
		}
	}
	count_event("pivots-checked", (ru64)npiv);
	distinct("pivot-set", hash_bytes(pivcol.data(), pivcol.size() * sizeof(int)));
	return true;
}

PROP(C12)
{
	Rng &r = c.rng;
	ru64 p = pick_prime(r);
	bool big = c.mode == 1;
	spasm_csr *A; SMat S;
	if (!big) {
		Mat M = gen_matrix(r, p, c.desc, c.slow ? SZ_TINY | SZ_SMALL : SZ_ALL);
		c.mix(hash_mat(M));
		A = make_csr(M, r);
	} else {
		// more rows than the scheduling chunk of the greedy search, so that its transactions really overlap
		int n = c.chaos ? r.range(2001, 3500) : r.range(2001, c.thorough ? 20000 : 7000), m = (int)(n * (0.6 + 0.8 * r.unit()));
		S.n = n; S.m = m; S.p = p; S.rows.resize(n);
		int fam = (int)r.below(4); double w = 1.5 + 3 * r.unit();
		int empty_until = r.coin(0.4) ? n / 2 : 0;
		for (int i = 0; i < n; i++) {
			std::set<int> cs;
			int k = i < empty_until ? (r.coin(0.3) ? 1 : 0) : 1 + (int)(w * 2 * r.unit());
			for (int e = 0; e < k; e++) {
				int j;
				if (fam == 0) j = (int)r.below(m);
				else if (fam == 1) j = (int)(m * r.unit() * r.unit());
				else if (fam == 2) j = (int)(((ru64)(i % 997) * m / 997 + r.below(40)) % m);       // rows of different chunks compete for the same columns
				else j = e == 0 ? (int)r.below(std::max(1, m / 20)) : (int)r.below(m);            // crowded leftmost entries: few Faugere-Lachartre pivots
				cs.insert(j);
			}
			for (int j : cs) S.rows[i].push_back({j, (ru32)(1 + r.below(p - 1))});
		}
		c.note(strf("big pattern family %d %dx%d weight %.1f p=%llu", fam, n, m, w, (unsigned long long)p));
		A = make_csr(S, r);
		c.mix(hash_csr(A));
	}
	int n = A->n, m = A->m;
	bool L = r.coin();
	spasm_lu *f = fresh_fact(n, m, p, L, r);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	o.enable_greedy_pivot_search = big || r.coin(0.8);
	c.pick_threads();
	int *pp = (int *)malloc(sizeof(int) * ((size_t)n + 1)); for (int i = 0; i <= n; i++) pp[i] = 0x7eeeeeee;
	std::vector<int> pin; if (r.coin(0.3)) { pin = rperm(r, n); }
	CsrGuard g = guard_csr(A);
	int np = spasm_pivots_extract_structural(A, pin.empty() ? NULL : pin.data(), f, pp, &o);
	count_event("searches");
	if (np > 0) c.nontrivial = true;
	if (!guard_ok(g)) c.fail("input-modified", "pivot search modified the matrix");
	if (pp[n] != 0x7eeeeeee) c.fail("overflow", "p written past its end");
	bool ok = check_extract(c, A, pin.empty() ? NULL : pin.data(), f, pp, np, 0, 0);
	if (ok && !big) {
		Mat M = to_mat(A);
		if (np > ref_rank(M)) c.fail("too-many-pivots", "%d structural pivots, rank %d", np, ref_rank(M));
		// second round, on the Schur complement
		if (np < n && np < m) {
			int u0 = f->U->n; i64 l0 = f->Ltmp ? f->Ltmp->nz : 0; std::vector<int> p_out(n - np + 1, -5);
			spasm_csr *S2 = spasm_schur(A, pp + np, n - np, f, -1, f->Ltmp, pin.empty() ? NULL : pin.data(), p_out.data());
			l0 = f->Ltmp ? f->Ltmp->nz : 0;
			std::vector<int> p2(S2->n + 1, -3);
			int np2 = spasm_pivots_extract_structural(S2, p_out.data(), f, p2.data(), &o);
			check_extract(c, S2, p_out.data(), f, p2.data(), np2, u0, l0);
			count_event("second-rounds");
			spasm_csr_free(S2);
		}
	}
	if (np && big) { count_event("big-pivots", (ru64)np); }
	free(pp); free_fact(f); spasm_csr_free(A);
}
