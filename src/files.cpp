#include "files.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <climits>

static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
// one decimal integer after optional white space; 0 none, 1 ok, 2 overflow
static int num(const std::string &s, size_t &k, ri64 &v)
{
	while (k < s.size() && sp(s[k])) k++;
	bool neg = false;
	size_t t = k;
	if (t < s.size() && (s[t] == '+' || s[t] == '-')) { neg = s[t] == '-'; t++; }
	if (t >= s.size() || s[t] < '0' || s[t] > '9') return 0;
	__int128 a = 0; bool over = false;
	for (; t < s.size() && s[t] >= '0' && s[t] <= '9'; t++) { if (!over) a = a * 10 + (s[t] - '0'); if (a > ((__int128)1 << 64)) over = true; }
	k = t;
	if (neg) a = -a;
	if (over || a > INT64_MAX || a < INT64_MIN) return 2;
	v = (ri64)a;
	return 1;
}
// three integers and nothing else
// 1 yes, 0 no, 2 numbers glued together ("1 2-3"): left open
static int triple(const std::string &s, ri64 &a, ri64 &b, ri64 &c)
{
	size_t k = 0;
	int r;
	bool glued = false;
	if ((r = num(s, k, a)) != 1) return 0;
	if (k < s.size() && (s[k] == '+' || s[k] == '-')) glued = true;
	if ((r = num(s, k, b)) != 1) return 0;
	if (k < s.size() && (s[k] == '+' || s[k] == '-')) glued = true;
	if ((r = num(s, k, c)) != 1) return 0;
	while (k < s.size() && sp(s[k])) k++;
	return k != s.size() ? 0 : glued ? 2 : 1;
}
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

FileMat ref_parse(const std::string &text, bool values)
{
	FileMat F;
	auto bad = [&](const std::string &w) { F.verdict = FileMat::INVALID; F.why = w; return F; };
	auto open = [&](const std::string &w) { F.verdict = FileMat::OPEN; F.why = w; return F; };
	std::vector<std::string> lines;
	for (size_t k = 0; k < text.size();) { size_t e = text.find('\n', k); if (e == std::string::npos) { lines.push_back(text.substr(k)); break; } lines.push_back(text.substr(k, e - k)); k = e + 1; }
	if (lines.empty()) return bad("empty file");
	for (auto &l : lines) if (l.find('\0') != std::string::npos) return open("NUL byte");
	for (auto &l : lines) if (l.size() > 1000) return open("very long line");
	size_t at = 0;
	if (lines[0].compare(0, 14, "%%MatrixMarket") == 0) {
		F.mm = true;
		const std::string &h = lines[0];
		if (h.size() > 14 && !sp(h[14])) return open("header glued");
		std::vector<std::string> w; std::string cur;
		for (size_t k = 14; k <= h.size(); k++) { if (k == h.size() || sp(h[k])) { if (!cur.empty()) w.push_back(lower(cur)); cur.clear(); } else cur += h[k]; }
		if (w.size() < 4) return bad("incomplete MatrixMarket header");
		if (w[0] != "matrix" || w[1] != "coordinate" || w[2] != "integer" || w[3] != "general") return bad("unsupported MatrixMarket kind");
		if (w.size() > 4) return open("extra words in the header");
		at = 1;
		while (at < lines.size() && lines[at].size() && lines[at][0] == '%') at++;
		if (at >= lines.size()) return bad("no dimensions");
		int tr = triple(lines[at], F.n, F.m, F.nnz);
		if (tr == 2) return open("numbers glued together");
		if (!tr) { bool blank = true; for (char c : lines[at]) if (!sp(c)) blank = false; return blank ? open("blank line") : bad("bad dimensions"); }
		if (F.n < 0 || F.m < 0 || F.nnz < 0 || F.n > INT_MAX || F.m > INT_MAX) return bad("bad dimensions");
		at++;
		for (ri64 k = 0; k < F.nnz; k++, at++) {
			if (at >= lines.size()) return bad("truncated");
			const std::string &l = lines[at];
			bool blank = true; for (char c : l) if (!sp(c)) blank = false;
			if (blank) return at + 1 == lines.size() ? bad("truncated") : open("blank line");
			if (l[0] == '%') return open("comment among the entries");
			Ent e;
			int tr = triple(l, e.i, e.j, e.x);
			if (tr == 2) return open("numbers glued together");
			if (!tr) return bad("bad entry line");
			if (e.i <= 0 || e.j <= 0 || e.i > INT_MAX || e.j > INT_MAX) return bad("bad index");
			F.ents.push_back(e);
		}
		if (at < lines.size()) return open("data after the last entry");
	} else {
		size_t k = 0; const std::string &h = lines[0];
		int a = num(h, k, F.n), b = a == 1 ? num(h, k, F.m) : 0;
		if (a != 1 || b != 1) {
			bool blank = true; for (char c : h) if (!sp(c)) blank = false;
			return blank ? open("blank line") : bad("bad SMS header");
		}
		if (F.n < 0 || F.m < 0 || F.n > INT_MAX || F.m > INT_MAX) return bad("bad dimensions");
		size_t k0 = k;
		while (k < h.size() && sp(h[k])) k++;
		if (k >= h.size()) return lines.size() > 1 ? bad("bad SMS header") : bad("truncated");
		if (values && h[k] != 'M') return bad("unsupported SMS type");
		if (k == k0) return open("type glued to the dimensions");
		for (k++; k < h.size(); k++) if (!sp(h[k])) return open("extra words in the header");
		for (at = 1;; at++) {
			if (at >= lines.size()) return bad("truncated");
			Ent e;
			int tr = triple(lines[at], e.i, e.j, e.x);
			if (tr == 2) return open("numbers glued together");
			if (!tr) return bad("bad entry line");
			if (e.i == 0 && e.j == 0 && e.x == 0) { at++; break; }
			if (e.i <= 0 || e.j <= 0 || e.i > INT_MAX || e.j > INT_MAX) return bad("bad index");
			F.ents.push_back(e);
		}
		if (at < lines.size()) return open("data after the end marker");
	}
	if (F.n > (1 << 28) || F.m > (1 << 28) || F.nnz > (1 << 28)) return open("huge dimensions");
	for (auto &e : F.ents) if (e.i > (1 << 28) || e.j > (1 << 28)) return open("huge index");
	F.verdict = FileMat::VALID;
	return F;
}

std::string gen_file(Rng &r, ru64 p, FileMat &F, std::string &desc, int maxdim, bool big)
{
	F.mm = r.coin();
	F.n = r.range(0, maxdim); F.m = r.range(0, maxdim);
	if (r.coin(0.1)) F.n = F.m = 0;
	int k = (F.n && F.m) ? (int)r.below((ru64)std::min<ri64>(F.n * F.m, 60) + 1) : 0;
	if (F.n && F.m && r.coin(0.05)) k = r.range(500, 1500);
	for (int t = 0; t < k; t++) {
		Ent e; e.i = 1 + (ri64)r.below(F.n); e.j = 1 + (ri64)r.below(F.m);
		switch (r.below(big ? 9 : 6)) {
		case 0: e.x = 1; break;
		case 1: e.x = -1; break;
		case 2: e.x = (ri64)r.below(p); break;
		case 3: e.x = -(ri64)r.below(p); break;
		case 4: e.x = (ri64)p * r.range(-3, 3); break;             // zero modulo p
		case 5: e.x = (ri64)(p / 2) + r.range(-1, 2); break;
		case 6: e.x = (ri64)r.next(); break;
		case 7: e.x = r.coin() ? INT64_MAX - (ri64)r.below(3) : INT64_MIN + (ri64)r.below(3); break;
		default: e.x = (ri64)(r.next() >> r.range(1, 60)) * (r.coin() ? 1 : -1); break;
		}
		F.ents.push_back(e);
	}
	F.nnz = (ri64)F.ents.size();
	std::string s;
	bool crlf = r.coin(0.08), tabs = r.coin(0.15), lead = r.coin(0.1), trail = r.coin(0.1), plus = r.coin(0.1), zeros = r.coin(0.1);
	auto eol = [&]() { if (trail && r.coin(0.5)) s += r.coin() ? " " : "\t "; if (crlf) s += "\r"; s += "\n"; };
	auto sep = [&]() -> const char * { return tabs ? (r.coin() ? "\t" : "  ") : " "; };
	auto number = [&](ri64 x) { std::string t = std::to_string(x); if (x >= 0 && zeros && r.coin(0.3)) t = "000" + t; if (x >= 0 && plus && r.coin(0.3)) t = "+" + t; return t; };
	if (F.mm) {
		static const char *H[] = {"matrix coordinate integer general", "Matrix Coordinate Integer General", "MATRIX COORDINATE INTEGER GENERAL", "mAtRiX cOoRdInAtE iNtEgEr gEnErAl", "matrix  coordinate\tinteger  general"};
		s = std::string("%%MatrixMarket ") + H[r.below(5)];
		eol();
		int nc = r.coin() ? 0 : r.range(1, 4);
		for (int c = 0; c < nc; c++) { s += r.coin(0.3) ? "%" : "% comment 3 3 3"; if (r.coin(0.2)) s += std::string(900, 'x'); eol(); }
		s += number(F.n) + sep() + number(F.m) + sep() + number(F.nnz);
		eol();
	} else {
		s = number(F.n) + sep() + number(F.m) + sep() + "M";
		eol();
	}
	for (auto &e : F.ents) {
		if (lead && r.coin(0.5)) s += r.coin() ? "  " : "\t";
		s += number(e.i) + sep() + number(e.j) + sep() + number(e.x);
		eol();
	}
	if (!F.mm) { s += std::string("0") + sep() + "0" + sep() + "0"; eol(); }
	if (r.coin(0.25)) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); }
	F.verdict = FileMat::VALID;
	desc += strf("%s file %lldx%lld, %zu entries, %zu bytes, p=%llu%s%s%s", F.mm ? "MatrixMarket" : "SMS", (long long)F.n, (long long)F.m, F.ents.size(), s.size(), (unsigned long long)p, crlf ? " crlf" : "", tabs ? " tabs" : "", s.empty() || s.back() != '\n' ? " no-final-newline" : "");
	return s;
}

FILE *open_text_kind(const std::string &s, int kind)
{
	if (kind == 0) {
		int fd = memfd_create("in", 0);
		size_t o = 0;
		while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) { perror("memfd"); _exit(99); } o += (size_t)k; }
		lseek(fd, 0, SEEK_SET);
		return fdopen(fd, "r");
	}
	int pf[2];
	if (pipe(pf)) { perror("pipe"); _exit(99); }
	if (write(pf[1], s.data(), s.size()) != (ssize_t)s.size()) { perror("write"); _exit(99); }
	close(pf[1]);
	return fdopen(pf[0], "r");
}
FILE *open_text(const std::string &s, Rng &r) { return open_text_kind(s, (s.size() < 60000 && r.coin(0.3)) ? 1 : 0); }
std::string slurp(FILE *f)
{
	std::string s; char b[65536]; size_t k;
	rewind(f);
	while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
	return s;
}
