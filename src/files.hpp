// Matrix files: generation and an independent parser used as oracle.
#pragma once
#include "mon.hpp"

struct Ent { ri64 i, j; ri64 x; };             // 1-based, as written in files
struct FileMat {
	enum { VALID, INVALID, OPEN } verdict = OPEN;    // OPEN: the format leaves it unspecified; accept or refuse, never crash
	std::string why;
	ri64 n = 0, m = 0, nnz = 0;
	bool mm = false;
	std::vector<Ent> ents;
};
FileMat ref_parse(const std::string &text, bool values);
// a valid file
std::string gen_file(Rng &r, ru64 p, FileMat &out, std::string &desc, int maxdim, bool huge_vals);
FILE *open_text(const std::string &s, Rng &r);      // some readable stream holding s
FILE *open_text_kind(const std::string &s, int kind);
std::string slurp(FILE *f);
