// An independent reader and writers of DIMACS text, and compression of byte strings.
#pragma once
#include "gen.hpp"
#include "pbt.hpp"
#include <bzlib.h>
#include <climits>
#include <cstring>
#include <fstream>
#include <lzma.h>
namespace dimacs {
using ref::Clause;
struct Meaning { bool ok = true; bool huge = false; int n = 0; std::vector<Clause> cs; size_t comments = 0, lines = 0; };
// What a DIMACS text means: comment lines start with c, a line starting with % ends the formula, the header comes first,
// everything else is integers; 0 ends a clause and the end of the text ends the last one.
inline Meaning meaning(const std::string& text) {
  Meaning m; bool in = false, body = false; Clause cur; size_t at = 0;
  auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; };
  while (at < text.size()) {
    size_t e = text.find('\n', at); std::string l = text.substr(at, e == std::string::npos ? std::string::npos : e - at); at = e == std::string::npos ? text.size() : e + 1; m.lines++;
    size_t b = 0; while (b < l.size() && blank(l[b])) b++; l = l.substr(b); if (l.empty()) continue;
    if (l[0] == 'c') { m.comments++; std::istringstream is(l.substr(2 <= l.size() ? 2 : 1)); std::string v, w, r; if (l.size() > 1 && (l[1] == 'w' || l[1] == 'o') && is >> v >> w && !(is >> r)) { long long q; bool num = pbt::to_int(v, q) && q > 0 && q <= INT_MAX; if (num && l[1] == 'w') { char* end; std::strtod(w.c_str(), &end); num = *end == 0; } if (num) { if (q > 200000) { m.huge = true; return m; } if (l[1] == 'o') m.comments += 1000; } } continue; }
    if (l[0] == '%') break;
    if (l.compare(0, 5, "p cnf") == 0) { if (body) continue; std::istringstream is(l.substr(5)); long long v, k; if (!(is >> v >> k) || v < 0 || k < 0 || v > INT_MAX || k > INT_MAX) { m.ok = false; return m; } if (v > 200000) { m.huge = true; return m; } m.n = std::max(m.n, (int)v); continue; }
    body = true;
    size_t i = 0; while (i < l.size()) { while (i < l.size() && blank(l[i])) i++; size_t j = i; while (j < l.size() && !blank(l[j])) j++; if (j == i) break; std::string t = l.substr(i, j - i); i = j;
      size_t d = t[0] == '-' || t[0] == '+' ? 1 : 0; bool digits = t.size() > d; for (size_t q = d; q < t.size(); q++) digits &= t[q] >= '0' && t[q] <= '9'; long long v = 0; if (digits) for (size_t q = d; q < t.size() && v <= 1LL << 40; q++) v = v * 10 + (t[q] - '0'); if (!digits || v > INT_MAX) { m.ok = false; return m; } if (t[0] == '-') v = -v;
      if (std::llabs(v) > 200000) { m.huge = true; return m; }
      if (v == 0) { m.cs.push_back(cur); cur.clear(); in = false; } else { cur.push_back((int)v); in = true; m.n = std::max(m.n, (int)std::llabs(v)); } } }
  if (in) m.cs.push_back(cur);
  return m; }
// Renders clauses with a layout chosen by the seed.
inline std::string render(const std::vector<Clause>& cs, int n, uint64_t seed) {
  pbt::Rng r(seed); std::string o; int style = (int)r.range(0, 4); const char* eol = r.chance(1, 5) ? "\r\n" : "\n"; bool fancy = r.chance(1, 2);
  auto comment = [&] { if (!o.empty() && o.back() != '\n') o += eol; o += r.pick(std::vector<std::string>{"c", "c comment", "c 1 2 0", "c p cnf 1 1", "cc 1 0", "c\t-1 0", "  c indented 3 0"}); if (n > 0 && r.chance(1, 3)) { o += eol; o += r.pick(std::vector<std::string>{"cw ", "co "}); bool w = o[o.size() - 2] == 'w'; o += std::to_string(r.range(1, n)) + " " + (w ? r.pick(std::vector<std::string>{"1", "2.5", "0", "1e3"}) : r.pick(std::vector<std::string>{"x", "y_1", "p"})); } else if (r.chance(1, 4)) { o += eol; o += r.pick(std::vector<std::string>{"cw", "co", "cw x 1", "co 0 a", "cw 1", "co -1 b", "cw 1 abc", "cost of things", "co 1 a b"}); } o += eol; };
  auto num = [&](int l) { std::string s = std::to_string(l); if (fancy && l > 0 && r.chance(1, 20)) s = "+" + s; if (fancy && r.chance(1, 30)) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, "00"); return s; };
  while (fancy && r.chance(1, 3)) comment();
  if (!fancy || r.chance(5, 6)) { o += "p cnf " + std::string(fancy && r.chance(1, 4) ? "  " : "") + std::to_string(fancy && r.chance(1, 8) ? r.range(0, n) : n) + " " + std::to_string(fancy && r.chance(1, 6) ? r.range(0, 9) : (long long)cs.size()) + (fancy && r.chance(1, 4) ? "  " : "") + eol; }
  for (size_t i = 0; i < cs.size(); i++) {
    if (fancy && r.chance(1, 8)) comment(); if (fancy && r.chance(1, 12)) o += r.chance(1, 2) ? eol : std::string("  \t ") + eol;
    bool start = o.empty() || o.back() == '\n'; if (fancy && start && r.chance(1, 8)) o += "  ";
    for (int l : cs[i]) { o += num(l); if (style == 1 && r.chance(1, 4)) { o += eol; if (fancy && r.chance(1, 5)) comment(); } else o += fancy && r.chance(1, 6) ? (r.chance(1, 2) ? "\t" : "   ") : " "; }
    bool last = i + 1 == cs.size(); if (!(last && fancy && !cs[i].empty() && r.chance(1, 6))) o += fancy && r.chance(1, 40) ? "00" : fancy && r.chance(1, 40) ? "-0" : "0";
    if (last && r.chance(1, 4)) break;
    if (style == 2 && r.chance(2, 3)) o += " "; else { o += fancy && r.chance(1, 10) ? " " : ""; o += eol; } }
  if (fancy && r.chance(1, 6)) { if (!o.empty() && o.back() != '\n') o += eol; o += r.chance(1, 2) ? "%\n0\n" : "%\n0\n\nrubbish 1 2 0\n"; }
  return o; }
inline std::string xz(const std::string& s, int preset, lzma_check chk) { std::string o(s.size() + s.size() / 2 + 4096, 0); size_t pos = 0; if (lzma_easy_buffer_encode((uint32_t)preset, chk, nullptr, (const uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &pos, o.size()) != LZMA_OK) throw std::runtime_error("xz"); o.resize(pos); return o; }
inline std::string bz2(const std::string& s, int block) { std::string o(s.size() + s.size() / 2 + 4096, 0); unsigned n = (unsigned)o.size(); if (BZ2_bzBuffToBuffCompress(&o[0], &n, const_cast<char*>(s.data()), (unsigned)s.size(), block, 0, 0) != BZ_OK) throw std::runtime_error("bz2"); o.resize(n); return o; }
struct Packed { std::string bytes; std::vector<size_t> borders; };
// kind: 0 plain, 1 xz, 2 bz2; the text is cut into `streams` pieces compressed one by one
inline Packed pack(const std::string& text, int kind, int streams, uint64_t seed) {
  pbt::Rng r(seed); Packed p; if (kind == 0) { p.bytes = text; return p; }
  std::vector<size_t> cut{0}; for (int i = 1; i < streams; i++) cut.push_back((size_t)r.range(0, (long long)text.size())); cut.push_back(text.size()); std::sort(cut.begin(), cut.end());
  for (size_t i = 0; i + 1 < cut.size(); i++) { auto piece = text.substr(cut[i], cut[i + 1] - cut[i]); p.bytes += kind == 1 ? xz(piece, (int)r.range(0, 1), r.pick(std::vector<lzma_check>{LZMA_CHECK_CRC32, LZMA_CHECK_CRC64})) : bz2(piece, (int)r.range(1, 2)); p.borders.push_back(p.bytes.size()); }
  return p; }
inline const char* suffix(int kind) { return kind == 1 ? ".cnf.xz" : kind == 2 ? ".cnf.bz2" : ".cnf"; }
inline void write(const std::string& path, const std::string& bytes) { std::ofstream(path, std::ios::binary) << bytes; }
}
