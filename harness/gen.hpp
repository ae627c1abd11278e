// Generators of formulas and solver options.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <algorithm>
namespace gen {
using pbt::Rng; using ref::Clause; using Cnf = std::vector<Clause>;

inline int lit(Rng& r, int n) { int v = (int)r.range(1, n); return r.chance(1, 2) ? v : -v; }
inline Clause distinct(Rng& r, int n, int k) { Clause c; k = std::min(k, n); while ((int)c.size() < k) { int l = lit(r, n); bool in = false; for (int x : c) in |= std::abs(x) == std::abs(l); if (!in) c.push_back(l); } return c; }

struct Formula { int n; Cnf cs; std::string kind; };

inline Formula random_ksat(Rng& r, int n, double ratio, int k) { Formula f{n, {}, "k" + std::to_string(k) + "sat"}; int m = (int)(n * ratio + 0.5); for (int i = 0; i < m; i++) f.cs.push_back(distinct(r, n, k)); return f; }
inline Formula mixed(Rng& r, int n) {
  Formula f{n, {}, "mixed"}; int m = (int)r.range(1, 5 * n); int style = (int)r.range(0, 3);
  for (int i = 0; i < m; i++) { int k; switch (style) { case 0: k = (int)r.range(1, 4); break; case 1: k = r.chance(1, 12) ? 1 : (int)r.range(2, 3); break; case 2: k = (int)r.range(2, 6); break; default: k = r.chance(4, 5) ? 2 : (int)r.range(3, 7); } f.cs.push_back(distinct(r, n, k)); }
  return f; }
inline Formula php(int p, int h) { Formula f{p * h, {}, "php"}; auto v = [&](int i, int j) { return i * h + j + 1; };
  for (int i = 0; i < p; i++) { Clause c; for (int j = 0; j < h; j++) c.push_back(v(i, j)); f.cs.push_back(c); }
  for (int j = 0; j < h; j++) for (int i = 0; i < p; i++) for (int k = i + 1; k < p; k++) f.cs.push_back({-v(i, j), -v(k, j)}); return f; }
inline Formula parity(Rng& r, int n) { // random xor constraints over triples
  Formula f{n, {}, "parity"}; int m = (int)r.range(n / 2, n + 2); for (int i = 0; i < m; i++) { Clause t = distinct(r, n, 3); if ((int)t.size() < 3) continue; bool b = r.chance(1, 2);
    for (int s = 0; s < 8; s++) if ((__builtin_popcount(s) & 1) == b) { Clause c; for (int j = 0; j < 3; j++) { int v = std::abs(t[j]); c.push_back((s >> j) & 1 ? -v : v); } f.cs.push_back(c); } } return f; }
inline Formula coloring(Rng& r, int nodes, int colors) { Formula f{nodes * colors, {}, "coloring"}; auto v = [&](int i, int c) { return i * colors + c + 1; };
  for (int i = 0; i < nodes; i++) { Clause c; for (int k = 0; k < colors; k++) c.push_back(v(i, k)); f.cs.push_back(c); }
  for (int i = 0; i < nodes; i++) for (int j = i + 1; j < nodes; j++) if (r.chance(1, 2)) for (int k = 0; k < colors; k++) f.cs.push_back({-v(i, k), -v(j, k)}); return f; }
inline Formula chains(Rng& r, int n) { // long implication chains closing on themselves, with a few side clauses
  Formula f{n, {}, "chains"}; std::vector<int> p; for (int i = 1; i <= n; i++) p.push_back(r.chance(1, 2) ? i : -i); r.shuffle(p);
  for (int i = 0; i + 1 < n; i++) { if (r.chance(1, 8)) continue; if (i >= 1 && r.chance(1, 3)) f.cs.push_back({-p[i], -p[r.range(0, i - 1)], p[i + 1]}); else f.cs.push_back({-p[i], p[i + 1]}); }
  int extra = (int)r.range(1, n); for (int i = 0; i < extra; i++) f.cs.push_back(distinct(r, n, (int)r.range(2, 4))); if (r.chance(1, 2)) f.cs.push_back({p[0]}); return f; }
inline void permute(Rng& r, Formula& f) { std::vector<int> m(f.n + 1); for (int i = 0; i <= f.n; i++) m[i] = i; std::vector<int> q(m.begin() + 1, m.end()); r.shuffle(q); std::vector<int> sg; for (int i = 0; i < f.n; i++) sg.push_back(r.chance(1, 2) ? 1 : -1);
  for (auto& c : f.cs) { for (int& l : c) { int v = std::abs(l); int w = q[v - 1] * sg[v - 1]; l = l > 0 ? w : -w; } r.shuffle(c); } r.shuffle(f.cs); }
// Formulas of at most maxn variables.
inline Formula formula(Rng& r, int maxn) {
  Formula f; int n = (int)r.range(1, maxn);
  switch (r.range(0, 9)) {
    case 0: case 1: f = mixed(r, n); break;
    case 2: case 3: case 4: f = random_ksat(r, std::max(3, n), 3.6 + 1.4 * r.unit(), 3); break;
    case 5: { int h = 2; while ((h + 2) * (h + 1) <= maxn && h < 5 && r.chance(2, 3)) h++; int p = h + 1; if (p * h > maxn) f = mixed(r, n); else f = php(p - (r.chance(1, 6) ? 1 : 0), h); break; }
    case 6: f = parity(r, std::max(3, std::min(n, 14))); break;
    case 7: { int c = (int)r.range(2, 3); f = coloring(r, std::max(1, std::min(maxn / c, 8)), c); break; }
    case 8: f = chains(r, std::max(2, n)); break;
    default: f = random_ksat(r, std::max(2, n), 1.0 + 1.2 * r.unit(), 2); for (int i = (int)r.range(0, n); i > 0; i--) f.cs.push_back(distinct(r, f.n, 3)); f.kind = "2sat+"; }
  permute(r, f); return f; }

// Harder formulas: hundreds to thousands of conflicts.
inline Formula hard(Rng& r, int size) {
  Formula f;
  switch (r.range(0, 5)) {
    case 0: { int h = (int)r.range(4, 6); f = php(h + 1, h); if (r.chance(1, 4)) f.cs.erase(f.cs.begin() + r.range(0, f.cs.size() - 1)); break; }
    case 1: { int h = (int)r.range(5, 6); f = php(h + 1, h); f.kind = "php+"; for (int i = (int)r.range(1, 6); i > 0; i--) f.cs.push_back(distinct(r, f.n, (int)r.range(2, 4))); break; }
    case 2: f = parity(r, (int)r.range(12, 24 + size / 10)); break;
    case 3: { f = coloring(r, (int)r.range(8, 12), 3); break; }
    default: f = random_ksat(r, (int)r.range(60, 90 + size / 2), 4.0 + 0.5 * r.unit(), 3); }
  permute(r, f); f.kind = "hard"; return f; }

// Few clauses and many conflicts: the learned clauses outnumber the given ones, so clauses are deleted and their slots
// used again. Often satisfiable through extra literals, so that the history can go on afterwards.
inline Formula deep(Rng& r, bool small) {
  Formula f; int k = (int)r.range(0, 9); if (small && k >= 7 && k < 9) k = 0; if (k < 7) f = php(6, 5); else if (k < 9) f = php(7, 6); else f = php(5, 4); f.kind = "deep";
  if (r.chance(1, 5)) f.cs.erase(f.cs.begin() + r.range(0, (long long)f.cs.size() - 1));
  if (r.chance(2, 3)) { int extra = (int)r.range(1, 3), b = f.n; f.n += extra; for (auto& c : f.cs) if (c.size() > 2) for (int j = (int)r.range(1, r.chance(1, 4) ? 2 : 1); j > 0; j--) c.push_back(b + (int)r.range(1, extra)); }
  for (int j = (int)r.range(0, 3); j > 0; j--) f.cs.push_back(distinct(r, f.n, (int)r.range(3, 7)));
  permute(r, f); f.kind = "deep"; return f; }

// Backtracking strategies and their modifiers.
inline std::string strategy(Rng& r) {
  static const std::vector<std::string> base = {"", "-cb", "-lscb", "-gb", "-gb", "-gb -lcm", "-gb -ecm", "-gb -bsc", "-gb -bfc", "-gb -bl", "-gb -lcm -bl", "-gb -ecm -bl", "-gb -lcm -bsc", "-gb -ecm -bfc",
#ifdef NDEBUG  // the debug build asserts that the approximate costs are exact (DESIGN.md, findings)
    "-gb -max-approx-cost", "-gb -sum-approx-cost", "-gb -vsids-approx-cost"
#endif
  };
  // contradictory requests, which the option parser resolves
  static const std::vector<std::string> odd = {"-gb -lscb", "-gb -lscb -lcm", "-gb -cb", "-cb -lscb", "-gb -lcm -ecm", "-gb -lscb -ecm -bl", "-gb -bsc -bfc", "-lcm -bl", "-lscb -ecm", "-gb off -cb", "-gb -cb -lscb -bl"};
  return (r.chance(1, 12) ? "fields " : "") + (r.chance(1, 12) ? r.pick(odd) : r.pick(base)); }
inline std::string heuristics(Rng& r) {
  std::string s;
  auto add = [&](const std::string& t) { s += " " + t; };
  if (r.chance(1, 3)) add("-del off");
  if (r.chance(1, 3)) add("--restarts off");
  if (r.chance(1, 4)) add("--var-activity-decay " + r.pick(std::vector<std::string>{"0.5", "0.99", "0.01", "0.0001"}));
  if (r.chance(1, 4)) add("--clause-elimination-multiplier " + r.pick(std::vector<std::string>{"1.1", "1.5", "1.001", "8"}));
  if (r.chance(1, 5)) add("--clause-activity-multiplier " + r.pick(std::vector<std::string>{"1.2", "1.01", "50", "100000"}));
  if (r.chance(1, 5)) add("--clause-activity-threshold-decay " + r.pick(std::vector<std::string>{"0.5", "0.99", "0.01"}));
  if (r.chance(1, 5)) add("--chunk-level-penalty " + std::string(r.chance(1, 2) ? "0" : "3"));
  if (r.chance(1, 5)) add("--backtrack-possibilities-limit " + std::string(r.chance(1, 2) ? "1" : "4"));
  if (r.chance(1, 5)) add("--sync-weight " + std::string(r.chance(1, 2) ? "0" : "50"));
  return s; }
inline std::string show(const Clause& c) { std::string s; for (int l : c) s += " " + std::to_string(l); return s; }
}
