// Reference decision procedures, independent of the code under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <set>

namespace ref {
using Clause = std::vector<int>;

// Truth table over n <= 14 variables: bit a set <=> assignment a satisfies everything added so far.
struct Table {
  int n; std::vector<uint64_t> t;
  explicit Table(int n_) : n(n_), t((size_t)1 << (n_ > 6 ? n_ - 6 : 0), ~0ull) { if (n < 6) t[0] = (1ull << (1 << n)) - 1; }
  static uint64_t pat(int v) { static const uint64_t m[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull}; return m[v]; }
  uint64_t lit(int l, size_t w) const { int v = std::abs(l) - 1; uint64_t x = v < 6 ? pat(v) : ((w >> (v - 6)) & 1 ? ~0ull : 0); return l > 0 ? x : ~x; }
  void add(const Clause& c) { for (size_t w = 0; w < t.size(); w++) { uint64_t x = 0; for (int l : c) x |= lit(l, w); t[w] &= x; } }
  bool sat() const { for (auto w : t) if (w) return true; return false; }
  bool sat_with(const std::vector<int>& as) const { for (size_t w = 0; w < t.size(); w++) { uint64_t x = t[w]; for (int l : as) x &= lit(l, w); if (x) return true; } return false; }
  bool implies(const Clause& c) const { std::vector<int> neg; for (int l : c) neg.push_back(-l); return !sat_with(neg); }
  uint64_t count() const { uint64_t r = 0; for (auto w : t) r += __builtin_popcountll(w); return r; }
};

// A plain CDCL solver (two watched literals, first UIP, no deletion, no restarts).
struct Cdcl {
  int n; std::vector<Clause> cl; std::vector<std::vector<int>> watch; std::vector<signed char> val; std::vector<int> level, reason, trail, lim; std::vector<double> act; double inc = 1; size_t qhead = 0; bool ok = true; long conflicts = 0;
  static int idx(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
  explicit Cdcl(int n_) : n(n_), watch(2 * n_ + 2), val(n_ + 1, 0), level(n_ + 1, 0), reason(n_ + 1, -1), act(n_ + 1, 0) {}
  int value(int l) const { int v = val[std::abs(l)]; return l > 0 ? v : -v; }
  void assign(int l, int r) { val[std::abs(l)] = l > 0 ? 1 : -1; level[std::abs(l)] = (int)lim.size(); reason[std::abs(l)] = r; trail.push_back(l); }
  void add(Clause c) {
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return;
    if (c.empty()) { ok = false; return; }
    cancel(0);
    if (c.size() == 1) { if (value(c[0]) < 0) ok = false; else if (!value(c[0])) assign(c[0], -1); return; }
    // put non-false literals first
    std::stable_sort(c.begin(), c.end(), [&](int a, int b) { return (value(a) < 0) < (value(b) < 0); });
    if (value(c[0]) < 0) { ok = false; return; }
    attach(c); if (value(c[1]) < 0 && !value(c[0])) assign(c[0], (int)cl.size() - 1);
  }
  void attach(const Clause& c) { cl.push_back(c); watch[idx(c[0])].push_back((int)cl.size() - 1); watch[idx(c[1])].push_back((int)cl.size() - 1); }
  void cancel(int lv) { if ((int)lim.size() <= lv) return; while ((int)trail.size() > lim[lv]) { val[std::abs(trail.back())] = 0; trail.pop_back(); } lim.resize(lv); qhead = trail.size(); if (lv == 0) qhead = 0; }
  int propagate() {
    while (qhead < trail.size()) {
      int p = -trail[qhead++]; auto& ws = watch[idx(p)]; size_t j = 0;
      for (size_t i = 0; i < ws.size(); i++) {
        int ci = ws[i]; Clause& c = cl[ci];
        if (c[0] == p) std::swap(c[0], c[1]);
        if (value(c[0]) > 0) { ws[j++] = ci; continue; }
        bool moved = false;
        for (size_t k = 2; k < c.size(); k++) if (value(c[k]) >= 0) { std::swap(c[1], c[k]); watch[idx(c[1])].push_back(ci); moved = true; break; }
        if (moved) continue;
        ws[j++] = ci;
        if (value(c[0]) < 0) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); return ci; }
        assign(c[0], ci);
      }
      ws.resize(j);
    }
    return -1;
  }
  bool solve(const std::vector<int>& assumptions = {}, long max_conflicts = -1) {
    if (!ok) return false;
    cancel(0); qhead = 0;
    while (true) {
      int confl = propagate();
      if (confl >= 0) {
        if (max_conflicts >= 0 && ++conflicts > max_conflicts) { gave_up = true; return false; }
        if (lim.empty()) { ok = false; return false; }
        std::vector<char> seen(n + 1, 0); Clause learnt(1); int cnt = 0, bt = 0; size_t i = trail.size(); int ci = confl; int p = 0;
        do { for (int q : cl[ci]) { if (q == p) continue; int v = std::abs(q); if (!seen[v] && level[v] > 0) { seen[v] = 1; if ((act[v] += inc) > 1e100) { for (auto& x : act) x *= 1e-100; inc *= 1e-100; } if (level[v] == (int)lim.size()) cnt++; else { learnt.push_back(q); bt = std::max(bt, level[v]); } } }
          while (!seen[std::abs(trail[--i])]) {} p = trail[i]; ci = reason[std::abs(p)]; seen[std::abs(p)] = 0; cnt--; } while (cnt > 0);
        inc /= 0.95; learnt[0] = -p; cancel(bt);
        if (learnt.size() == 1) assign(learnt[0], -1);
        else { for (size_t k = 2; k < learnt.size(); k++) if (level[std::abs(learnt[k])] > level[std::abs(learnt[1])]) std::swap(learnt[1], learnt[k]); attach(learnt); assign(learnt[0], (int)cl.size() - 1); }
        continue;
      }
      int next = 0;
      while (lim.size() < assumptions.size()) { int a = assumptions[lim.size()]; if (value(a) > 0) lim.push_back((int)trail.size()); else if (value(a) < 0) return false; else { next = a; break; } }
      if (!next) { double best = -1; for (int v = 1; v <= n; v++) if (!val[v] && act[v] > best) { best = act[v]; next = -v; } }
      if (!next) return true;
      lim.push_back((int)trail.size()); assign(next, -1);
    }
  }
  bool gave_up = false;
};

inline bool sat(int n, const std::vector<Clause>& cs, const std::vector<int>& as = {}) {
  if (n <= 11) { Table t(n); for (auto& c : cs) t.add(c); return t.sat_with(as); }
  Cdcl s(n); for (auto& c : cs) s.add(c); return s.solve(as);
}
}
