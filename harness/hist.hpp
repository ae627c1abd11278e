// Histories: a textual language of API calls on one solver, and its interpreter.
//   o <options>         options of the solver              n <k>        variables given to create_solver
//   a <lits> / p <lits> add a clause in one call / literal by literal
//   new                 new_variable                       solve        solve
//   lim <k>             solve_limited(k)                   sync         synchronize
//   prop                propagate (if undetermined)        dl <lit>     propagate, then decide <lit> if it is free
//   dec                 propagate, then decide             blk          block the current model
//   w <kind> <seed>     set_weight_function                sug <lit> [1|-1]  suggest_polarity
// The reference keeps the accumulated clause set.
#pragma once
#include "gen.hpp"
#include "sut.hpp"
#include <memory>
namespace hist {
using pbt::Case; using pbt::Ctx; using pbt::split; using pbt::to_int; using ref::Clause;

inline std::vector<int> ints(const std::vector<std::string>& t, size_t from = 1) { std::vector<int> k; long long v; for (size_t i = from; i < t.size(); i++) if (to_int(t[i], v) && v && std::llabs(v) < 100000000) k.push_back((int)v); return k; }
inline std::string options_of(const Case& c) { std::string o; for (auto& l : c) { auto t = split(l); if (!t.empty() && t[0] == "o") o = l.substr(l.find('o') + 1); } return o; }
inline int declared_of(const Case& c) { int n = 0; long long v; for (auto& l : c) { auto t = split(l); if (t.size() > 1 && t[0] == "n" && to_int(t[1], v) && v >= 0 && v < 100000000) n = (int)v; } return n; }

struct Hist {
  sut::Solver s; int n; std::vector<Clause> cs; bool unsat = false, iuv;
  bool contradictory = false;  // the reference already knows cs to be unsatisfiable
  std::unique_ptr<ref::Table> table; int solves = 0, sats = 0, unsats = 0, unknowns = 0, added_after_solve = 0;
  Hist(const Case& c, const std::string& more = "", sentinel::Listener* l = nullptr) : s(options_of(c) + more, (unsigned)declared_of(c), l), n(declared_of(c)), iuv(s.o.ignore_unused_variables) {}
  bool expect() const { if (contradictory) return false; return ref::sat(std::max(n, 1), cs); }
  void note(const Clause& k) { for (int q : k) n = std::max(n, std::abs(q)); cs.push_back(k); if (solves) added_after_solve++; }
  napsat::status state() { return napsat::get_status(s); }
  // The answer `st` must be the truth about the accumulated clauses (UNKNOWN only where `may_stop`).
  void check_answer(napsat::status st, bool may_stop, bool with_model = true) {
    using napsat::status; bool e = expect();
    if (st == status::UNKNOWN && may_stop) { unknowns++; return; }
    CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << " but the accumulated clauses are " << (e ? "satisfiable" : "unsatisfiable"));
    if (e) { sats++; if (with_model) sut::check_model(s, cs, n, !iuv); } else { unsats++; contradictory = true; }
  }
  void check_status(const std::string& after) {
    using napsat::status; status st = state();
    if (unsat) CHECK_THAT(st == status::UNSAT, "the status became " << sut::st(st) << " after UNSAT was established, at: " << after);
    if (st == status::UNSAT && !unsat) { CHECK_THAT(!expect(), "status UNSAT for a satisfiable clause set, at: " << after); unsat = contradictory = true; }
  }
  static double weight(int kind, uint64_t seed, napsat::Tlit l) {
    uint64_t h = pbt::mix(seed, l.var().value); switch (kind) { case 0: return 0; case 1: return 1; case 2: return (double)(h % 5); case 3: return (double)(h % 1000) / 7.0; case 4: return 1e6; default: return (double)l.var().value; } }
  // Executes one line. Returns false if it is not an operation.
  bool step(const std::string& l) {
    auto t = split(l); if (t.empty()) return false; using napsat::status; long long v = 0;
    const std::string& k = t[0];
    if (k == "a" || k == "p") { auto c = ints(t); note(c); if (k == "a") s.add(c); else s.push(c); }
    else if (k == "new") { int q = (int)napsat::new_variable(s).value; CHECK_THAT(q == n + 1, "new_variable returned " << q << " with " << n << " variables"); n = q; }
    else if (k == "solve") { auto st = napsat::solve(s); solves++; CHECK_THAT(st == state(), "solve returned " << sut::st(st) << " but the status is " << sut::st(state())); check_answer(st, false); }
    else if (k == "lim") { if (t.size() < 2 || !to_int(t[1], v) || v < 0) return false; auto st = napsat::solve_limited(s, (unsigned)v); solves++; CHECK_THAT(st == state(), "solve_limited returned " << sut::st(st) << " but the status is " << sut::st(state())); check_answer(st, true); }
    else if (k == "sync") napsat::synchronize(s);
    else if (k == "prop") { if (state() == status::UNKNOWN) napsat::propagate(s); }
    else if (k == "dec") { if (state() == status::UNKNOWN && napsat::propagate(s)) napsat::decide(s); }
    else if (k == "dl") { auto c = ints(t); if (c.empty() || std::abs(c[0]) > n) return false; if (state() == status::UNKNOWN && napsat::propagate(s) && s.value(std::abs(c[0])) == 0) napsat::decide(s, sut::L(c[0])); }
    else if (k == "blk") { if (state() != status::SAT) return true; Clause b; for (int q : s.trail()) b.push_back(-q); if (b.empty()) return true; note(b); s.add(b); }
    else if (k == "w") { auto c = split(l); long long kind = 0, seed = 0; if (c.size() > 2) { to_int(c[1], kind); to_int(c[2], seed); } napsat::set_weight_function(s, [kind, seed](napsat::Tlit q) { return weight((int)kind, (uint64_t)seed, q); }); }
    else if (k == "sug") { auto c = ints(t); if (c.empty() || std::abs(c[0]) > n) return false; napsat::suggest_polarity(s, sut::L(c[0]), c.size() > 1 ? c[1] > 0 : c[0] > 0); }
    else return false;
    return true;
  }
};

// --- generation ---------------------------------------------------------------------------------
inline bool gb(const std::string& o) { return o.find("-gb") != std::string::npos; }
// Keep the cost of graph backtracking on hand-driven histories bounded.
inline int cap(const std::string& o, int n) { return gb(o) ? std::min(n, 16) : n; }
inline std::string header(pbt::Rng& r, Case& c, bool heur, const std::string& more = "") { std::string o = gen::strategy(r); if (heur) o += gen::heuristics(r); o += more; c.push_back("o " + o); return o; }
inline std::string line(const char* k, const Clause& c) { return k + gen::show(c); }
inline void declare(pbt::Rng& r, Case& c, int n) { switch (r.range(0, 3)) { case 0: c.push_back("n 0"); break; case 1: c.push_back("n " + std::to_string(r.range(0, n))); break; case 2: c.push_back("n " + std::to_string(n)); break; default: c.push_back("n " + std::to_string(n + r.range(0, 4))); } }
inline const char* how(pbt::Rng& r) { return r.chance(1, 4) ? "p" : "a"; }
// Presentation noise: repeated literals and clauses, tautologies.
inline Clause noisy(pbt::Rng& r, Clause c, int n, bool same_meaning = false) {
  if (r.chance(1, 3) && !c.empty()) for (int k = (int)r.range(1, 3); k > 0; k--) c.insert(c.begin() + r.range(0, c.size()), r.pick(c));
  if (!same_meaning && r.chance(1, 12) && !c.empty()) c.insert(c.begin() + r.range(0, c.size()), -r.pick(c));
  if (!same_meaning && r.chance(1, 12) && n > 0) { int l = gen::lit(r, n); c.push_back(l); c.push_back(-l); }
  r.shuffle(c); return c; }
struct Mix { int solve = 2, lim = 0, blk = 1, fresh = 1, sync = 1, prop = 1, dec = 0, dl = 0, w = 0, sug = 0; };
inline void op(pbt::Rng& r, Case& c, const Mix& m, int n) {
  int tot = m.solve + m.lim + m.blk + m.fresh + m.sync + m.prop + m.dec + m.dl + m.w + m.sug; int x = (int)r.range(0, tot - 1);
  auto take = [&](int k) { if (x < k) { x = 1 << 20; return true; } x -= k; return false; };
  if (take(m.solve)) c.push_back("solve"); else if (take(m.lim)) c.push_back("lim " + std::to_string(r.range(0, 6))); else if (take(m.blk)) c.push_back("blk"); else if (take(m.fresh)) c.push_back("new");
  else if (take(m.sync)) c.push_back("sync"); else if (take(m.prop)) c.push_back("prop"); else if (take(m.dec)) c.push_back("dec"); else if (take(m.dl)) c.push_back("dl " + std::to_string(gen::lit(r, n)));
  else if (take(m.w)) c.push_back("w " + std::to_string(r.range(0, 5)) + " " + std::to_string(r.range(0, 999))); else if (take(m.sug)) c.push_back("sug " + std::to_string(gen::lit(r, n))); }
// A history in which clauses are deleted: a formula with many conflicts, then answers, limits, decisions and more clauses.
inline Case deep_history(pbt::Rng& r, bool heur, const Mix& m, const std::string& more) {
  Case c; std::string o; do { o = gen::strategy(r) + (heur ? gen::heuristics(r) : std::string()); } while (o.find("-del off") != std::string::npos); if (r.chance(2, 3)) o += " --clause-elimination-multiplier " + r.pick(std::vector<std::string>{"1.001", "1.1"}); c.push_back("o " + o + more);
  auto f = gen::deep(r, gb(o)); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line(how(r), cl));
  for (int rounds = (int)r.range(1, 6); rounds > 0; rounds--) { for (int k = (int)r.range(0, 2); k > 0; k--) op(r, c, m, f.n); if (r.chance(2, 3)) c.push_back("lim " + std::to_string(r.range(1, r.chance(1, 2) ? 40 : 300))); else c.push_back("solve"); for (int k = (int)r.range(0, 2); k > 0; k--) c.push_back(line(how(r), gen::distinct(r, f.n, (int)r.range(2, 8)))); if (r.chance(1, 3)) for (int k = (int)r.range(1, 5); k > 0; k--) c.push_back(line(how(r), {gen::lit(r, f.n)})); if (r.chance(1, 4)) op(r, c, m, f.n); }
  c.push_back("solve"); return c; }
// A history in which decisions come first and each clause is chosen against them: falsified, unit, or a missed implication of a decision.
inline Case steered_history(pbt::Rng& r, bool heur, const Mix& m, const std::string& more) {
  static const std::vector<std::string> lazy = {"-gb -lcm", "-gb -lcm", "-gb -lcm -bl", "-gb -lcm -bsc", "-gb -lcm -bfc", "-lscb", "-gb", "-cb"};
  Case c; c.push_back("o " + (r.chance(3, 4) ? r.pick(lazy) : gen::strategy(r)) + (heur && r.chance(1, 2) ? gen::heuristics(r) : std::string()) + more); int n = (int)r.range(2, r.chance(1, 2) ? 5 : 9); c.push_back("n " + std::to_string(n));
  std::vector<int> free_vars, d; auto fresh = [&] { free_vars.clear(); d.clear(); for (int v = 1; v <= n; v++) free_vars.push_back(v); r.shuffle(free_vars); };
  for (int rounds = (int)r.range(1, 4); rounds > 0; rounds--) { fresh(); if (r.chance(1, 3)) c.push_back("lim 0");
    for (int k = (int)r.range(2, 2 * n + 3); k > 0; k--) {
      if (!free_vars.empty() && (d.empty() || r.chance(2, 5))) { int l = r.chance(1, 2) ? free_vars.back() : -free_vars.back(); free_vars.pop_back(); d.push_back(l); c.push_back("dl " + std::to_string(l)); continue; }
      Clause k2; int w = (int)r.range(1, 3); for (int j = 0; j < w; j++) { int l = r.pick(d); if (std::find(k2.begin(), k2.end(), -l) == k2.end()) k2.push_back(-l); }
      switch (r.range(0, 4)) { case 0: break;  // falsified
        case 1: if (!free_vars.empty()) { int v = r.pick(free_vars); k2.push_back(r.chance(1, 2) ? v : -v); } break;  // unit, or two or more free literals
        case 2: if (!free_vars.empty()) { int v = free_vars.back(), l = r.chance(1, 2) ? v : -v; free_vars.pop_back(); k2.push_back(l); d.push_back(l); } break;  // implies a literal that later clauses build on
        default: { int l = r.pick(d); if (std::find(k2.begin(), k2.end(), -l) == k2.end()) k2.push_back(l); } }  // implies a decision
      r.shuffle(k2); c.push_back(line(how(r), k2)); if (r.chance(1, 3)) c.push_back("prop"); else if (r.chance(1, 8)) op(r, c, m, n); }
    c.push_back(r.chance(1, 2) ? "solve" : "lim " + std::to_string(r.range(0, 4))); }
  c.push_back("solve"); return c; }
// A history over a formula of at most maxn variables.
inline Case history(pbt::Rng& r, int size, int maxn, bool heur, const Mix& m, const std::string& more = "", bool noise = true, int deep = 24) {
  if (deep && size >= 20 && r.chance(1, deep)) return deep_history(r, heur, m, more);
  if (m.dl && size >= 10 && r.chance(1, 8)) return steered_history(r, heur, m, more);
  Case c; std::string o = header(r, c, heur, more); int mx = std::max(2, cap(o, maxn * size / 100)); auto f = gen::formula(r, mx); declare(r, c, f.n);
  // some ready-made short clauses so that root-level units and falsified literals occur
  if (r.chance(1, 2)) for (int k = (int)r.range(0, f.n / 2 + 1); k > 0; k--) f.cs.insert(f.cs.begin() + r.range(0, f.cs.size()), gen::distinct(r, f.n, (int)r.range(1, 2)));
  // answers before any clause, possibly before any variable
  if (r.chance(1, 10)) { if (r.chance(1, 2)) c.back() = "n 0"; for (int k = (int)r.range(1, 3); k > 0; k--) c.push_back(r.chance(2, 3) ? "solve" : "new"); }
  int every = (int)r.range(1, std::max<int>(1, (int)f.cs.size())); int streak = 0; bool g = gb(o), started = false;
  for (auto& cl : f.cs) {
    c.push_back(line(how(r), noise ? noisy(r, cl, f.n) : cl)); streak++;
    bool force = g && started && streak >= 15;  // bounded batches between two answers in graph backtracking
    if (force) { c.push_back("solve"); streak = 0; }
    else if (r.chance(1, every)) { int k = (int)r.range(1, 3); while (k--) { op(r, c, m, f.n); if (c.back() == "solve") streak = 0; started = true; } }
  }
  c.push_back("solve");
  if (r.chance(1, 3)) for (int k = (int)r.range(1, 4); k > 0; k--) { c.push_back(line(how(r), gen::distinct(r, f.n, (int)r.range(1, std::min(3, f.n))))); op(r, c, m, f.n); if (r.chance(1, 2)) c.push_back("solve"); }
  if (r.chance(1, 25)) { c.push_back(r.chance(1, 2) ? "a" : "p"); c.push_back("solve"); }
  return c; }
}
