// A thin, uniform way for the harness to drive one NapSAT instance.
#pragma once
#include "SAT-API.hpp"
#include "SAT-options.hpp"
#include "SAT-types.hpp"
#include "Sentinel-API.hpp"
#include "pbt.hpp"
#include "ref.hpp"
namespace sut {
inline napsat::Tlit L(int l) { return napsat::Tlit(napsat::Tvar((unsigned)std::abs(l)), (unsigned)(l > 0)); }
inline int I(napsat::Tlit l) { int v = (int)l.var().value; return l.pol() ? v : -v; }
inline int I(unsigned raw) { int v = (int)(raw >> 1); return (raw & 1) ? v : -v; }
struct Solver {
  napsat::NapSAT* s = nullptr; napsat::options o; sentinel::SATSentinel* sent = nullptr;
  static napsat::options parse(std::vector<std::string> tokens) { napsat::env::set_suppress_info(true); napsat::env::set_suppress_warning(true); bool direct = !tokens.empty() && tokens[0] == "fields"; if (direct) tokens.erase(tokens.begin());
    // "fields": the strategy is chosen by setting the fields of the options, as a program using the library does
    std::vector<std::string> rest; napsat::options d; if (direct) { std::vector<std::pair<const char*, bool napsat::options::*>> f{{"-cb", &napsat::options::chronological_backtracking}, {"-lscb", &napsat::options::lazy_strong_chronological_backtracking}, {"-gb", &napsat::options::graph_backtracking}, {"-lcm", &napsat::options::lazy_chunk_merging}, {"-ecm", &napsat::options::eager_chunk_merging}, {"-bsc", &napsat::options::backtrack_smallest_chunk}, {"-bfc", &napsat::options::backtrack_first_chunk}, {"-bl", &napsat::options::backtrack_learned}, {"-max-approx-cost", &napsat::options::use_max_approximate_cost_estimation}, {"-sum-approx-cost", &napsat::options::use_sum_approximate_cost_estimation}, {"-vsids-approx-cost", &napsat::options::use_vsids_approximate_cost_estimation}};
      for (auto& t : tokens) { bool hit = false; for (auto& [k, m] : f) if (t == k) { d.*m = true; hit = true; } if (!hit) rest.push_back(t); } tokens = rest; }
    napsat::options o(tokens); if (direct) { o.chronological_backtracking = d.chronological_backtracking; o.lazy_strong_chronological_backtracking = d.lazy_strong_chronological_backtracking; o.graph_backtracking = d.graph_backtracking; o.lazy_chunk_merging = d.lazy_chunk_merging; o.eager_chunk_merging = d.eager_chunk_merging; o.backtrack_smallest_chunk = d.backtrack_smallest_chunk; o.backtrack_first_chunk = d.backtrack_first_chunk; o.backtrack_learned = d.backtrack_learned; o.use_max_approximate_cost_estimation = d.use_max_approximate_cost_estimation; o.use_sum_approximate_cost_estimation = d.use_sum_approximate_cost_estimation; o.use_vsids_approximate_cost_estimation = d.use_vsids_approximate_cost_estimation; }
    o.save_state_on_interrupt = false; return o; }
  Solver(const std::string& tokens, unsigned nvar = 0, sentinel::Listener* l = nullptr, unsigned ncl = 0) : o(parse(pbt::split(tokens))) {
    sentinel::last_sentinel = nullptr;
    if (l) { sentinel::next_listener = l; o.observing = true; }
    s = napsat::create_solver(nvar, ncl, o); sentinel::next_listener = nullptr; sent = sentinel::last_sentinel; }
  Solver(const Solver&) = delete;
  ~Solver() { if (s) napsat::delete_solver(s); }
  napsat::Tclause handle; // of the clause added last
  operator napsat::NapSAT*() { return s; }
  void add(const ref::Clause& c) { std::vector<napsat::Tlit> v; v.reserve(c.size() + 1); for (int l : c) v.push_back(L(l)); handle = napsat::add_clause(s, v.data(), (unsigned)v.size()); }
  void push(const ref::Clause& c) { napsat::start_new_clause(s); for (int l : c) napsat::push_literal(s, L(l)); handle = napsat::finalize_clause(s); }
  int value(int var) const { napsat::Tval t = napsat::get_variable_value(s, (unsigned)var); return t == napsat::Tval::TRUE ? 1 : t == napsat::Tval::FALSE ? -1 : 0; }
  std::vector<int> trail() const { std::vector<int> v; for (auto l : napsat::get_partial_assignment(s)) v.push_back(I(l)); return v; }
};
inline std::string st(napsat::status s) { return napsat::status_to_string(s); }
inline std::string show(const ref::Clause& c) { std::string r; for (int l : c) r += (r.empty() ? "" : " ") + std::to_string(l); return "[" + r + "]"; }
// A total model of the variables 1..n that satisfies cs, and a trail that says the same.
inline void check_model(Solver& s, const std::vector<ref::Clause>& cs, int n, bool total = true) {
  std::vector<int> tr = s.trail(); std::set<int> vars;
  for (int l : tr) { CHECK_THAT(l != 0, "the trail contains variable 0"); CHECK_THAT(vars.insert(std::abs(l)).second, "variable " << std::abs(l) << " is twice on the trail"); CHECK_THAT(s.value(std::abs(l)) == (l > 0 ? 1 : -1), "literal " << l << " is on the trail but its variable has value " << s.value(std::abs(l))); }
  if (total) for (int v = 1; v <= n; v++) { CHECK_THAT(s.value(v) != 0, "SAT but variable " << v << " has no value"); CHECK_THAT(vars.count(v), "SAT but variable " << v << " is not on the trail"); }
  for (auto& c : cs) { bool ok = false; for (int l : c) for (int m : c) ok |= !total && l == -m; for (int l : c) ok |= s.value(std::abs(l)) == (l > 0 ? 1 : -1); CHECK_THAT(ok, "the model does not satisfy clause " << show(c)); }
  // Without the unused variables: the variables of every clause that is neither a tautology nor satisfied by a fact count.
  if (!total) for (auto& c : cs) { bool moot = false; for (int l : c) { for (int m : c) moot |= l == -m; moot |= s.value(std::abs(l)) == (l > 0 ? 1 : -1) && napsat::is_root_level(s, (unsigned)std::abs(l)); }
    if (!moot) for (int l : c) CHECK_THAT(s.value(std::abs(l)) != 0, "SAT but variable " << std::abs(l) << " of clause " << show(c) << " has no value"); }
}
}
