// Properties of what the solver tells its observer: a mirror of the solver's state, rebuilt from the notifications alone.
#include "hist.hpp"
#include "proofcheck.hpp"
#include <cmath>
#include <cstring>
using namespace pbt; using namespace hist; using napsat::status;
static const unsigned NONE = 0xFFFFFFFFu;

struct Mirror : sentinel::Listener {
  struct Cl { std::vector<int> lits; bool external = false; std::map<int, int> watch; /* watched literal -> blocker (0: none) */ };
  struct Var { int value = 0, level = -1; unsigned reason = NONE; bool propagated = false; };
  std::map<unsigned, Cl> live; std::map<int, Var> vars; std::vector<int> trail; std::string problem; Hist* h = nullptr; int decisions = 0; bool check_watches = false, check_levels = true, monotone = false, in_ncb = false, weak = false;
  long learned = 0, deleted = 0, shrunk = 0, checks = 0, unassigned = 0, decided = 0, implied = 0, updates = 0, unpropagated = 0, watched = 0; const std::vector<Clause>* given = nullptr; int limit = 10;
  unsigned announced = NONE; // the clause of the user announced last
  bool want_inv = true, want_mirror = true;
  void bad(const std::string& s) { if (want_mirror && problem.empty()) problem = s; }
  void broken(const std::string& s) { if (want_inv && problem.empty()) problem = s; }
  static std::string l2s(int l) { return std::to_string(l); }
  int val(int l) const { auto i = vars.find(std::abs(l)); if (i == vars.end()) return 0; return l > 0 ? i->second.value : -i->second.value; }
  int lev(int l) const { auto i = vars.find(std::abs(l)); return i == vars.end() ? -1 : i->second.level; }
  std::string show(unsigned cl) const { auto i = live.find(cl); return "clause " + std::to_string(cl) + (i == live.end() ? "" : " " + sut::show(i->second.lits)); }
  ref::Table table() const { int n = 1; if (given) for (auto& c : *given) for (int l : c) n = std::max(n, std::abs(l)); ref::Table t(n); if (given) for (auto& c : *given) t.add(c); return t; }
  int top() const { int n = 1; if (given) for (auto& c : *given) for (int l : c) n = std::max(n, std::abs(l)); return n; }

  void add_variable(unsigned v) override { if (!vars.emplace((int)v, Var()).second) bad("variable " + std::to_string(v) + " is announced twice"); }
  void add_clause(unsigned cl, const std::vector<unsigned>& ls, bool ext) override {
    if (live.count(cl)) bad("clause " + std::to_string(cl) + " is announced while " + show(cl) + " is still there"); Cl c; c.external = ext; for (unsigned l : ls) c.lits.push_back(sut::I(l));
    for (int l : c.lits) if (!vars.count(std::abs(l))) bad("the clause " + sut::show(c.lits) + " mentions a variable that was not announced");
    if (!ext) { learned++; if (given && top() <= limit) { if (!table().implies(c.lits)) bad("the learned clause " + sut::show(c.lits) + " does not follow from the clauses given"); } }
    live[cl] = c; if (ext) announced = cl; }
  void delete_clause(unsigned cl) override { if (!live.count(cl)) return bad("clause " + std::to_string(cl) + " is deleted but not there"); deleted++; for (auto& v : vars) if (v.second.value && v.second.reason == cl && v.second.level > 0) bad(show(cl) + " is deleted while it is the reason of variable " + std::to_string(v.first)); live.erase(cl); }
  void shrink_clause(unsigned cl, unsigned raw) override { int l = sut::I(raw); auto i = live.find(cl); if (i == live.end()) return bad("clause " + std::to_string(cl) + " is shrunk but not there"); shrunk++; auto& v = i->second.lits; auto f = std::find(v.begin(), v.end(), l); if (f == v.end()) return bad(l2s(l) + " is removed from " + show(cl)); if (val(l) != -1 || lev(l) != 0) bad(l2s(l) + " is removed from " + show(cl) + " but is not false at root level"); v.erase(f); i->second.watch.erase(l); }
  int from(unsigned cl, int l) { // level at which a clause implies l
    auto i = live.find(cl); if (i == live.end()) { bad("the reason " + std::to_string(cl) + " of " + l2s(l) + " is not there"); return 0; } auto& v = i->second.lits; int m = 0; if (std::find(v.begin(), v.end(), l) == v.end()) bad("the reason " + show(cl) + " of " + l2s(l) + " does not contain it");
    for (int q : v) if (q != l) { if (val(q) != -1) bad("the reason " + show(cl) + " of " + l2s(l) + " is not falsified in " + l2s(q)); else m = std::max(m, lev(q)); } return m; }
  void assign(unsigned raw, unsigned reason) override { int l = sut::I(raw); auto i = vars.find(std::abs(l)); if (i == vars.end()) return bad(l2s(l) + " is assigned, but the variable was not announced"); Var& v = i->second; if (v.value) return bad(l2s(l) + " is assigned but has a value");
    int lv; if (reason == NONE) { lv = ++decisions; decided++; } else { lv = from(reason, l); implied++; } v.value = l > 0 ? 1 : -1; v.reason = reason; v.level = lv; v.propagated = false; trail.push_back(l); }
  void unassign(unsigned raw) override { int l = sut::I(raw); if (val(l) != 1) return bad(l2s(l) + " is unassigned but not true"); unassigned++; Var& v = vars[std::abs(l)]; if (v.reason == NONE) decisions--; v = Var(); for (size_t i = trail.size(); i-- > 0;) if (trail[i] == l) { trail.erase(trail.begin() + i); break; } }
  void propagate(unsigned raw) override { int l = sut::I(raw); if (val(l) != 1) return bad(l2s(l) + " is propagated but not true"); Var& v = vars[std::abs(l)];
    v.propagated = true; }
  void unpropagate(unsigned raw) override { int l = sut::I(raw); if (val(l) != 1) return bad("the propagation of " + l2s(l) + " is withdrawn but it is not true"); Var& v = vars[std::abs(l)]; unpropagated++; v.propagated = false; }
  void update_level(unsigned raw, unsigned lv) override { int l = sut::I(raw); if (val(l) != 1) return bad("the level of " + l2s(l) + " is changed but it is not true"); updates++; vars[std::abs(l)].level = (int)lv; }
  void update_reason(unsigned raw, unsigned r) override { int l = sut::I(raw); if (val(l) != 1) return bad("the reason of " + l2s(l) + " is changed but it is not true"); updates++; Var& v = vars[std::abs(l)]; if (v.reason == NONE && r != NONE) decisions--; if (v.reason != NONE && r == NONE) decisions++; v.reason = r; if (r != NONE) from(r, l); }
  void watch(unsigned cl, unsigned raw) override { int l = sut::I(raw); watched++; auto i = live.find(cl); if (i == live.end()) return bad("clause " + std::to_string(cl) + " is watched but not there"); auto& v = i->second.lits; if (std::find(v.begin(), v.end(), l) == v.end()) return bad(show(cl) + " is watched by " + l2s(l)); if (!i->second.watch.emplace(l, 0).second) bad(show(cl) + " is watched by " + l2s(l) + " twice"); }
  void unwatch(unsigned cl, unsigned raw) override { auto i = live.find(cl); if (i == live.end()) return; if (!i->second.watch.erase(sut::I(raw))) bad(show(cl) + " is no longer watched by " + l2s(sut::I(raw)) + " but it was not"); }
  void block(unsigned cl, unsigned b, unsigned w) override { auto i = live.find(cl); if (i == live.end()) return bad("clause " + std::to_string(cl) + " gets a blocker but is not there"); auto& v = i->second.lits; if (std::find(v.begin(), v.end(), sut::I(b)) == v.end()) bad(show(cl) + " is blocked by " + l2s(sut::I(b))); auto j = i->second.watch.find(sut::I(w)); if (j == i->second.watch.end()) return bad(show(cl) + " gets a blocker for " + l2s(sut::I(w)) + ", by which it is not watched"); j->second = sut::I(b); }

  // The solver's own view must be the mirror's.
  void compare(const std::string& at) {
    if (!h || !problem.empty()) return; auto tr = h->s.trail(); if (tr != trail) { std::string a, b; for (int l : tr) a += " " + l2s(l); for (int l : trail) b += " " + l2s(l); return bad("the solver's assignment is" + a + ", the notified one is" + b + ", at " + at); }
    for (int l : trail) { auto& v = vars[std::abs(l)]; if (napsat::is_decided(h->s, sut::L(l)) != (v.reason == NONE)) bad(l2s(l) + (v.reason == NONE ? " was notified as a decision but is none" : " is a decision but was notified as implied") + ", at " + at); if (napsat::is_root_level(h->s, (unsigned)std::abs(l)) != (v.level == 0)) bad(l2s(l) + " is notified at level " + std::to_string(v.level) + ", at " + at); }
    if ((int)vars.size() != (int)napsat::variables_count(h->s)) bad("there are " + std::to_string(napsat::variables_count(h->s)) + " variables, " + std::to_string(vars.size()) + " were announced, at " + at); }
  // Live clauses and facts say the same as the clauses given.
  void equivalent(const std::string& at) { if (!given || !problem.empty() || top() > limit) return; ref::Table want = table(), got(top()); for (auto& c : live) got.add(c.second.lits); for (int l : trail) if (lev(l) == 0) got.add({l}); if (want.t != got.t) bad(std::string("the clauses kept and the facts ") + (want.count() > got.count() ? "exclude models" : "admit more models") + ", at " + at); }
  // The order of the assignment and the implications in it; `complete`: everything is propagated.
  void structure(const std::string& at) {
    if (!problem.empty()) return; std::map<int, int> level; int d = 0, last = 0; std::set<int> before;
    for (int l : trail) { Var& v = vars[std::abs(l)]; int lv = 0; if (v.reason == NONE) lv = ++d; else if (live.count(v.reason)) { auto& c = live[v.reason].lits; if (std::find(c.begin(), c.end(), l) == c.end()) broken("the reason " + show(v.reason) + " of " + l2s(l) + " does not contain it, at " + at); for (int q : c) if (q != l) { if (!before.count(-q)) broken(l2s(l) + " comes before " + l2s(-q) + " of its reason " + show(v.reason) + ", at " + at); else lv = std::max(lv, level[std::abs(q)]); } } else if (v.level != 0) broken("the reason of " + l2s(l) + " is not there, at " + at);
      level[std::abs(l)] = lv; if (lv != v.level) broken(l2s(l) + " is notified at level " + std::to_string(v.level) + " but its reason gives " + std::to_string(lv) + ", at " + at); if (monotone && lv < last) broken(l2s(l) + " at level " + std::to_string(lv) + " comes after level " + std::to_string(last) + ", at " + at); last = lv; before.insert(l); } }
  void closed(const std::string& at) { if (!problem.empty()) return; for (auto& c : live) { int free = 0, f = 0; bool sat = false; for (int l : c.second.lits) { int v = val(l); if (v > 0) sat = true; if (!v) { free++; f = l; } } if (sat) continue; if (!free) broken(show(c.first) + " is falsified, at " + at); if (free == 1) broken(show(c.first) + " should imply " + l2s(f) + ", at " + at); } for (int l : trail) if (!vars[std::abs(l)].propagated) broken(l2s(l) + " is not propagated, at " + at); }
  // In chronological backtracking, what follows an unassigned literal is propagated again.
  size_t place(int l) const { for (size_t i = 0; i < trail.size(); i++) if (std::abs(trail[i]) == std::abs(l)) return i; return trail.size(); }
  size_t opens(int level) { for (size_t i = 0; i < trail.size(); i++) { Var& v = vars[std::abs(trail[i])]; if (v.reason == NONE && v.level == level) return i; } return trail.size(); }
  // Undoing the decision that made the clause true must also undo, or visit again, one of its falsified watched literals.
  bool covered(const std::vector<int>& lits, int c1, int c2) { int low = -1; for (int l : lits) if (val(l) > 0 && (low < 0 || lev(l) < low)) low = lev(l); if (low < 0) return false; if (low == 0) return true; size_t o = opens(low); return std::max(lev(c1), lev(c2)) >= low || std::max(place(c1), place(c2)) > o; }
  void watches(const std::string& at) { if (!problem.empty() || !check_watches || !h) return;
    for (auto& c : live) { if (c.second.lits.size() < 2) continue; auto& w = c.second.watch; if (w.size() != 2) { broken(show(c.first) + " has " + std::to_string(w.size()) + " watched literals, at " + at); continue; } int c1 = w.begin()->first, c2 = std::next(w.begin())->first;
      for (int k = 0; k < 2; k++, std::swap(c1, c2)) { int b = w[c1]; bool f1 = val(c1) < 0, bt = b && val(b) > 0; if (weak && f1 && val(c2) < 0 && !covered(c.second.lits, c1, c2)) broken(show(c.first) + " is watched by the falsified " + l2s(c1) + " and " + l2s(c2) + " with blocker " + l2s(b) + ", at " + at); if (f1 && !(val(c2) > 0 || bt)) broken(show(c.first) + " is watched by the falsified " + l2s(c1) + " and neither " + l2s(c2) + " nor the blocker " + l2s(b) + " is true, at " + at); for (auto* i : h->s.sent->invariants) { std::string err; auto raw = [](int l) { return sentinel::Tlit(sut::L(l).value); }; checks++; if (!i->check(raw(c1), raw(c2), raw(b ? b : c2), err)) broken("invariant '" + i->description + "' fails for " + show(c.first) + " watched by " + l2s(c1) + " and " + l2s(c2) + " with blocker " + l2s(b) + ", at " + at); } } } }
  bool at_fixpoint() const { for (int l : trail) { auto i = vars.find(std::abs(l)); if (!i->second.propagated) return false; } return true; }
  void check_invariants() override { compare("check_invariants"); structure("check_invariants"); if (at_fixpoint()) { closed("check_invariants"); watches("check_invariants"); } }
};
static std::string folder() { const char* r = getenv("NAPSAT_REPO"); return std::string(r && *r ? r : "/repo") + "/invariant-configurations/"; }

static void run(const Case& c, Ctx& x, bool invariants) {
  if (declared_of(c) > 200) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 200) return; }
  Mirror m; m.want_inv = invariants; m.want_mirror = !invariants; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m); m.given = &h.cs; m.h = &h; auto& o = h.s.o; m.monotone = !o.chronological_backtracking && !o.graph_backtracking && !o.lazy_strong_chronological_backtracking;
#ifndef NDEBUG
  m.check_watches = invariants; m.weak = o.chronological_backtracking && !o.lazy_strong_chronological_backtracking;
#endif
  auto settle = [&] { if (!m.problem.empty()) throw Fail(m.problem); };
  m.compare("creation"); settle();
  for (auto& l : c) { m.announced = NONE; h.s.handle = napsat::CLAUSE_UNDEF; if (!h.step(l)) continue; auto t = split(l); m.compare(l);
    if (t[0] == "a" || t[0] == "p") { unsigned k = h.s.handle.value; if (k != NONE && k != m.announced && !(m.announced == NONE && h.state() == status::UNSAT)) m.bad("the handle of " + l + " is " + std::to_string(k) + ", the clause announced is " + (m.announced == NONE ? "none" : std::to_string(m.announced))); if (k == NONE && m.announced != NONE && m.live.count(m.announced)) m.bad("there is no handle for " + l + ", announced as clause " + std::to_string(m.announced)); } bool u = h.state() == status::UNSAT; if (!u) { m.structure(l); if (!invariants) m.equivalent(l); } if (t[0] == "prop" && h.state() == status::UNKNOWN && m.at_fixpoint()) m.closed(l); settle(); if (u) break; }
  for (auto& k : {std::make_pair(m.learned, "learned"), {m.deleted, "deleted"}, {m.shrunk, "shrunk"}, {m.updates, "updates"}, {m.unpropagated, "propagated again"}, {m.checks, "watch invariants"}}) if (k.first) x.label(k.second);
  std::string st = "ncb"; for (auto& t : split(options_of(c))) for (const char* k : {"-cb", "-lscb", "-gb"}) if (t == k) st = k; x.label(st); x.nontrivial = m.decided >= 2 && m.learned >= 1; }
// Mostly histories; sometimes harder formulas, on which clauses are purged, shrunk and deleted.
static Case generate(Rng& r, int size) { Mix m; m.solve = 3; m.lim = 2; m.blk = 1; m.prop = 3; m.dec = 2; m.dl = 3;
  if (!r.chance(1, 8)) return history(r, size, r.chance(1, 6) ? 20 : 10, r.chance(2, 3), m);
  Case c; std::string o = header(r, c, true, " --restarts on -del on"); int n = gb(o) ? 12 : (int)r.range(12, 30); auto f = r.chance(1, 2) ? gen::random_ksat(r, n, 3.0 + 1.5 * r.unit(), 3) : gen::formula(r, n); gen::permute(r, f); c.push_back("n " + std::to_string(f.n)); size_t cut = (size_t)r.range(0, (long long)f.cs.size()); for (size_t i = 0; i < f.cs.size(); i++) { c.push_back(line("a", f.cs[i])); if (i == cut && r.chance(1, 2)) c.push_back("solve"); } c.push_back("solve");
  for (int k = (int)r.range(0, 6); k > 0; k--) { if (r.chance(1, 2)) c.push_back("blk"); else c.push_back(line("a", gen::distinct(r, f.n, (int)r.range(1, 3)))); c.push_back("solve"); } return c; }
static Prop mirror() { Prop p; p.id = "mirror"; p.rule = "histories observed through the notifications: every notification must be applicable (assigned once, reasons that imply, clauses that exist), the mirror rebuilt from them must equal the solver's own assignment, decisions and facts after every operation, learned clauses must follow from the clauses given, and the clauses kept together with the facts must be equivalent to the clauses given (truth table up to ten variables); non-trivial: at least two decisions and a learned clause";
  p.gen = generate; p.run = [](const Case& c, Ctx& x) { run(c, x, false); }; return p; }
static Prop invariants() { Prop p; p.id = "invariants"; p.rule = "observed histories; at every point where the solver announces its invariants, those its configuration lists for the strategy hold in the mirror: no falsified clause, no missed implication, implied levels, topological order, monotone trail (non-chronological only) and, in the build that notifies watches, two watched literals per clause and the registered watch invariants; non-trivial: at least two decisions and a learned clause";
  p.gen = generate; p.run = [](const Case& c, Ctx& x) { run(c, x, true); }; return p; }

// Clauses a refutation rests on, by the identifiers the observer was told.
struct Ids : sentinel::Listener { std::map<unsigned, Clause> of; std::vector<unsigned> fresh; std::string problem;
  void add_clause(unsigned cl, const std::vector<unsigned>&, bool ext) override { if (ext) fresh.push_back(cl); else if (of.count(cl)) problem = "a learned clause got the identifier " + std::to_string(cl) + " of " + sut::show(of[cl]); }
  void delete_clause(unsigned cl) override { fresh.erase(std::remove(fresh.begin(), fresh.end(), cl), fresh.end()); if (of.count(cl)) problem = "the clause " + sut::show(of[cl]) + " was deleted although dependencies are recorded"; } };
static void run_core(const Case& c, Ctx& x) {
  if (declared_of(c) > 200) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 200) return; }
  Ids m; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m); if (!h.s.o.record_dependencies) return; bool graph = h.s.o.graph_backtracking; size_t known = 0;
  for (auto& l : c) { if (!h.step(l)) continue; CHECK_THAT(m.problem.empty(), m.problem << ", at: " << l);
    for (unsigned id : m.fresh) { CHECK_THAT(h.cs.size() == known + 1, "clause " << id << " was announced as given at: " << l); CHECK_THAT(!m.of.count(id), "the identifier " << id << " is given to " << sut::show(h.cs.back()) << " and " << sut::show(m.of[id])); m.of[id] = h.cs.back(); } m.fresh.clear(); known = h.cs.size();
    if (h.state() != status::UNSAT) continue;
    x.label(graph ? "gb" : "answers only"); if (!graph) break;
    auto core = napsat::clause_unsat_core(h.s); std::vector<Clause> cs; for (auto id : core) { auto i = m.of.find(id.value); cs.push_back(i == m.of.end() ? h.cs.back() : i->second); }
    std::string ids; for (auto& k : cs) ids += sut::show(k); CHECK_THAT(!ref::sat(std::max(h.n, 1), cs), "the core " << ids << " is satisfiable");
    std::set<unsigned> seen; for (auto id : core) CHECK_THAT(seen.insert(id.value).second, "clause " << id.value << " is twice in the core"); 
    x.label(core.size() < m.of.size() ? "proper core" : "all clauses"); x.nontrivial = core.size() >= 3; break; } }
static Case generate_core(Rng& r, int size) { Mix m; m.solve = 2; m.lim = 1; m.blk = 1; m.prop = 2; m.dec = 1; m.dl = 2; Case c;
  if (r.chance(1, 2)) c = history(r, size, 10, r.chance(2, 3), m, " --record-dependencies on");
  else { std::string o = header(r, c, true, " --record-dependencies on"); int n = gb(o) ? (int)r.range(4, 12) : (int)r.range(4, 24); auto f = gen::random_ksat(r, n, 4.0 + 2.5 * r.unit(), 3); gen::permute(r, f); c.push_back("n " + std::to_string(f.n)); size_t cut = (size_t)r.range(0, (long long)f.cs.size()); for (size_t i = 0; i < f.cs.size(); i++) { c.push_back(line("a", f.cs[i])); if (i == cut && r.chance(1, 2)) c.push_back("solve"); } c.push_back("solve"); for (int k = (int)r.range(0, 40); k > 0; k--) c.push_back(r.chance(1, 2) ? "blk" : "solve"); c.push_back("solve"); }
  if (r.chance(2, 3) && !gb(c[0])) c[0] = "o -gb --record-dependencies on" + gen::heuristics(r) + (r.chance(1, 3) ? " -lcm" : ""); 
  return c; }
static Prop core() { Prop p; p.id = "core"; p.rule = "histories with recorded dependencies, most of them in graph backtracking; answers are judged as everywhere, given clauses must keep their identifiers, and after UNSAT the clauses reported as the core must be given clauses that are unsatisfiable together; non-trivial: a core of at least three clauses"; p.gen = generate_core; p.run = run_core; return p; }

// The decisions each true literal rests on.
static std::map<int, std::set<int>> rests(const std::map<int, Mirror::Var>& v, const std::map<unsigned, Mirror::Cl>& live, bool& ok) {
  std::map<int, std::set<int>> d; std::function<void(int, int)> go = [&](int x, int depth) { if (d.count(x) || !ok) return; if (depth > 300) { ok = false; return; } auto i = v.find(x); if (i == v.end() || !i->second.value) { ok = false; return; } std::set<int> s; if (i->second.reason == NONE) s.insert(x); else { auto c = live.find(i->second.reason); if (c == live.end()) { if (i->second.level != 0) ok = false; d[x] = s; return; } for (int q : c->second.lits) if (std::abs(q) != x) { go(std::abs(q), depth + 1); if (!ok) return; s.insert(d[std::abs(q)].begin(), d[std::abs(q)].end()); } } d[x] = s; };
  for (auto& k : v) if (k.second.value) go(k.first, 0); return d; }
// Which decisions a graph-backtracking repair undoes: literals undone between two other notifications form one undo.
struct Undo : Mirror {
  struct Batch { std::map<int, Var> before; std::map<int, std::set<int>> on; std::set<int> undone; bool ok = true; };
  Batch b; std::vector<Batch> batches; bool open = false;
  void close() { if (open) { batches.push_back(b); open = false; } }
  void unassign(unsigned raw) override { auto& undone = b.undone; if (!open) { b = Batch(); b.before = vars; b.on = rests(vars, live, b.ok); open = true; } undone.insert(sut::I(raw)); Mirror::unassign(raw); }
  void assign(unsigned raw, unsigned r) override { close(); Mirror::assign(raw, r); }
  void add_clause(unsigned cl, const std::vector<unsigned>& l, bool e) override { close(); Mirror::add_clause(cl, l, e); }
  void propagate(unsigned raw) override { close(); Mirror::propagate(raw); }
  void update_reason(unsigned raw, unsigned r) override { close(); Mirror::update_reason(raw, r); } };
static void run_repair(const Case& c, Ctx& x) {
  if (declared_of(c) > 40) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 40) return; }
  Undo m; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m); m.given = &h.cs; m.h = &h; m.want_inv = false; m.limit = 0; if (!h.s.o.graph_backtracking) return; int wk = 1; uint64_t ws = 0; bool weighted = false, plain = true; for (auto& q : split(options_of(c))) for (const char* k : {"-lcm", "-ecm", "-bsc", "-bfc", "-bl", "-sum-approx-cost", "-max-approx-cost", "-vsids-approx-cost", "--chunk-level-penalty", "--backtrack-possibilities-limit"}) plain &= q != k; int repairs = 0, choices = 0;
  std::vector<Clause> pending;
  for (auto& l : c) { auto t = split(l); if (t.empty()) continue; std::vector<std::string> ops{l};
    if (t[0] == "fal") { long long k = 1, seed = 0; if (t.size() < 3 || !to_int(t[1], k) || !to_int(t[2], seed)) continue; ops.clear(); auto tr = h.s.trail(); if (tr.empty() || h.state() == status::UNSAT) continue; uint64_t z = (uint64_t)seed; for (long long i = 0; i < std::min(k, 3LL); i++) { std::string a = "a"; size_t len = 1 + pbt::mix(z, 7 * i) % 4; std::set<int> in; for (size_t j = 0; j < len; j++) { int q = tr[pbt::mix(z, 31 * i + j + 1) % tr.size()]; if (in.insert(q).second) a += " " + std::to_string(-q); } ops.push_back(a); } }
    for (auto& op : ops) { auto u = split(op); if (u[0] == "w") { long long a = 0, b = 0; if (u.size() > 2) { to_int(u[1], a); to_int(u[2], b); } wk = (int)a; ws = (uint64_t)b; weighted = true; }
      size_t known = h.cs.size(); m.batches.clear();
      if (!h.step(op)) continue; m.close(); if (!m.problem.empty()) throw Fail(m.problem); if (h.state() == status::UNSAT) return;
      if (h.cs.size() > known) { bool f = !h.cs.back().empty(); for (int q : h.cs.back()) { auto& vs = m.batches.empty() ? m.vars : m.batches[0].before; auto i = vs.find(std::abs(q)); if (i == vs.end() || i->second.value != (q > 0 ? -1 : 1)) f = false; } if (f) pending.push_back(h.cs.back()); }
      bool first = true; for (auto& b : m.batches) {
        auto& on = b.on; if (!b.ok) { x.label("reasons unknown"); first = false; continue; }
        std::set<int> decided; for (int q : b.undone) if (b.before.at(std::abs(q)).reason == NONE) decided.insert(std::abs(q));
        std::set<int> out; for (int q : b.undone) out.insert(std::abs(q));
        for (auto& k : on) { bool dep = false; for (int d : k.second) dep |= decided.count(d) > 0; if (dep != (out.count(k.first) > 0)) CHECK_THAT(false, "variable " << k.first << (dep ? " rests on an undone decision but stayed assigned" : " was undone but rests on no undone decision") << ", at: " << op); }
        repairs++;
        if (first && !pending.empty() && plain) { std::vector<std::set<int>> hit; bool root = false; for (auto& p : pending) { std::set<int> s; for (int q : p) s.insert(on[std::abs(q)].begin(), on[std::abs(q)].end()); if (s.empty()) root = true; hit.push_back(s); } std::vector<int> ds; { std::set<int> a; for (auto& s : hit) a.insert(s.begin(), s.end()); ds.assign(a.begin(), a.end()); }
          if (!root && ds.size() <= 12) { auto cost = [&](const std::set<int>& D) { double w = 0; for (auto& k : on) { bool dep = false; for (int d : k.second) dep |= D.count(d) > 0; if (dep) w += weighted ? Hist::weight(wk, ws, sut::L(b.before.at(k.first).value > 0 ? k.first : -k.first)) : 1.0; } return w; };
            double best = -1; int ways = 0; for (unsigned mask = 1; mask < (1u << ds.size()); mask++) { std::set<int> D; for (size_t i = 0; i < ds.size(); i++) if (mask >> i & 1) D.insert(ds[i]); bool all = true; for (auto& s : hit) { bool any = false; for (int d : s) any |= D.count(d) > 0; all &= any; } if (!all) continue; ways++; double w = cost(D); if (best < 0 || w < best) best = w; }
            double got = cost(decided); for (auto& p : pending) { bool freed = false; for (int q : p) freed |= out.count(std::abs(q)) > 0; CHECK_THAT(freed, "the clause " << sut::show(p) << " is still falsified after the repair, at: " << op); }
            CHECK_THAT(got <= best * (1 + 1e-9) + 1e-9, "the repair of " << sut::show(pending[0]) << (pending.size() > 1 ? " and others" : "") << " undid literals of weight " << got << " where " << best << " was enough, at: " << op); if (ways > 1 && ds.size() > 1) choices++; } }
        first = false; }
      if (!m.batches.empty() || u[0] == "solve" || u[0] == "prop") pending.clear(); } }
  x.nontrivial = choices >= 1; if (repairs >= 2) x.label("several repairs"); if (choices >= 2) x.label("several choices"); if (weighted) x.label("weighted"); }
static Case generate_repair(Rng& r, int size) { Case c; c.push_back(std::string("o -gb") + (r.chance(1, 4) ? " --restarts off" : "") + (r.chance(1, 4) ? " -del on" : "") + (r.chance(1, 5) ? r.pick(std::vector<std::string>{" -lcm", " -bsc", " -bfc", " -bl"}) : "")); int n = 3 + (int)r.range(0, std::max(1, 9 * size / 100)); auto f = gen::random_ksat(r, n, 1.0 + 2.2 * r.unit(), 3); for (int k = (int)r.range(0, n); k > 0; k--) f.cs.push_back(gen::distinct(r, f.n, 2)); gen::permute(r, f); declare(r, c, f.n);
  auto w = [&] { c.push_back("w " + std::to_string(r.range(1, 5)) + " " + std::to_string(r.range(0, 999))); }; if (r.chance(2, 3)) w();
  for (auto& cl : f.cs) c.push_back(line(how(r), cl));
  for (int k = (int)r.range(1, 5); k > 0; k--) { if (r.chance(2, 3)) c.push_back("solve"); else { for (int j = (int)r.range(1, 6); j > 0; j--) c.push_back("dl " + std::to_string(gen::lit(r, f.n))); c.push_back("prop"); } if (r.chance(1, 4)) w(); if (r.chance(1, 6)) c.push_back("sync"); c.push_back("fal " + std::to_string(r.chance(2, 3) ? 1 : r.range(2, 3)) + " " + std::to_string(r.range(0, 9999))); c.push_back(r.chance(1, 2) ? "prop" : "solve"); } return c; }
static Prop repair() { Prop p; p.id = "repair"; p.rule = "graph-backtracking histories in which clauses that the current assignment falsifies are added; what is undone is read from the notifications: it must be exactly the literals that rest on the undone decisions, and when the given clauses caused it, its weight must be the least over all sets of decisions that free every such clause (enumerated); non-trivial: at least one repair with a choice"; p.gen = generate_repair; p.run = run_repair; return p; }

// A suggested polarity is the one the solver decides, unless the variable was assigned in between.
struct Phases : sentinel::Listener { std::map<int, bool> wish; int mine = 0, followed = 0, against = 0; std::string problem;
  void assign(unsigned raw, unsigned reason) override { int l = sut::I(raw), v = std::abs(l); auto i = wish.find(v); if (i == wish.end()) return; if (reason == NONE && v != mine) { followed++; if (i->second) against++; if (i->second != (l > 0) && problem.empty()) problem = "variable " + std::to_string(v) + " was suggested to be " + (i->second ? "true" : "false") + " and is decided " + (l > 0 ? "true" : "false"); } wish.erase(i); } };
static void run_suggest(const Case& c, Ctx& x) {
  if (declared_of(c) > 200) return; Phases m; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m);
  for (auto& l : c) { auto t = split(l); if (t.empty()) continue; auto k = ints(t); m.mine = t[0] == "dl" && !k.empty() ? std::abs(k[0]) : 0; bool free = t[0] == "sug" && !k.empty() && std::abs(k[0]) <= h.n && h.s.value(std::abs(k[0])) == 0;
    if (!h.step(l)) continue; if (free) m.wish[std::abs(k[0])] = k.size() > 1 ? k[1] > 0 : k[0] > 0; CHECK_THAT(m.problem.empty(), m.problem << ", at: " << l); h.check_status(l); if (h.state() == status::UNSAT) break; }
  x.nontrivial = m.followed >= 2 && m.against >= 1; if (m.followed > 5) x.label("many decisions"); if (gb(c[0])) x.label("gb"); }
static Case generate_suggest(Rng& r, int size) { Mix m; m.solve = 2; m.lim = 1; m.prop = 1; m.dec = 3; m.dl = 2; m.sug = 8; m.sync = 1; Case c = history(r, size, 30, true, m); Case d; int n = 0;
  for (auto& l : c) { d.push_back(l); auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) n = std::max(n, std::abs(q)); if (n && r.chance(1, 4)) d.push_back("sug " + std::to_string(gen::lit(r, n)) + (r.chance(1, 2) ? r.chance(1, 2) ? " 1" : " -1" : "")); } return d; }
static Prop suggest() { Prop p; p.id = "suggest"; p.rule = "histories with suggested polarities; decisions made by the solver are read from the notifications, and the first one of a variable that was suggested and not assigned since must have the suggested polarity; answers are judged as everywhere; non-trivial: at least two suggestions met, one of them positive"; p.gen = generate_suggest; p.run = run_suggest; return p; }

// A decision repeats the value its variable had when the assignment was synchronised last; the solver synchronises when it repairs a conflict.
struct Kept : sentinel::Listener { std::map<int, int> value; std::map<int, std::set<int>> phase; int mine = 0; long decided = 0, again = 0, positive = 0, sharp = 0; bool adding = false; std::string problem;
  void assign(unsigned raw, unsigned reason) override { int l = sut::I(raw), v = std::abs(l), s = l > 0 ? 1 : -1; value[v] = s; if (reason != NONE || v == mine) return; decided++; auto i = phase.find(v); std::set<int> never{-1}; auto& ok = i == phase.end() ? never : i->second; if (i != phase.end()) { again++; positive += s > 0; sharp += ok.size() == 1; }
    if (!ok.count(s) && problem.empty()) problem = "variable " + std::to_string(v) + " is decided " + (s > 0 ? "true" : "false") + (i == phase.end() ? " although it had no value before" : " but was last synchronised with the other value"); }
  // a conflict may have been repaired: any value held so far may have been kept (adding a clause that is not falsified repairs none)
  void unassign(unsigned raw) override { if (!adding) for (auto& e : value) { auto i = phase.find(e.first); if (i == phase.end()) phase[e.first] = {-1, e.second}; else i->second.insert(e.second); } value.erase(std::abs(sut::I(raw))); }
  void add_variable(unsigned) override {} };
static void run_phases(const Case& c, Ctx& x) {
  if (declared_of(c) > 200) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 200) return; }
  Kept m; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m);
  for (auto& l : c) { auto t = split(l); if (t.empty() || t[0] == "sug") continue; auto k = ints(t); m.mine = t[0] == "dl" && !k.empty() ? std::abs(k[0]) : 0; m.adding = false; if ((t[0] == "a" || t[0] == "p") && !h.s.o.eager_chunk_merging /* moved decisions are notified again */) for (int q : k) m.adding |= std::abs(q) > h.n || h.s.value(std::abs(q)) != (q > 0 ? -1 : 1);
    if (!h.step(l)) continue; CHECK_THAT(m.problem.empty(), m.problem << ", at: " << l); if (h.state() == status::UNSAT) break;
    if (t[0] == "sync") { for (int q : h.s.trail()) m.phase[std::abs(q)] = {q > 0 ? 1 : -1}; for (int q : h.s.trail()) { auto d = h.s.sent->var_detail(sentinel::Tvar((unsigned)std::abs(q))); CHECK_THAT(d.find("synced: true") != std::string::npos, "variable " << std::abs(q) << " is not synchronised, at: " << l); } } }
  x.nontrivial = m.sharp >= 1 && m.positive >= 1; if (m.sharp > 5) x.label("many kept values"); if (gb(c[0])) x.label("gb"); }
static Case generate_phases(Rng& r, int size) { Mix m; m.solve = 2; m.lim = 2; m.prop = 2; m.dec = 5; m.dl = 6; m.blk = 1; m.sync = 6; Case c = history(r, size, 30, true, m); Case d; for (auto& l : c) { d.push_back(l); if (d.size() > 2 && r.chance(1, 8)) d.push_back("sync"); if (r.chance(1, 10)) for (int k = (int)r.range(1, 4); k > 0; k--) d.push_back("dec"); } return d; }
static Prop phases() { Prop p; p.id = "phases"; p.rule = "histories with synchronisations; decisions made by the solver are read from the notifications: a variable must get the value it had at the last synchronisation (a value it had at some conflict since is accepted too), and false when it never had one; after a synchronisation every variable with a value must be shown as synchronised; non-trivial: a kept value that admits no other is decided, and some decision is positive"; p.gen = generate_phases; p.run = run_phases; return p; }

// The counters of -stat are the numbers of the events that were notified.
struct Counts : Mirror { long kept = 0, moot = 0, either = 0, size = 0, nlearned = 0; unsigned fresh = NONE; int fresh_size = 0; bool fresh_ext = false;
  void settle() { if (fresh != NONE) { kept++; if (!fresh_ext) { nlearned++; size += fresh_size; } } fresh = NONE; }
  void add_clause(unsigned cl, const std::vector<unsigned>& ls, bool ext) override { settle(); fresh = cl; fresh_size = (int)ls.size(); fresh_ext = ext; Mirror::add_clause(cl, ls, ext); }
  void delete_clause(unsigned cl) override { if (fresh == cl) { (fresh_ext ? moot : either)++; fresh = NONE; } else settle(); Mirror::delete_clause(cl); }
  void assign(unsigned raw, unsigned r) override { settle(); Mirror::assign(raw, r); }
  void watch(unsigned cl, unsigned raw) override { settle(); Mirror::watch(cl, raw); } };
static std::map<std::string, std::string> statistics_of(napsat::NapSAT* s, std::string& problem) { std::ostringstream os; auto old = std::cout.rdbuf(os.rdbuf()); try { napsat::print_statistics(s); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
  std::map<std::string, std::string> m; std::istringstream is(os.str()); std::string l; while (std::getline(is, l)) { if (l.rfind("c ", 0)) problem = "the line '" + l + "' is no comment"; if (l.rfind("c  - ", 0)) continue; size_t q = l.rfind(": "); if (q == std::string::npos || !m.emplace(l.substr(5, q - 5), l.substr(q + 2)).second) problem = "the line '" + l + "' is no statistic"; } return m; }
static void run_stats(const Case& c, Ctx& x) {
  if (declared_of(c) > 200) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 200) return; }
  Counts m; m.want_mirror = m.want_inv = false; m.limit = 0; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, " -o -stat", &m); m.h = &h; long solves = 0, conflicts = 0, most = 0;
  auto number = [&](std::map<std::string, std::string>& s, const char* k) { auto i = s.find(k); if (i == s.end()) return 0LL; std::string d; for (char q : i->second) if (q != ',') d += q; long long v = -1; CHECK_THAT(to_int(d, v) && v > 0, "'" << i->second << "' is no number of " << k); return v; };
  for (auto& l : c) { auto t = split(l); if (t.empty() || !h.step(l)) continue; h.check_status(l); if (t[0] == "solve" || t[0] == "lim") solves++; m.settle(); std::string problem; auto s = statistics_of(h.s, problem); CHECK_THAT(problem.empty(), problem);
    bool crossed = h.s.o.eager_chunk_merging;
    auto is = [&](const char* k, long want, bool again = false) { long long got = number(s, k); CHECK_THAT(again ? got <= want : got == want, "the statistics count " << got << " of '" << k << "', but there were " << want << ", at: " << l); if (want > most) most = want; };
    is("Solve calls", solves); is("Add variable", (long)m.vars.size()); 
    auto in = [&](const char* k, long low, long high) { long long got = number(s, k); CHECK_THAT(got >= low && got <= high, "the statistics count " << got << " of '" << k << "', but there were " << low << (high > low ? " or some more" : "") << ", at: " << l); };
    in("Add clause", m.kept, m.kept + m.either); in("Learned clause", m.nlearned, m.nlearned + m.either); in("Delete clause", m.deleted - m.moot - m.either, m.deleted - m.moot);
    if (h.state() != status::UNSAT) CHECK_THAT(number(s, "Add clause") - number(s, "Delete clause") == (long long)m.live.size(), "by the statistics " << number(s, "Add clause") - number(s, "Delete clause") << " clauses are there, but " << m.live.size() << " are, at: " << l);
    is("Decisions", m.decided, crossed); is("Implication", m.implied, crossed); is("Unassignment", m.unassigned, crossed);
    long long held = number(s, "Decisions") + number(s, "Implication") - number(s, "Unassignment"); CHECK_THAT(held == (long long)h.s.trail().size(), "by the statistics " << held << " literals hold, but " << h.s.trail().size() << " do, at: " << l);
    long long k = number(s, "Conflicts"), lim = 0; CHECK_THAT(k >= conflicts, "the number of conflicts went down from " << conflicts << " to " << k << ", at: " << l); if (t[0] == "lim" && to_int(t[1], lim) && h.state() == status::UNKNOWN) CHECK_THAT(k - conflicts == std::max(lim, 1LL), "stopped at a limit of " << lim << " conflicts, but " << k - conflicts << " are counted, at: " << l); conflicts = k;
    auto a = s.find("Avg learned clause size"); if (m.either) {} else if (m.nlearned) { std::string want = std::to_string((long long)(m.size * 100 / m.nlearned)); while (want.size() < 3) want = "0" + want; want.insert(want.size() - 2, "."); std::string got = a == s.end() ? "nothing" : a->second; double d = std::atof(got.c_str()) - (double)m.size / (double)m.nlearned; CHECK_THAT(a != s.end() && std::fabs(d) < 0.02, "the average size of the learned clauses is " << want << ", shown is " << got << ", at: " << l); } else CHECK_THAT(a == s.end(), "an average size of no clauses is shown");
    if (h.state() == status::UNSAT) break; }
  x.nontrivial = conflicts >= 2 && m.nlearned >= 2 && m.unassigned >= 2; if (most > 999) x.label("thousands"); if (m.deleted > m.moot) x.label("deleted"); if (gb(c[0])) x.label("gb"); }
static Case generate_stats(Rng& r, int size) { Mix m; m.solve = 3; m.lim = 3; m.prop = 2; m.dec = 3; m.dl = 3; m.blk = 2; m.sync = 1; return history(r, size, r.chance(1, 4) ? 60 : 30, true, m); }
static Prop stats() { Prop p; p.id = "stats"; p.rule = "histories with -stat; after every operation the printed statistics are read: solve calls, variables, clauses added, learned and deleted, decisions, implications and unassignments must be as many as were notified, a call stopped by its conflict limit must have met exactly that many conflicts, and the average size is that of the learned clauses; non-trivial: at least two conflicts, learned clauses and unassignments"; p.gen = generate_stats; p.run = run_stats; return p; }

// What the solver tells about a variable or clause on request is what it notified.
struct Detail { std::map<std::string, std::string> f; struct W { int lit; unsigned cl; bool binary; int blocker; std::vector<int> lits; }; std::vector<W> watch; std::vector<std::pair<int, std::string>> lits; std::set<std::string> tags; };
static int named(std::string s) { int sign = 1; if (!s.empty() && s[0] == '~') { sign = -1; s = s.substr(1); } return sign * std::atoi(s.c_str()); }
static Detail detail(const std::string& text) {
  Detail d; int lit = 0; std::istringstream is(text); std::string l; while (std::getline(is, l)) { auto t = split(l); if (t.empty()) continue;
    if (t[0] == "tags:") { d.tags.insert(t.begin() + 1, t.end()); continue; } if (l.rfind("Watch list for ", 0) == 0) { lit = named(t[3].substr(0, t[3].size() - 1)); continue; }
    if (l.rfind("  ", 0) == 0 && lit) { Detail::W w{lit, NONE, t[0] == "Binary", 0, {}}; size_t i = w.binary ? 2 : 1; if (i >= t.size() || t[i].size() < 3) { w.cl = NONE; d.watch.push_back(w); continue; } w.cl = (unsigned)std::atoi(t[i].c_str() + 1); for (i++; i < t.size() && t[i] != "with"; i++) w.lits.push_back(named(t[i])); w.blocker = named(t.back()); d.watch.push_back(w); continue; }
    if (l.rfind("  ", 0) == 0) { std::string n = t[0]; if (n.back() == ':') n.pop_back(); std::string v; size_t q = l.find(": "); d.lits.push_back({named(n), q == std::string::npos ? "" : l.substr(q + 2)}); continue; }
    size_t q = l.find(": "); if (q != std::string::npos) d.f[l.substr(0, q)] = l.substr(q + 2); }
  return d; }
static void run_details(const Case& c, Ctx& x) {
  if (declared_of(c) > 100) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 100) return; }
  Mirror m; m.limit = 0; m.want_inv = false; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, "", &m); m.given = &h.cs; m.h = &h; auto sorted = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }; unsigned most = 0; long shown = 0, missed = 0; bool gb = h.s.o.graph_backtracking; std::string wk; long long kind = -1, seed = 0;
  auto look = [&](const std::string& at) { std::map<unsigned, std::vector<Detail::W>> where; std::map<int, std::string> chunks; bool unsat = h.state() == status::UNSAT;
    for (auto& e : m.vars) { int v = e.first; auto& k = e.second; auto d = detail(h.s.sent->var_detail(sentinel::Tvar((unsigned)v))); auto say = [&](const std::string& f, const std::string& want) { CHECK_THAT(d.f.count(f), "variable " << v << " has no '" << f << "', at " << at); CHECK_THAT(d.f[f] == want, "variable " << v << " has '" << f << "' " << d.f[f] << ", notified was " << want << ", at " << at); };
      shown++; const char* tag = !k.value ? "unassigned" : k.reason == NONE ? "decision" : "implied"; CHECK_THAT(d.tags.count(tag), "variable " << v << " is not tagged " << tag << ", at " << at); for (auto o : {"unassigned", "decision", "implied"}) if (std::string(o) != tag) CHECK_THAT(!d.tags.count(o), "variable " << v << " is tagged " << o << ", at " << at);
      say("value", !k.value ? "undef" : k.value > 0 ? "true" : "false"); say("δ", k.value ? std::to_string(k.level) : "∞"); say("marked", "false"); say("locked", "false"); if (k.value && !gb) say("propagated", k.propagated ? "true" : "false"); if (!k.value || k.reason == NONE) say("ρ", "undef"); else if (m.live.count(k.reason) && !unsat) { auto t = split(d.f["ρ"]); CHECK_THAT(!t.empty() && t[0] == "C" + std::to_string(k.reason) + ":", "variable " << v << " has the reason " << d.f["ρ"] << ", notified was " << m.show(k.reason) << ", at " << at); std::vector<int> ls; for (size_t i = 1; i < t.size(); i++) ls.push_back(named(t[i])); CHECK_THAT(sorted(ls) == sorted(m.live[k.reason].lits), "variable " << v << " has the reason " << d.f["ρ"] << ", notified was " << m.show(k.reason) << ", at " << at); }
      bool lscb = h.s.o.lazy_strong_chronological_backtracking && !gb; if (lscb) CHECK_THAT(d.f.count("λ"), "variable " << v << " has no 'λ', at " << at);
      if (!unsat && (lscb || d.f.count("λ"))) { // a missed implication: a clause that implies the literal, at a lower level than its own; in LSCB, at the fixpoint, the lowest one
        std::string la = d.f["λ"]; int low = -1; if (la != "undef") { auto t = split(la); unsigned id = t.empty() || t[0].size() < 3 || t[0][0] != 'C' ? NONE : (unsigned)std::atoi(t[0].c_str() + 1); CHECK_THAT(k.value, "variable " << v << " has no value but the missed implication " << la << ", at " << at); CHECK_THAT(m.live.count(id), "variable " << v << " has the missed implication " << la << ", which is not there, at " << at); std::vector<int> ls; for (size_t i = 1; i < t.size(); i++) ls.push_back(named(t[i])); CHECK_THAT(sorted(ls) == sorted(m.live[id].lits), "variable " << v << " has the missed implication " << la << ", notified was " << m.show(id) << ", at " << at);
          bool in = false; low = 0; for (int q : ls) { if (q == v * k.value) in = true; else { CHECK_THAT(m.val(q) < 0, "variable " << v << " has the missed implication " << la << ", in which " << q << " is not false, at " << at); low = std::max(low, m.lev(q)); } } CHECK_THAT(in && (!lscb || low < k.level), "variable " << v << " has the missed implication " << la << ", which does not imply it at a lower level, at " << at); missed++; }
        if (lscb && k.value && m.at_fixpoint() && h.state() == status::UNKNOWN) for (auto& q : m.live) { int top = 0; bool in = false, unit = true; for (int l : q.second.lits) { if (l == v * k.value) in = true; else if (m.val(l) < 0) top = std::max(top, m.lev(l)); else unit = false; } if (in && unit && top < k.level) CHECK_THAT(low >= 0 && low <= top, m.show(q.first) << " implies variable " << v << " at level " << top << ", its missed implication is " << la << ", at " << at); } }
      size_t n = 0; for (auto& q : m.live) for (int l : q.second.lits) if (std::abs(l) == v) { n++; break; } if (!unsat) say("n_clauses", std::to_string(n)); for (auto& w : d.watch) where[w.cl].push_back(w); if (gb) chunks[v] = d.f["γ"]; if (gb && k.value && kind >= 0) { double want = Hist::weight((int)kind, (uint64_t)seed, sut::L(k.value * v)), got = std::atof(d.f["ζ"].c_str()); CHECK_THAT(std::fabs(want - got) <= 1e-6 + 1e-9 * std::fabs(want), "undoing variable " << v << " costs " << d.f["ζ"] << ", set was " << want << ", at " << at); } }
    for (auto& q : m.live) most = std::max(most, q.first); if (unsat) return;
    for (auto& q : m.live) { auto& ls = q.second.lits; auto d = detail(h.s.sent->clause_detail(sentinel::Tclause(q.first))); CHECK_THAT(!d.tags.count("deleted"), m.show(q.first) << " is tagged deleted, at " << at); CHECK_THAT(d.tags.count("external") == (q.second.external ? 1u : 0u) && d.tags.count("learned") == (q.second.external ? 0u : 1u), m.show(q.first) << " is tagged wrongly, at " << at); CHECK_THAT(d.f["size"] == std::to_string(ls.size()), m.show(q.first) << " has the size " << d.f["size"] << ", at " << at); std::vector<int> got; for (auto& e : d.lits) got.push_back(e.first); CHECK_THAT(sorted(got) == sorted(ls), m.show(q.first) << " has the literals " << sut::show(got) << ", at " << at);
      for (auto& e : d.lits) { int val = m.val(e.first); std::string want = std::string(val > 0 ? "true" : val < 0 ? "false" : "undef") + " @ " + (val ? std::to_string(m.lev(e.first)) : "∞"); CHECK_THAT(e.second == want, e.first << " of " << m.show(q.first) << " is " << e.second << ", notified was " << want << ", at " << at); }
      if (ls.size() >= 2) { auto& w = where[q.first]; CHECK_THAT(w.size() == 2 && w[0].lit != w[1].lit, m.show(q.first) << " is in " << w.size() << " watch lists, at " << at); for (auto& e : w) { CHECK_THAT(sorted(e.lits) == sorted(ls), "the watch list of " << e.lit << " has " << m.show(q.first) << " as " << sut::show(e.lits) << ", at " << at); CHECK_THAT(std::count(ls.begin(), ls.end(), e.lit), m.show(q.first) << " is in the watch list of " << e.lit << ", at " << at); CHECK_THAT(e.blocker != e.lit && (std::count(ls.begin(), ls.end(), e.blocker) || (m.val(e.blocker) < 0 && m.lev(e.blocker) == 0)), m.show(q.first) << " has the blocker " << e.blocker << " in the list of " << e.lit << ", at " << at); } } }
    for (auto& w : where) CHECK_THAT(m.live.count(w.first), "clause " << w.first << " is watched but not there, at " << at);
    CHECK_THAT(h.s.sent->clause_detail(sentinel::Tclause()) == "undef", "there are details of no clause"); };
  auto settle = [&] { if (!m.problem.empty()) throw Fail(m.problem); };
  for (auto& l : c) { if (!h.step(l)) continue; auto t = split(l); if (t[0] == "w" && t.size() > 2) { to_int(t[1], kind); to_int(t[2], seed); } settle(); look(l); if (h.state() == status::UNSAT) break; }
  std::string st = "ncb"; for (auto& t : split(options_of(c))) for (const char* k : {"-cb", "-lscb", "-gb"}) if (t == k) st = k; x.label(st); if (missed) x.label("missed implications"); x.nontrivial = m.decided >= 2 && m.learned >= 1 && shown > 10; }
static Prop details() { Prop p; p.id = "details"; p.rule = "observed histories; after every operation the details of every variable and clause are asked for, as an observer does, and compared with the state rebuilt from the notifications (value, level, reason, propagation, number of clauses, cost, tags, literals) and with each other (every clause in the watch lists of two of its literals, with blockers from it); non-trivial: at least two decisions and a learned clause"; p.gen = generate; p.run = run_details; return p; }

// What the PRINT commands show is what was notified.
struct Look { int lit; char colour; bool under; };
static std::vector<Look> looks(const std::string& s) { std::vector<Look> v; for (size_t q = 0; (q = s.find("\033[0;3", q)) != std::string::npos;) { Look k; k.colour = q + 5 < s.size() ? s[q + 5] : '?'; q = s.find('m', q); if (q == std::string::npos) break; q++; k.under = s.compare(q, 4, "\033[4m") == 0; if (k.under) q += 4; size_t e = s.find('\033', q); k.lit = named(s.substr(q, e == std::string::npos ? e : e - q)); v.push_back(k); } return v; }
struct Screen : Mirror { bool nested = false;
  std::string print(const std::string& what, const std::string& at) { auto before = h->s.trail(); std::ostringstream os; auto old = std::cout.rdbuf(os.rdbuf()); bool ok = false; try { ok = h->s.sent->parser->parse("PRINT " + what); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); if (!ok) bad("PRINT " + what + " is refused, at " + at); if (h->s.trail() != before) bad("PRINT " + what + " changes the assignment, at " + at); return os.str(); }
  static std::vector<std::string> rows(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
  std::string colours(const std::string& text, const std::string& at) { for (auto& k : looks(text)) { int v = val(k.lit); char want = v > 0 ? '2' : v < 0 ? '1' : '3'; if (k.colour != want) return l2s(k.lit) + " is shown " + (k.colour == '2' ? "true" : k.colour == '1' ? "false" : "unassigned") + " but is " + (v > 0 ? "true" : v < 0 ? "false" : "unassigned") + ", at " + at; bool dec = v && vars[std::abs(k.lit)].reason == NONE; if (k.under != dec) return l2s(k.lit) + (dec ? " is not shown" : " is shown") + " as a decision, at " + at; } return ""; }
  // "<flags>C<id>: <literals>": the identifier, NONE for "undef" and another number for nonsense
  unsigned ident(const std::string& s, std::string& flags) { size_t i = s.find_first_not_of(' '); if (i == std::string::npos) return NONE - 1; if (s.compare(i, 5, "undef") == 0) return NONE; flags.clear(); while (i < s.size() && std::islower((unsigned char)s[i])) flags += s[i++]; if (i >= s.size() || s[i] != 'C') return NONE - 1; return (unsigned)std::atoi(s.c_str() + i + 1); }
  bool same(unsigned cl, const std::string& text) { auto i = live.find(cl); if (i == live.end()) return false; std::vector<int> a, b = i->second.lits; for (auto& k : looks(text)) a.push_back(k.lit); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
  // the sets of chunks shown, "[1, 4]", for the literals of the trail
  static bool chunkset(const std::string& row, const std::string& name, std::set<unsigned>& out) { size_t q = row.find(name + " = ["); if (q == std::string::npos) return false; q += name.size() + 4; size_t e = row.find(']', q); if (e == std::string::npos) return false; std::string t = row.substr(q, e - q); for (char& c : t) if (c == ',') c = ' '; for (auto& k : split(t)) out.insert((unsigned)std::atoi(k.c_str())); return true; }
  static std::string names(const std::set<unsigned>& k) { std::string r = "["; for (unsigned q : k) r += (r.size() > 1 ? ", " : "") + std::to_string(q); return r + "]"; }
  // in graph backtracking: a decision has a chunk of its own, an implied literal the chunks of the literals of its reason, a missed implication of a decision those of its other literals
  void chunks(const std::vector<std::string>& r, const std::string& at) {
    std::map<int, std::set<unsigned>> g; std::map<unsigned, int> owner; std::map<int, std::string> row; auto tr = h->s.trail(); size_t n = 0; bool eager = h->s.o.eager_chunk_merging;
    for (size_t i = 1; i < r.size(); i++) { if (r[i].find(" --> ρ = ") == std::string::npos || n >= tr.size()) continue; int l = tr[n++]; row[l] = r[i]; if (!chunkset(r[i], "(γ", g[l])) return bad(l2s(l) + " is shown without its chunks, at " + at); }
    for (int l : tr) { Var& v = vars[std::abs(l)]; if (lev(l) == 0) { if (!g[l].empty()) return bad(l2s(l) + " holds at level 0 but is shown with the chunks " + names(g[l]) + ", at " + at); continue; }
      if (v.reason == NONE) { if (g[l].size() != 1) return bad("the decision " + l2s(l) + " is shown with the chunks " + names(g[l]) + ", at " + at); auto k = owner.insert({*g[l].begin(), l}); if (!k.second) return bad("the decisions " + l2s(l) + " and " + l2s(k.first->second) + " are shown with one chunk, at " + at); } }
    for (int l : tr) { Var& v = vars[std::abs(l)]; if (v.reason != NONE && live.count(v.reason) && lev(l) > 0) { std::set<unsigned> want; for (int q : live[v.reason].lits) if (q != l) want.insert(g[-q].begin(), g[-q].end()); if (eager ? !std::includes(g[l].begin(), g[l].end(), want.begin(), want.end()) : want != g[l]) return bad(l2s(l) + " is shown with the chunks " + names(g[l]) + ", those of its reason " + show(v.reason) + " are " + names(want) + ", at " + at); }
      for (unsigned q : g[l]) if (!owner.count(q)) return bad(l2s(l) + " is shown with the chunk " + std::to_string(q) + " of no decision, at " + at);
      size_t lz = row[l].find(" / (λ = "); if (lz == std::string::npos) continue; std::string fl; unsigned id = ident(row[l].substr(lz + std::strlen(" / (λ = ")), fl); if (!live.count(id)) return bad(l2s(l) + " is shown with a missed implication that is not there, at " + at); std::set<unsigned> want, got; bool in = false;
      for (int q : live[id].lits) { if (q == l) { in = true; continue; } if (val(q) >= 0) return bad(l2s(l) + " is shown with the missed implication " + show(id) + " of which " + l2s(q) + " is not false, at " + at); want.insert(g[-q].begin(), g[-q].end()); }
      if (!in) return bad(l2s(l) + " is not in its missed implication " + show(id) + ", at " + at); if (v.reason != NONE) continue; if (!chunkset(row[l], "ξ", got)) return bad("the missed implication of " + l2s(l) + " is shown without its chunks, at " + at); if (got != want) return bad("the missed implication " + show(id) + " of " + l2s(l) + " is shown with the chunks " + names(got) + ", its literals have " + names(want) + ", at " + at); } }
  void trails(const std::string& at, bool gb) {
    auto text = print("trail", at); auto r = rows(text); auto tr = h->s.trail(); auto c = colours(text, at); if (!c.empty()) return bad("in the trail " + c); if (gb) { chunks(r, at); if (!problem.empty()) return; } unsigned a = 0, b = 0; if (r.empty() || std::sscanf(r[0].c_str(), "trail: %u - %u", &a, &b) != 2 || a + b != tr.size()) return bad("the trail of " + std::to_string(tr.size()) + " literals begins with '" + (r.empty() ? "" : r[0]) + "', at " + at); size_t n = 0, heads = 0;
    for (size_t i = 1; i < r.size(); i++) { if (r[i].empty()) continue; if (r[i].rfind("^ ", 0) == 0) { heads++; if (n != a) return bad("the propagation head is shown at " + std::to_string(n) + " but is " + std::to_string(a) + ", at " + at); continue; } if (r[i].rfind("conflict: ", 0) == 0) continue; size_t arrow = r[i].find(" --> ρ = "); if (arrow == std::string::npos || n >= tr.size()) return bad("the trail has the line '" + r[i] + "', at " + at);
      int l = tr[n]; unsigned k = 0, lv = 0; auto first = looks(r[i].substr(0, arrow)); if (std::sscanf(r[i].c_str(), "%u: δ = %u", &k, &lv) != 2 || k != n || first.size() != 1 || first[0].lit != l) return bad("the literal " + std::to_string(n) + " of the trail is " + l2s(l) + ", shown is '" + r[i] + "', at " + at); if ((int)lv != lev(l)) return bad(l2s(l) + " is shown at level " + std::to_string(lv) + ", notified was " + std::to_string(lev(l)) + ", at " + at);
      std::string why = r[i].substr(arrow + std::strlen(" --> ρ = ")), fl; why = why.substr(0, std::min(why.find(" / ("), why.find(" (γ"))); unsigned id = ident(why, fl); Var& v = vars[std::abs(l)]; if (v.reason == NONE ? id != NONE : live.count(v.reason) && (id != v.reason || !same(id, why))) return bad(l2s(l) + " is shown with the reason '" + why + "', notified was " + (v.reason == NONE ? "none" : show(v.reason)) + ", at " + at); n++; }
    if (n != tr.size()) return bad(std::to_string(n) + " of " + std::to_string(tr.size()) + " literals of the trail are shown, at " + at); if (heads != (b > 0)) return bad("the propagation head is shown " + std::to_string(heads) + " times, at " + at); if (!gb) { size_t p = 0; for (int l : tr) p += vars[std::abs(l)].propagated; if (a != p) return bad(std::to_string(a) + " literals are shown as propagated, notified were " + std::to_string(p) + ", at " + at); }
    auto q = rows(print("trail-simple", at)); std::map<int, std::vector<int>> got, want; for (int l : tr) want[lev(l)].push_back(l); for (size_t i = 1; i < q.size(); i++) { size_t colon = q[i].find(": "); if (colon == std::string::npos) { if (!q[i].empty()) return bad("the simple trail has the line '" + q[i] + "', at " + at); continue; } for (auto& t : split(q[i].substr(colon + 2))) if (t != "|") got[std::atoi(q[i].c_str())].push_back(named(t)); } if (got != want) return bad("the simple trail does not show the literals at their levels, at " + at); }
  void sets(const std::string& at) {
    auto text = print("clause-set", at); auto c = colours(text, at); if (!c.empty()) return bad("in the clause set " + c); std::set<unsigned> seen; for (size_t q = 0; (q = text.find('C', q)) != std::string::npos; q++) { if (q + 1 >= text.size() || !std::isdigit((unsigned char)text[q + 1])) continue; size_t b = q; while (b > 0 && std::islower((unsigned char)text[b - 1]) && text[b - 1] != 'm') b--; size_t e = text.find('C', q + 1); std::string one = text.substr(b, e == std::string::npos ? e : e - b), fl; size_t last = one.rfind("\033[0m"); if (last != std::string::npos) one = one.substr(0, last); unsigned id = ident(one, fl); auto i = live.find(id); if (i == live.end()) return bad("clause " + std::to_string(id) + " is shown but not there, at " + at); if (!seen.insert(id).second) return bad(show(id) + " is shown twice, at " + at); if (!same(id, one)) return bad(show(id) + " is shown with other literals, at " + at); if (fl != (i->second.external ? "e" : "l")) return bad(show(id) + " is shown as '" + fl + "', at " + at); }
    for (auto& k : live) if (!seen.count(k.first)) return bad(show(k.first) + " is not shown, at " + at);
    std::map<unsigned, std::vector<std::pair<int, int>>> where; int l = 0; for (auto& row : rows(print("watch-lists", at))) { std::string t = row; size_t q = t.find("watch list for "); if (q == 0) { auto w = split(t.substr(15)); if (w.empty()) return bad("a watch list has no literal, at " + at); l = named(w[0].substr(0, w[0].size() - 1)); auto k = split(t.substr(t.find("binary:") + 7)); for (size_t i = 0; i + 2 < k.size(); i += 3) where[(unsigned)std::atoi(k[i + 2].c_str() + 1)].push_back({l, named(k[i])}); } else if ((q = t.find("non-binary:")) != std::string::npos) for (auto& w : split(t.substr(q + 11))) where[(unsigned)std::atoi(w.c_str() + 1)].push_back({l, 0}); }
    for (auto& w : where) if (!live.count(w.first)) return bad("clause " + std::to_string(w.first) + " is shown in a watch list but not there, at " + at);
    for (auto& k : live) { auto& ls = k.second.lits; if (ls.size() < 2) continue; auto& w = where[k.first]; if (w.size() != 2 || w[0].first == w[1].first) return bad(show(k.first) + " is shown in " + std::to_string(w.size()) + " watch lists, at " + at); for (size_t i = 0; i < 2; i++) { if (!std::count(ls.begin(), ls.end(), w[i].first)) return bad(show(k.first) + " is shown in the watch list of " + l2s(w[i].first) + ", at " + at); if (w[i].second && w[i].second != w[1 - i].first) return bad(show(k.first) + " is shown with " + l2s(w[i].second) + " in the watch list of " + l2s(w[i].first) + ", at " + at); } } }
  void checkpoint() override { std::ostringstream os; auto old = std::cout.rdbuf(os.rdbuf()); try { h->s.sent->parser->parse(""); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); } };
static void run_printed(const Case& c, Ctx& x) {
  if (declared_of(c) > 100) return; for (auto& l : c) { auto t = split(l); if (!t.empty() && (t[0] == "a" || t[0] == "p")) for (int q : ints(t)) if (std::abs(q) > 100) return; }
  Screen m; m.limit = 0; m.want_inv = false; napsat::env::set_invariant_configuration_folder(folder()); Hist h(c, " -i", &m); m.given = &h.cs; m.h = &h; bool gb = h.s.o.graph_backtracking; CHECK_THAT(h.s.sent && h.s.sent->parser, "no commands can be given"); size_t most = 0, last = 0, shown = 0;
  auto settle = [&] { if (!m.problem.empty()) throw Fail(m.problem); };
  for (auto& l : c) { if (!h.step(l)) continue; settle(); if (h.state() == status::UNSAT) break; m.trails(l, gb); settle(); m.sets(l); settle(); shown++; most = std::max(most, m.trail.size()); last = std::max(last, m.live.size()); }
  std::string st = "ncb"; for (auto& t : split(options_of(c))) for (const char* k : {"-cb", "-lscb", "-gb"}) if (t == k) st = k; x.label(st); x.nontrivial = m.decided >= 2 && m.implied >= 2 && last >= 3 && shown >= 3; }
static Prop printed() { Prop p; p.id = "printed"; p.rule = "histories in interactive mode; after every operation the trail, the clause set and the watch lists are printed and read back, and compared with the state rebuilt from the notifications (literals, order, levels, reasons, values, decisions, propagation head, clauses and their kind, two watch lists for each; in graph backtracking the chunks of every literal and of every missed implication); non-trivial: at least two decisions, two implications, three clauses and three operations"; p.gen = generate; p.run = run_printed; return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {mirror(), invariants(), core(), repair(), suggest(), phases(), stats(), details(), printed()}); }
