// Replays the histories in *.txt beside this program on the solver and compares it with brute force.
//   o <options>   n <vars>   a <lits> add a clause   p <lits> add it literal by literal   solve   lim <k>   prop   dl <lit>   dec   blk   sync   new
//   w <k>  literal costs var % k        check lines: closure | facts | proof | used (every variable that occurs has a value after SAT)
// A line "---" starts a new solver.
#include "SAT-API.hpp"
#include "SAT-options.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
using namespace napsat; using std::vector; using std::string;
static int bad(const string& f, const string& why) { std::cerr << f << ": " << why << "\n"; std::exit(1); }
static Tlit L(int l) { return Tlit(Tvar((unsigned)std::abs(l)), (unsigned)(l > 0)); }
struct Run {
  string file; NapSAT* s = nullptr; options o; int n = 0, want = 0; vector<vector<int>> cs;
  void open() { if (!s) { o.save_state_on_interrupt = false; s = create_solver((unsigned)want, 0, o); n = want; } }
  void close() { if (s) delete_solver(s); s = nullptr; cs.clear(); n = want = 0; o = options(); }
  int val(int v) { Tval t = get_variable_value(s, (unsigned)v); return t == Tval::TRUE ? 1 : t == Tval::FALSE ? -1 : 0; }
  bool tru(int l) { return val(std::abs(l)) == (l > 0 ? 1 : -1); }
  // a small recursive search
  bool search(vector<signed char>& a, const vector<vector<int>>& c) { while (true) { int unit = 0; for (auto& k : c) { int fr = 0, cnt = 0; bool ok = false; for (int l : k) { int v = a[std::abs(l)]; if (v == (l > 0 ? 1 : -1)) { ok = true; break; } if (!v) { if (fr != l) cnt++; fr = l; } } if (ok) continue; if (!cnt) return false; if (cnt == 1) { unit = fr; break; } } if (!unit) break; a[std::abs(unit)] = unit > 0 ? 1 : -1; }
    int v = 0; for (int i = 1; i < (int)a.size(); i++) if (!a[i]) { v = i; break; } if (!v) return true; for (int q : {1, -1}) { auto b = a; b[v] = (signed char)q; if (search(b, c)) return true; } return false; }
  bool sat(const vector<int>& extra = {}) { vector<signed char> a((size_t)n + 1, 0); auto c = cs; for (int l : extra) c.push_back({l}); return search(a, c); }
  void answer(status st, bool stop) { if (st == status::UNKNOWN && stop) return; bool e = sat(); if (st != (e ? status::SAT : status::UNSAT)) bad(file, string("answer ") + status_to_string(st) + " for a formula that is " + (e ? "satisfiable" : "unsatisfiable")); if (e) for (auto& k : cs) { bool ok = false; for (int l : k) ok |= tru(l); if (!ok) bad(file, "the model does not satisfy a clause"); } }
  void step(const string& l) { std::istringstream is(l); string k; is >> k; vector<int> v; if (k.empty() || k[0] == '#') return;
    if (k == "o") { vector<string> t; string x; while (is >> x) t.push_back(x); o = options(t); return; } int q; while (is >> q) v.push_back(q);
    if (k == "n") { want = v[0]; return; } if (k == "---") { close(); return; } open();
    if (k == "a" || k == "p") { for (int x : v) n = std::max(n, std::abs(x)); cs.push_back(v); vector<Tlit> t; for (int x : v) t.push_back(L(x)); if (k == "a") { t.reserve(1); add_clause(s, t.data(), (unsigned)t.size()); } else { start_new_clause(s); for (auto x : t) push_literal(s, x); finalize_clause(s); } }
    else if (k == "solve") answer(solve(s), false); else if (k == "lim") answer(solve_limited(s, (unsigned)v[0]), true);
    else if (k == "new") n = (int)new_variable(s).value; else if (k == "sync") synchronize(s);
    else if (k == "prop") { if (get_status(s) == status::UNKNOWN) propagate(s); }
    else if (k == "dec") { if (get_status(s) == status::UNKNOWN && propagate(s)) decide(s); }
    else if (k == "dl") { if (get_status(s) == status::UNKNOWN && propagate(s) && !val(std::abs(v[0]))) decide(s, L(v[0])); }
    else if (k == "blk") { if (get_status(s) != status::SAT) return; vector<int> b; vector<Tlit> t; for (auto x : get_partial_assignment(s)) { int i = (int)x.var().value; b.push_back(x.pol() ? -i : i); t.push_back(L(b.back())); } cs.push_back(b); add_clause(s, t.data(), (unsigned)t.size()); }
    else if (k == "w") { int m = v[0]; set_weight_function(s, [m](Tlit x) { return (double)(x.var().value % (unsigned)m); }); }
    else if (k == "closure") { if (get_status(s) == status::UNKNOWN && propagate(s)) for (auto& c : cs) { int fr = 0; bool ok = false; for (int x : c) { ok |= tru(x); fr += !val(std::abs(x)); } if (!ok && fr <= 1) bad(file, "propagation missed a clause"); } }
    else if (k == "facts") { for (int x = 1; x <= n; x++) if (val(x) && is_root_level(s, (unsigned)x)) if (sat({-x * val(x)})) bad(file, "a fact does not follow"); }
    else if (k == "proof") { if (get_status(s) == status::UNSAT && !check_proof(s)) bad(file, "the proof is rejected"); }
    else if (k == "used") { if (get_status(s) == status::SAT) for (auto& c : cs) for (int x : c) if (!val(std::abs(x))) bad(file, "a variable has no value"); }
    for (auto x : get_partial_assignment(s)) if (!x.var().value || (int)x.var().value > n) bad(file, "the assignment contains a variable that does not exist");
    if (get_status(s) == status::UNSAT && sat()) bad(file, "UNSAT for a satisfiable formula"); }
};
int main(int argc, char** argv) { env::set_suppress_info(true); env::set_suppress_warning(true);
  for (int i = 1; i < argc; i++) { Run r; r.file = argv[i]; std::ifstream in(argv[i]); string l; while (std::getline(in, l)) r.step(l); r.close(); } return 0; }
