#include "Sentinel-API.hpp"
#include <fstream>
namespace sentinel {
  thread_local Listener* next_listener = nullptr;
  thread_local SATSentinel* last_sentinel = nullptr;
#define L(call) do { if (s && s->listener) s->listener->call; } while (0)
  SATSentinel* create_sentinel(const Options& o) {
    SATSentinel* s = new SATSentinel(); s->options = o; s->listener = next_listener; next_listener = nullptr; last_sentinel = s; if (!o.commands_file.empty()) { std::ifstream f(o.commands_file); std::string l; while (std::getline(f, l)) s->commands.push_back(l); } return s; }
  void delete_sentinel(SATSentinel* s) { if (last_sentinel == s) last_sentinel = nullptr; delete s->parser; for (auto* i : s->invariants) delete i; delete s; }
  void add_watch_invariant(SATSentinel* s, WatchInvariant* i) { s->invariants.push_back(i); }
  bool add_variable(SATSentinel* s, Tvar v) { L(add_variable(v.value)); return true; }
  bool set_variable_alias(SATSentinel* s, Tvar v, std::string a) { L(alias(v.value, a)); return true; }
  bool add_clause(SATSentinel* s, Tclause c, const Tlit* l, unsigned n, bool ext) {
    std::vector<unsigned> v; for (unsigned i = 0; i < n; i++) v.push_back(l[i].value); L(add_clause(c.value, v, ext)); return true; }
  bool delete_clause(SATSentinel* s, Tclause c) { L(delete_clause(c.value)); return true; }
  bool shrink_clause(SATSentinel* s, Tclause c, Tlit l) { L(shrink_clause(c.value, l.value)); return true; }
  bool assign(SATSentinel* s, Tlit l, Tclause r) { L(assign(l.value, r.value)); return true; }
  bool unassign(SATSentinel* s, Tlit l) { L(unassign(l.value)); return true; }
  bool propagate(SATSentinel* s, Tlit l) { L(propagate(l.value)); return true; }
  bool unpropagate(SATSentinel* s, Tlit l) { L(unpropagate(l.value)); return true; }
  bool update_level(SATSentinel* s, Tlit l, Tlevel v) { L(update_level(l.value, v.value)); return true; }
  bool update_reason(SATSentinel* s, Tlit l, Tclause r) { L(update_reason(l.value, r.value)); return true; }
  bool watch(SATSentinel* s, Tclause c, Tlit l) { L(watch(c.value, l.value)); return true; }
  bool unwatch(SATSentinel* s, Tclause c, Tlit l) { L(unwatch(c.value, l.value)); return true; }
  bool block(SATSentinel* s, Tclause c, Tlit b, Tlit w) { L(block(c.value, b.value, w.value)); return true; }
  bool lock_assumption(SATSentinel* s, Tlit l) { L(lock(l.value)); return true; }
  bool unlock_assumption(SATSentinel* s, Tlit l) { L(unlock(l.value)); return true; }
  bool check_invariants(SATSentinel* s) { L(check_invariants()); return true; }
  // nobody listens: the commands of the file, then empty commands
  bool checkpoint(SATSentinel* s) { L(checkpoint()); if (s && !s->listener && s->parser) { std::string l; while (s->next < s->commands.size()) if (s->parser->parse(s->commands[s->next++])) return true; s->parser->parse(""); } return true; }
  bool message(SATSentinel* s, const std::string& m, unsigned l) { L(message(m, l)); return true; }
  bool save_execution(SATSentinel*, std::string) { return true; }
  bool load_execution(SATSentinel*, std::string) { return true; }
  void set_command_parser(SATSentinel* s, Tparser* p) { s->parser = p; }
  void set_variable_detail_callback(SATSentinel* s, std::function<std::string(Tvar)> f) { s->var_detail = f; }
  void set_clause_detail_callback(SATSentinel* s, std::function<std::string(Tclause)> f) { s->clause_detail = f; }
}
