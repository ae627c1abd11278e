// Stand-in for the (absent) SATSentinel submodule: it records what the solver tells its observer.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <string>
#include <vector>
namespace sentinel {
  struct Tvar { unsigned value; Tvar(unsigned v = 0) : value(v) {} };
  struct Tlit {
    unsigned value;
    Tlit() : value(0) {}
    explicit Tlit(unsigned v) : value(v) {}
    Tlit(Tvar v, bool pol) : value(v.value << 1 | (pol ? 1u : 0u)) {}
  };
  struct Tclause { unsigned value; Tclause(unsigned v = 0xFFFFFFFF) : value(v) {} };
  struct Tlevel { unsigned value; Tlevel(unsigned v = 0) : value(v) {} };

  class WatchInvariant {
  public:
    using fn = std::function<bool(Tlit, Tlit, Tlit, std::string&)>;
    WatchInvariant(const std::string& n, fn f, const std::string& d) : name(n), check(f), description(d) {}
    std::string name; fn check; std::string description;
  };
  class Tparser {
  public:
    explicit Tparser(std::function<bool(const std::string&)> f) : parse(f) {}
    std::function<bool(const std::string&)> parse;
  };

  // What the harness implements to watch one solver.
  struct Listener {
    virtual ~Listener() {}
    virtual void add_variable(unsigned) {}
    virtual void alias(unsigned, const std::string&) {}
    virtual void add_clause(unsigned /*cl*/, const std::vector<unsigned>& /*lits*/, bool /*external*/) {}
    virtual void delete_clause(unsigned) {}
    virtual void shrink_clause(unsigned, unsigned) {}
    virtual void assign(unsigned /*lit*/, unsigned /*reason*/) {}
    virtual void unassign(unsigned) {}
    virtual void propagate(unsigned) {}
    virtual void unpropagate(unsigned) {}
    virtual void update_level(unsigned, unsigned) {}
    virtual void update_reason(unsigned, unsigned) {}
    virtual void watch(unsigned /*cl*/, unsigned /*lit*/) {}
    virtual void unwatch(unsigned, unsigned) {}
    virtual void block(unsigned /*cl*/, unsigned /*blocker*/, unsigned /*watch*/) {}
    virtual void lock(unsigned) {}
    virtual void unlock(unsigned) {}
    virtual void check_invariants() {}
    virtual void checkpoint() {}
    virtual void message(const std::string&, unsigned) {}
  };
  struct SATSentinel { Options options; Listener* listener = nullptr; Tparser* parser = nullptr;
    std::vector<WatchInvariant*> invariants; std::vector<std::string> commands; size_t next = 0;
    std::function<std::string(Tvar)> var_detail; std::function<std::string(Tclause)> clause_detail; };
  // Set before a solver is created; the sentinel created next takes (and clears) it.
  extern thread_local Listener* next_listener;
  extern thread_local SATSentinel* last_sentinel;

  SATSentinel* create_sentinel(const Options&);
  void delete_sentinel(SATSentinel*);
  void add_watch_invariant(SATSentinel*, WatchInvariant*);
  bool add_variable(SATSentinel*, Tvar);
  bool set_variable_alias(SATSentinel*, Tvar, std::string);
  bool add_clause(SATSentinel*, Tclause, const Tlit*, unsigned, bool);
  bool delete_clause(SATSentinel*, Tclause);
  bool shrink_clause(SATSentinel*, Tclause, Tlit);
  bool assign(SATSentinel*, Tlit, Tclause);
  bool unassign(SATSentinel*, Tlit);
  bool propagate(SATSentinel*, Tlit);
  bool unpropagate(SATSentinel*, Tlit);
  bool update_level(SATSentinel*, Tlit, Tlevel);
  bool update_reason(SATSentinel*, Tlit, Tclause);
  bool watch(SATSentinel*, Tclause, Tlit);
  bool unwatch(SATSentinel*, Tclause, Tlit);
  bool block(SATSentinel*, Tclause, Tlit, Tlit);
  bool lock_assumption(SATSentinel*, Tlit);
  bool unlock_assumption(SATSentinel*, Tlit);
  bool check_invariants(SATSentinel*);
  bool checkpoint(SATSentinel*);
  bool message(SATSentinel*, const std::string&, unsigned);
  bool save_execution(SATSentinel*, std::string);
  bool load_execution(SATSentinel*, std::string);
  void set_command_parser(SATSentinel*, Tparser*);
  void set_variable_detail_callback(SATSentinel*, std::function<std::string(Tvar)>);
  void set_clause_detail_callback(SATSentinel*, std::function<std::string(Tclause)>);
}
