// Stand-in for the (absent) SATSentinel submodule: the option record NapSAT embeds.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
  class Options {
  public:
    Options() = default;
    explicit Options(std::vector<std::string>& tokens) {
      for (size_t i = 0; i < tokens.size(); i++) {
        received.push_back(tokens[i]);
        if ((tokens[i] == "-commands" || tokens[i] == "--commands") && i + 1 < tokens.size())
          commands_file = tokens[i + 1];
      }
    }
    std::vector<std::string> received;
    std::string commands_file;
    bool check_no_conflicts = false;
    bool check_trail_monotonicity = false;
    bool check_implied_levels = false;
    bool check_no_missed_implications = false;
    bool check_topological_order = false;
    bool check_assignment_coherence = false;
    bool check_weak_watched_literals = false;
    bool check_strong_watched_literals = false;
    static std::string get_help_text() { return "SENTINEL-HELP\n"; }
  };
}
