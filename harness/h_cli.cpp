// Properties of the program: its command line, its answers, its enumeration of models and its interactive commands.
#include "dimacs.hpp"
#include "hist.hpp"
#include "proofcheck.hpp"
#include <cmath>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt; using namespace hist; using napsat::status;

struct Out { int code = -1, sig = 0; std::string text; };
template <class F> static Out child(F body) {
  int p[2]; if (pipe(p)) throw std::runtime_error("pipe"); std::cout.flush(); pid_t k = fork();
  if (k == 0) { close(p[0]); dup2(p[1], 1); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 2); close(p[1]); body(); _exit(99); }
  close(p[1]); Out o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0 && o.text.size() < (64u << 20)) o.text.append(b, (size_t)n); close(p[0]); int st; waitpid(k, &st, 0); if (WIFSIGNALED(st)) o.sig = WTERMSIG(st); else o.code = WEXITSTATUS(st); o.text = proofcheck::plain(o.text); return o; }
static Out cli(const std::vector<std::string>& args) { static std::string exe = getenv("PBT_CLI") ? getenv("PBT_CLI") : ""; return child([&] { std::vector<char*> v{const_cast<char*>(exe.c_str())}; for (auto& a : args) v.push_back(const_cast<char*>(a.c_str())); v.push_back(nullptr); execv(exe.c_str(), v.data()); _exit(98); }); }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
static std::vector<std::string> answers(const Out& o) { std::vector<std::string> v; for (auto& l : lines(o.text)) { size_t r = l.rfind("\r "); std::string t = r == std::string::npos ? l : l.substr(r + 2); if (t.rfind("s ", 0) == 0 || t == "UNKNOWN") v.push_back(t); } return v; }
static std::vector<Clause> clauses(const Case& c) { std::vector<Clause> v; for (auto& l : c) { auto t = split(l); if (!t.empty() && t[0] == "k") v.push_back(ints(t)); } return v; }
static void lits(Case& c, const std::vector<Clause>& cs) { for (auto& k : cs) c.push_back("k" + gen::show(k)); }
static int top(const std::vector<Clause>& cs) { int n = 0; for (auto& c : cs) for (int l : c) n = std::max(n, std::abs(l)); return n; }

// --- what the command line means ------------------------------------------------------------------
// An independent table of the options (from the comments of SAT-options.hpp) and their meaning.
struct Opt { std::vector<std::string> names; bool napsat::options::*flag; double napsat::options::*num; };
static const std::vector<Opt>& table() { using O = napsat::options; static const std::vector<Opt> t{
  {{"--chronological-backtracking", "-cb"}, &O::chronological_backtracking, nullptr}, {{"--lazy-strong-chronological-backtracking", "-lscb"}, &O::lazy_strong_chronological_backtracking, nullptr}, {{"--graph-backtracking", "-gb"}, &O::graph_backtracking, nullptr}, {{"--lazy-chunk-merging", "-lcm"}, &O::lazy_chunk_merging, nullptr}, {{"--eager-chunk-merging", "-ecm"}, &O::eager_chunk_merging, nullptr}, {{"--backtrack-smallest-chunk", "-bsc"}, &O::backtrack_smallest_chunk, nullptr}, {{"--backtrack-first-chunk", "-bfc"}, &O::backtrack_first_chunk, nullptr}, {{"--delete-clauses", "-del"}, &O::delete_clauses, nullptr}, {{"--ignore-unused-variables", "-iuv"}, &O::ignore_unused_variables, nullptr}, {{"--interactive", "-i"}, &O::interactive, nullptr}, {{"--observing", "-o"}, &O::observing, nullptr}, {{"--check-invariants", "-c"}, &O::check_invariants, nullptr}, {{"--save-state-on-interrupt", "-ssi"}, &O::save_state_on_interrupt, nullptr}, {{"--statistics", "-stat"}, &O::print_stats, nullptr}, {{"--live-statistics", "-live-stat"}, &O::print_live_stats, nullptr}, {{"--proof", "-bp"}, &O::build_proof, nullptr}, {{"--check-proof", "-cp"}, &O::check_proof, nullptr}, {{"--print-proof", "-pp"}, &O::print_proof, nullptr}, {{"--record-dependencies"}, &O::record_dependencies, nullptr}, {{"--restarts"}, &O::restarts, nullptr}, {{"--backtrack-learned", "-bl"}, &O::backtrack_learned, nullptr}, {{"--use-max-approximate-cost-estimation", "-max-approx-cost"}, &O::use_max_approximate_cost_estimation, nullptr}, {{"--use-sum-approximate-cost-estimation", "-sum-approx-cost"}, &O::use_sum_approximate_cost_estimation, nullptr}, {{"--use-vsids-approximate-cost-estimation", "-vsids-approx-cost"}, &O::use_vsids_approximate_cost_estimation, nullptr},
  {{"--var-activity-decay"}, nullptr, &O::var_activity_decay}, {{"--clause-elimination-multiplier"}, nullptr, &O::clause_elimination_multiplier}, {{"--clause-activity-multiplier"}, nullptr, &O::clause_activity_multiplier}, {{"--clause-activity-threshold-decay"}, nullptr, &O::clause_activity_threshold_decay}, {{"--chunk-level-penalty"}, nullptr, &O::chunk_level_penalty}, {{"--backtrack-possibilities-limit"}, nullptr, &O::backtrack_possibilities_limit}, {{"--sync-weight"}, nullptr, &O::sync_weight}, {{"--timeout", "-t"}, nullptr, &O::timeout}, {{"--conflict-limit", "-cl"}, nullptr, &O::conflict_limit}}; return t; }
static std::string dump(const napsat::options& o) { std::ostringstream s; s.precision(17); for (auto& e : table()) { s << e.names[0] << "="; if (e.flag) s << (o.*e.flag ? "on" : "off"); else s << o.*e.num; s << "\n"; } s << "sentinel:"; for (auto& t : o.sentinel_options.received) s << " " << t; s << "\n"; return s.str(); }
struct Expected { std::string text; bool stop = false; };
static Expected expected(std::vector<std::string> t) {
  Expected e; napsat::options o; std::vector<std::string> rest, group; bool sw = false, si = false; std::string icf = "none";
  auto value = [](const std::vector<std::string>& v, size_t i) { return i + 1 < v.size() && !v[i + 1].empty() && v[i + 1][0] != '-'; };
  // 1. the environment
  for (size_t i = 0; i < t.size(); i++) { bool w = t[i] == "-sw" || t[i] == "--suppress-warning", f = t[i] == "-si" || t[i] == "--suppress-info"; if (w || f) { bool b = true; if (value(t, i)) { if (t[i + 1] != "on" && t[i + 1] != "off") continue; b = t[++i] == "on"; } (w ? sw : si) = b; } else if (t[i] == "-icf" || t[i] == "--invariant-configuration-folder") { if (value(t, i)) icf = t[++i]; } else rest.push_back(t[i]); }
  // 2. the group of the observer
  t.swap(rest); rest.clear(); bool seen = false;
  for (size_t i = 0; i < t.size(); i++) { rest.push_back(t[i]); if (seen || (t[i] != "-o" && t[i] != "--observing")) continue; seen = true; if (i + 1 >= t.size() || t[i + 1].empty() || t[i + 1][0] != '{') continue; size_t j = i + 1; std::string all; bool closed = false; for (; j < t.size() && !closed; j++) { all += t[j] + " "; closed = !t[j].empty() && t[j].back() == '}'; } if (!closed) continue; all.pop_back(); group = split(all.substr(1, all.size() - 2)); i = j - 1; }
  // 3. the options: the first valid occurrence counts, unknown ones are skipped
  std::set<const Opt*> set;
  for (size_t i = 0; i < rest.size(); i++) { const Opt* q = nullptr; for (auto& p : table()) for (auto& n : p.names) if (n == rest[i]) q = &p; if (!q || set.count(q)) continue;
    if (q->flag) { if (value(rest, i)) { if (rest[i + 1] == "on" || rest[i + 1] == "off") { o.*q->flag = rest[++i] == "on"; set.insert(q); } } else { o.*q->flag = true; set.insert(q); } }
    else if (value(rest, i)) { const char* b = rest[i + 1].c_str(); char* end; errno = 0; double d = std::strtod(b, &end); if (end != b && errno != ERANGE) { o.*q->num = d; set.insert(q); i++; } } }
  if (!(o.clause_activity_threshold_decay >= 0 && o.clause_activity_threshold_decay <= 1)) { e.stop = true; return e; }
  // 4. combinations
  bool gb = o.graph_backtracking; if (o.lazy_strong_chronological_backtracking) o.chronological_backtracking = true; if (gb) o.chronological_backtracking = o.lazy_strong_chronological_backtracking = false;
  if (!gb) o.lazy_chunk_merging = o.eager_chunk_merging = o.backtrack_first_chunk = o.backtrack_smallest_chunk = o.backtrack_learned = o.use_max_approximate_cost_estimation = o.use_sum_approximate_cost_estimation = o.use_vsids_approximate_cost_estimation = false;
  if (o.lazy_chunk_merging) o.eager_chunk_merging = false; if (o.backtrack_first_chunk) o.backtrack_smallest_chunk = false; if (o.use_max_approximate_cost_estimation) o.use_sum_approximate_cost_estimation = false; if (o.use_max_approximate_cost_estimation || o.use_sum_approximate_cost_estimation) o.use_vsids_approximate_cost_estimation = false;
  for (size_t i = 0; i + 1 < group.size(); i++) if (group[i] == "-commands") o.interactive = true;
  if (o.print_proof || o.check_proof) o.build_proof = true; if (!o.observing && !o.interactive) o.print_stats = o.print_live_stats = false;
  o.sentinel_options.received = group; e.text = dump(o) + "sw " + std::to_string(sw) + " si " + std::to_string(si) + " icf " + icf + "\n"; return e; }
static std::vector<std::string> tokens(const Case& c) { std::vector<std::string> v; for (auto& l : c) if (l.rfind("t ", 0) == 0 && l.size() > 2) v.push_back(l.substr(2)); return v; }
static Prop options_prop() {
  Prop p; p.id = "options"; p.rule = "random command lines: every option under every name, with and without values, repeated, with unusable values, unknown words, environment options and observer groups between them, contradictory strategies; the configuration they yield (all fields of the options, the environment, the tokens handed to the observer, or the refusal) is compared with an independent reading; non-trivial: at least two options";
  p.gen = [](Rng& r, int size) { Case c; int k = (int)r.range(1, 2 + size / 8); bool group = r.chance(1, 4); auto t = [&](const std::string& s) { c.push_back("t " + s); };
    static const std::vector<std::string> nums{"0", "1", "0.5", "0.25", "5", "1e3", "1e-3", ".5", "+2", "100000", "7.25", "2.", "1e999", "1e-999", "inf", "0x10", "5abc", "abc", "-1", "-0.5", "1.5", "0.999", "on", "nan"}, junk{"foo", "--foo", "-x", "on", "off", "1", "{", "}", "--gb", "-GB", "gb", "-", "--"};
    for (int i = 0; i < k; i++) { if (r.chance(1, 12)) { t(r.pick(junk)); continue; }
      if (r.chance(1, 8)) { if (r.chance(1, 4)) { t(r.chance(1, 2) ? "-icf" : "--invariant-configuration-folder"); if (r.chance(4, 5)) t("/some/folder"); } else { t(r.pick(std::vector<std::string>{"-sw", "-si", "--suppress-warning", "--suppress-info"})); if (r.chance(2, 3)) t(r.chance(1, 2) ? "on" : "off"); } continue; }
      const Opt& q = r.chance(1, 2) ? table()[r.range(0, 6)] : r.pick(table()); const std::string& name = r.pick(q.names); t(name);
      if (name == "-o" || name == "--observing") { if (group) { group = false; static const std::vector<std::string> gs{"{--gui}", "{}", "{-commands f.txt}", "{--gui -commands f.txt}", "{ a b }"}; std::string g = r.pick(gs); if (r.chance(1, 2)) t(g); else { auto w = split(g); for (auto& x : w) t(x); } continue; } }
      if (q.flag) { if (r.chance(1, 2)) t(r.chance(1, 10) ? r.pick(std::vector<std::string>{"yes", "1", "ON", "true"}) : r.chance(1, 2) ? "on" : "off"); } else if (r.chance(9, 10)) t(r.pick(nums)); }
    return c; };
  p.run = [](const Case& c, Ctx& x) { auto t = tokens(c); size_t names = 0; for (auto& s : t) for (auto& q : table()) for (auto& n : q.names) names += n == s; x.nontrivial = names >= 2; auto e = expected(t);
    auto o = child([&] { napsat::env::set_suppress_warning(false); napsat::env::set_suppress_info(false); napsat::env::set_invariant_configuration_folder("none"); std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); auto v = t; v = napsat::env::extract_environment_variables(v); bool sw = napsat::env::get_suppress_warning(), si = napsat::env::get_suppress_info(); napsat::options opt(v); std::cout.rdbuf(old); std::cout << dump(opt) << "sw " << sw << " si " << si << " icf " << napsat::env::get_invariant_configuration_folder() << "\n" << std::flush; _exit(0); });
    CHECK_THAT(!o.sig, "reading the command line died with signal " << o.sig); CHECK_THAT(o.code == (e.stop ? 1 : 0), "exit code " << o.code << ", expected " << (e.stop ? 1 : 0)); x.label(e.stop ? "refused" : "accepted"); if (e.stop) return;
    auto a = lines(o.text), b = lines(e.text); CHECK_THAT(a.size() == b.size(), "the configuration has " << a.size() << " lines"); for (size_t i = 0; i < a.size(); i++) CHECK_THAT(a[i] == b[i], "the configuration has '" << a[i] << "', expected '" << b[i] << "'"); };
  return p; }

// --- the program ----------------------------------------------------------------------------------

// --- the help -------------------------------------------------------------------------------------
struct Entry { std::string cat, type, def; std::vector<std::string> names, words, subs; std::vector<std::pair<std::string, bool>> reqs; };
static std::vector<Entry> read_help(const std::string& text) {
  std::vector<Entry> v; std::string cat; int part = 0;
  auto trim = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t i = s.find_first_not_of(' '); return i == std::string::npos ? std::string() : s.substr(i); };
  for (auto& raw : lines(text)) { std::string l = trim(raw); size_t in = raw.find_first_not_of(' ');
    if (l.rfind("*** ", 0) == 0 && l.size() > 8) { cat = l.substr(4, l.size() - 8); part = 0; continue; }
    if (in == 2 && l[0] == '-' && l.back() == ')' && l.find(", default ") != std::string::npos) { Entry e; e.cat = cat; size_t q = l.rfind(" ("), d = l.rfind(", default "); e.type = l.substr(q + 2, d - q - 2); e.def = l.substr(d + 10, l.size() - d - 11); std::string n = l.substr(0, q) + ","; for (size_t i = 0, k; (k = n.find(',', i)) != std::string::npos; i = k + 1) e.names.push_back(trim(n.substr(i, k - i))); v.push_back(e); part = 1; continue; }
    if (v.empty() || !part) continue; if (l.empty()) { part = 0; continue; } if (l == "requires:") { part = 2; continue; } if (l == "subsumes:") { part = 3; continue; }
    if (part == 1) { for (auto& w : split(l)) v.back().words.push_back(w); continue; }
    if (l.back() == ',') l.pop_back(); if (part == 3) { v.back().subs.push_back(l); continue; } size_t q = l.find('='); v.back().reqs.push_back({l.substr(0, q), q != std::string::npos && l.substr(q + 1) == "on"}); }
  return v; }
// The configuration that the help describes for options given once, with usable values.
static Prop help_prop() {
  Prop p; p.id = "help"; p.rule = "the help text is read back; command lines are made of the options it lists, under every listed name and with values of the listed type, and the configuration they yield is the one its defaults, requirements and subsumptions describe; every documented option is listed, and the program prints the same text; non-trivial: at least two options, one of which has a listed requirement or subsumption";
  p.gen = [](Rng& r, int size) { auto es = read_help(napsat::options::get_help_text()); Case c; if (es.empty()) return c; int k = (int)r.range(0, 1 + size / 12); std::vector<size_t> some; for (size_t i = 0; i < es.size(); i++) if (!es[i].reqs.empty() || !es[i].subs.empty() || r.chance(1, 3)) some.push_back(i);
    std::set<size_t> used; bool gb = r.chance(2, 3); if (gb) c.push_back("t --graph-backtracking"); for (int i = 0; i < k; i++) { size_t q = r.chance(1, 4) || some.empty() ? (size_t)r.range(0, (long long)es.size() - 1) : r.pick(some); auto& e = es[q]; if (gb && e.names[0] == "--graph-backtracking") continue; if (!used.insert(q).second) continue; c.push_back("t " + r.pick(e.names)); if (e.type == "bool") { if (r.chance(1, 2)) c.push_back(r.chance(3, 4) ? "t on" : "t off"); } else c.push_back("t " + r.pick(std::vector<std::string>{"0.5", "0.25", "1", "0", "0.125"})); }
    if (r.chance(1, 200)) c.push_back("program"); return c; };
  p.run = [](const Case& c, Ctx& x) { static const std::string text = napsat::options::get_help_text(); static const auto es = read_help(text); auto t = tokens(c); auto find = [&](const std::string& n) { for (auto& e : es) for (auto& q : e.names) if (q == n) return &e; return (const Entry*)nullptr; };
    for (auto& q : table()) { const Entry* e = find(q.names[0]); CHECK_THAT(e, "the help does not list " << q.names[0]); for (auto& n : q.names) CHECK_THAT(find(n) == e, "the help does not list " << n << " with " << q.names[0]); CHECK_THAT(e->type == (q.flag ? "bool" : "double"), "the help gives " << q.names[0] << " the type " << e->type); CHECK_THAT(!e->words.empty() || find(q.names[0]) == nullptr, "the help does not describe " << q.names[0]); }
    for (auto& l : c) if (l == "program") { auto a = cli({c.size() % 2 ? "-h" : "--help"}); CHECK_THAT(!a.sig && a.code == 0, "the program leaves the help with code " << a.code); CHECK_THAT(a.text.find(proofcheck::plain(text)) != std::string::npos, "the program prints another help"); x.label("program"); }
    std::map<const Entry*, std::string> given; for (size_t i = 0; i < t.size(); i++) { const Entry* e = find(t[i]); if (!e || given.count(e)) return; bool v = i + 1 < t.size() && !t[i + 1].empty() && t[i + 1][0] != '-'; if (e->type == "bool") { if (v && t[i + 1] != "on" && t[i + 1] != "off") return; given[e] = v ? t[++i] : "on"; } else { if (!v) return; given[e] = t[++i]; } }
    bool rules = false; for (auto& g : given) rules |= !g.first->reqs.empty() || !g.first->subs.empty(); x.nontrivial = given.size() >= 2 && rules;
    std::map<const Entry*, std::string> value; auto start = [&](const Entry* e) { auto g = given.find(e); return g == given.end() ? e->def : g->second; };
    auto active = [&](const Entry* e) { auto& v = value[e]; return e->type == "bool" ? v == "on" : given.count(e) && v != e->def; }; for (auto& e : es) value[&e] = start(&e);
    for (bool again = true; again;) { again = false; for (auto& e : es) { if (!active(&e)) continue; for (auto& s : e.subs) { const Entry* o = find(s); CHECK_THAT(o, "the help mentions the unknown option " << s); if (active(o) && value[o] != o->def) { value[o] = o->def; again = true; } } for (auto& q : e.reqs) { const Entry* o = find(q.first); CHECK_THAT(o, "the help mentions the unknown option " << q.first); if (active(o) != q.second && value[&e] != e.def) { value[&e] = e.def; again = true; } } } }
    auto on = [&](const char* n) { const Entry* e = find(n); return e && value[e] == "on"; };
    std::set<std::string> other; if (on("--graph-backtracking")) { other.insert("--chronological-backtracking"); other.insert("--lazy-strong-chronological-backtracking"); } if (on("--lazy-strong-chronological-backtracking")) other.insert("--chronological-backtracking"); if (on("--check-proof") || on("--print-proof")) other.insert("--proof"); if (!on("--observing") && !on("--interactive")) { other.insert("--statistics"); other.insert("--live-statistics"); }
    auto o = child([&] { napsat::env::set_suppress_warning(false); std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); auto v = t; napsat::options opt(v); std::cout.rdbuf(old); std::cout << (sink.str().find("Unknown option") != std::string::npos ? "unknown" : "known") << "\n" << dump(opt) << std::flush; _exit(0); });
    CHECK_THAT(!o.sig && o.code == 0, "reading the command line ended with code " << o.code << ", signal " << o.sig); auto a = lines(o.text); CHECK_THAT(!a.empty() && a[0] == "known", "an option that the help lists is unknown");
    for (auto& l : a) { size_t q = l.find('='); if (q == std::string::npos || l.rfind("--", 0)) continue; std::string n = l.substr(0, q), v = l.substr(q + 1); if (other.count(n)) continue; const Entry* e = find(n); const std::string& w = value[e]; bool same = e->type == "bool" ? v == w : std::fabs(std::atof(v.c_str()) - std::atof(w.c_str())) < 1e-6; CHECK_THAT(same, n << " is " << v << ", the help says " << w); } };
  return p; }

// --- the option system ----------------------------------------------------------------------------
struct Item { char type = 'b'; std::vector<std::string> names, words; std::string cat, sd, s; bool bd = false, b = false, set = false, range = false, fatal = false; double dd = 0, d = 0, lo = 0, hi = 0; std::vector<size_t> subs; std::vector<std::pair<size_t, bool>> reqs;
  bool active() const { return type == 'b' ? b : set; } std::string show(bool def) const { if (type == 'b') return (def ? bd : b) ? "on" : "off"; if (type == 's') return "\"" + (def ? sd : s) + "\""; return std::to_string(def ? dd : d); } bool outside(double v) const { return range && !(v >= lo && v <= hi); } };
static std::vector<Item> items(const Case& c) {
  std::vector<Item> v; std::string cat; for (auto& l : c) { auto t = split(l); if (t.empty()) continue; long long i = -1, j = -1; if (t.size() > 1) to_int(t[1], i); if (t.size() > 2) to_int(t[2], j);
    if (t[0] == "cat") { cat = t.size() > 1 ? t[1] : ""; continue; }
    if (t[0] == "o" && t.size() > 2) { Item o; o.cat = cat; o.type = t[1][0]; if (o.type == 'b') o.b = o.bd = t[2] == "on"; else if (o.type == 'd') o.d = o.dd = std::atof(t[2].c_str()); else { o.type = 's'; o.s = o.sd = t[2]; } o.names.push_back("--opt" + std::to_string(v.size())); v.push_back(o); continue; }
    if (i < 0 || i >= (long long)v.size()) continue; Item& o = v[(size_t)i]; if (t[0] == "al" && t.size() > 2) o.names.push_back(t[2]); else if (t[0] == "rg" && t.size() > 4 && o.type == 'd') { o.range = true; o.lo = std::atof(t[2].c_str()); o.hi = std::atof(t[3].c_str()); o.fatal = t[4] == "fatal"; } else if (t[0] == "br") o.words.assign(t.begin() + 2, t.end());
    else if (j >= 0 && j < (long long)v.size() && j != i) { if (t[0] == "sub") o.subs.push_back((size_t)j); else if (t[0] == "req" && t.size() > 3) o.reqs.push_back({(size_t)j, t[3] == "on"}); } }
  return v; }
static Prop parser_prop() {
  Prop p; p.id = "parser"; p.rule = "random sets of flags, numbers and words with aliases, categories, ranges, subsumptions and requirements, and random command lines; parsing follows an independent reading, the rules between options are at rest afterwards, an option no rule speaks against keeps its value and one that a rule speaks against has its default, ranges are enforced, and the help lists everything declared; non-trivial: at least two options given and one rule among them";
  p.gen = [](Rng& r, int size) { Case c; int n = (int)r.range(1, 2 + size / 14); std::vector<std::string> ty; static const std::vector<std::string> nums{"0", "1", "0.5", "-2", "7.25", "100", "1e3", "0.125"}, ws{"alpha", "beta", "gamma", "delta"};
    for (int i = 0; i < n; i++) { if (r.chance(1, 4)) c.push_back("cat " + r.pick(ws)); int k = (int)r.range(0, 5); std::string d = k < 3 ? (r.chance(1, 4) ? "on" : "off") : k < 5 ? r.pick(nums) : r.pick(ws); std::string tt = k < 3 ? "b" : k < 5 ? "d" : "s"; c.push_back("o " + tt + " " + d); ty.push_back(tt); std::string me = std::to_string(i); for (int q = 0; r.chance(1, 2) && q < 3; q++) c.push_back("al " + me + " -a" + me + std::string((size_t)q, 'x')); if (r.chance(3, 4)) { std::string b = "br " + me; for (int q = (int)r.range(1, 30); q; q--) b += " " + r.pick(ws); c.push_back(b); }
      if (tt == "d" && r.chance(1, 2)) { double v = std::atof(d.c_str()); c.push_back("rg " + me + " " + std::to_string(v - (double)r.range(0, 3)) + " " + std::to_string(v + (double)r.range(0, 3)) + (r.chance(1, 3) ? " fatal" : " warn")); } }
    int rules = (int)r.range(0, n * 2); for (int i = 0; i < rules && n > 1; i++) { std::string a = std::to_string(r.range(0, n - 1)), b = std::to_string(r.range(0, n - 1)); if (a == b) continue; c.push_back(r.chance(1, 3) ? "sub " + a + " " + b : "req " + a + " " + b + (r.chance(1, 2) ? " on" : " off")); }
    int k = (int)r.range(0, n + 2); for (int i = 0; i < k; i++) { if (r.chance(1, 12)) { c.push_back("t " + r.pick(std::vector<std::string>{"--no", "on", "x", "-", "--opt", "3"})); continue; } int q = (int)r.range(0, n - 1); std::string me = std::to_string(q); c.push_back("t " + (r.chance(2, 3) ? "--opt" + me : "-a" + me + (r.chance(1, 3) ? "x" : ""))); std::string& tt = ty[(size_t)q]; if (tt == "b") { if (r.chance(1, 2)) c.push_back(r.chance(1, 10) ? "t yes" : r.chance(3, 4) ? "t on" : "t off"); } else if (r.chance(9, 10)) c.push_back("t " + (tt == "d" ? r.pick(std::vector<std::string>{"0", "1", "2", "0.5", "7.25", "1e3", "1e999", "-1", "nan", "inf", "zz", "99"}) : r.pick(std::vector<std::string>{"alpha", "w", "-w", "\xc3\xa9t\xc3\xa9"}))); }
    return c; };
  p.run = [](const Case& c, Ctx& x) { auto m = items(c); if (m.empty()) return; { std::set<std::string> seen; for (auto& o : m) for (auto& n : o.names) if (!seen.insert(n).second) return; } auto t = tokens(c); size_t rules = 0, given = 0;
    auto o = child([&] { rlimit cpu{1, 2}; setrlimit(RLIMIT_CPU, &cpu); napsat::env::set_suppress_warning(true); napsat::OptionParser P; std::vector<std::unique_ptr<bool>> bs(m.size()); std::vector<std::unique_ptr<double>> ds(m.size()); std::vector<std::unique_ptr<std::string>> ss(m.size()); std::vector<napsat::Option*> q; std::string cat;
      for (size_t i = 0; i < m.size(); i++) { auto& k = m[i]; if (k.cat != cat) P.set_category(cat = k.cat); std::string br; for (auto& w : k.words) br += (br.empty() ? "" : " ") + w; napsat::Option* made; if (k.type == 'b') { bs[i].reset(new bool(k.bd)); made = &P.add_bool(k.names[0], *bs[i], br); } else if (k.type == 'd') { ds[i].reset(new double(k.dd)); auto& d = P.add_double(k.names[0], *ds[i], br); if (k.range) d.range(k.lo, k.hi, k.fatal); made = &d; } else { ss[i].reset(new std::string(k.sd)); made = &P.add_string(k.names[0], *ss[i], br); } for (size_t a = 1; a < k.names.size(); a++) made->alias(k.names[a]); q.push_back(made); }
      for (size_t i = 0; i < m.size(); i++) { for (size_t j : m[i].subs) q[i]->subsumes(*q[j]); for (auto& j : m[i].reqs) q[i]->require(*q[j.first], j.second); }
      std::cout << P.help_text("head\n") << "@@\n"; auto v = t; P.parse(v); P.resolve(); for (size_t i = 0; i < m.size(); i++) std::cout << (m[i].type == 'b' ? (*bs[i] ? "on" : "off") : m[i].type == 'd' ? std::to_string(*ds[i]) : "\"" + *ss[i] + "\"") << " " << q[i]->truthy() << " " << q[i]->current_to_string() << "\n"; std::cout << std::flush; _exit(0); });
    for (size_t i = 0; i < t.size(); i++) { Item* k = nullptr; for (auto& q : m) for (auto& n : q.names) if (n == t[i]) k = &q; if (!k || k->set) continue; bool v = i + 1 < t.size() && !t[i + 1].empty() && t[i + 1][0] != '-'; if (k->type == 'b') { if (!v) { k->b = k->set = true; } else if (t[i + 1] == "on" || t[i + 1] == "off") { k->b = t[++i] == "on"; k->set = true; } } else if (v && k->type == 's') { k->s = t[++i]; k->set = true; } else if (v) { errno = 0; char* end; const char* b = t[i + 1].c_str(); double d = std::strtod(b, &end); if (end != b && errno != ERANGE) { k->d = d; k->set = true; i++; } } }
    for (auto& k : m) { given += k.set; rules += k.set ? k.subs.size() + k.reqs.size() : 0; } x.nontrivial = given >= 2 && rules;
    CHECK_THAT(o.sig != SIGXCPU, "the rules between the options never come to rest"); CHECK_THAT(!o.sig, "the option system died with signal " << o.sig);
    // what must stay: no rule can speak against it
    std::vector<bool> against(m.size(), false); for (size_t i = 0; i < m.size(); i++) if (m[i].active()) for (size_t j : m[i].subs) against[j] = true; for (bool again = true; again;) { again = false; for (size_t i = 0; i < m.size(); i++) if (!against[i]) for (auto& q : m[i].reqs) if (q.second ? !m[q.first].active() || (against[q.first] && !(m[q.first].type == 'b' && m[q.first].bd)) : m[q.first].active()) { against[i] = true; again = true; break; } }
    bool must = false, may = false; for (size_t i = 0; i < m.size(); i++) if (m[i].fatal && m[i].outside(m[i].d)) { may = true; if (!against[i]) must = true; } if (must) CHECK_THAT(o.code == 1, "a value outside a strict range is accepted"); if (!may) CHECK_THAT(o.code == 0, "the option system ends the program with code " << o.code); if (o.code) { x.label("refused"); return; }
    auto a = lines(o.text); size_t h = 0; while (h < a.size() && a[h] != "@@") h++; CHECK_THAT(a.size() == h + 1 + m.size(), "there are " << a.size() << " lines"); std::string ht; for (size_t i = 0; i < h; i++) ht += a[i] + "\n"; auto es = read_help(ht); CHECK_THAT(es.size() == m.size(), "the help lists " << es.size() << " of " << m.size() << " options");
    for (size_t i = 0; i < m.size(); i++) { auto& e = es[i]; auto& k = m[i]; CHECK_THAT(e.names == k.names, "the help gives " << k.names[0] << " other names"); CHECK_THAT(e.words == k.words, "the help describes " << k.names[0] << " differently"); CHECK_THAT(e.cat == k.cat, "the help has " << k.names[0] << " in " << e.cat); CHECK_THAT(e.type == (k.type == 'b' ? "bool" : k.type == 'd' ? "double" : "string"), "the help gives " << k.names[0] << " the type " << e.type); CHECK_THAT(e.def == k.show(true), "the help gives " << k.names[0] << " the default " << e.def);
      std::vector<std::string> s; for (size_t j : k.subs) s.push_back(m[j].names[0]); CHECK_THAT(e.subs == s, "the help gives " << k.names[0] << " other subsumptions"); std::vector<std::pair<std::string, bool>> q; for (auto& j : k.reqs) q.push_back({m[j.first].names[0], j.second}); CHECK_THAT(e.reqs == q, "the help gives " << k.names[0] << " other requirements"); }
    std::vector<bool> act(m.size()); for (size_t i = 0; i < m.size(); i++) { auto& k = m[i]; auto w = a[h + 1 + i]; size_t sp = w.find(' '); std::string v = w.substr(0, sp); act[i] = w.substr(sp + 1, 1) == "1"; CHECK_THAT(w.substr(sp + 3) == v, k.names[0] << " says " << w.substr(sp + 3) << " but is " << v); if (k.type == 'b') CHECK_THAT(act[i] == (v == "on"), k.names[0] << " is " << v << " but " << (act[i] ? "" : "not ") << "active");
      CHECK_THAT(v == k.show(false) || v == k.show(true), k.names[0] << " is " << v); if (!against[i]) { CHECK_THAT(v == k.show(false), k.names[0] << " is " << v << ", no rule speaks against " << k.show(false)); if (k.active()) CHECK_THAT(act[i], k.names[0] << " is not active although no rule speaks against it"); } if (!act[i] && k.type != 'b') CHECK_THAT(v == k.show(true), k.names[0] << " is not active but is " << v); if (!k.active()) CHECK_THAT(!act[i], k.names[0] << " is active though it was not given"); }
    for (size_t i = 0; i < m.size(); i++) if (act[i]) { auto bad = [&](size_t j) { return act[j] && !(m[j].type == 'b' && m[j].bd); }; for (size_t j : m[i].subs) CHECK_THAT(!bad(j), m[i].names[0] << " and " << m[j].names[0] << " are both active"); if (m[i].type == 'b' && m[i].bd) continue; for (auto& q : m[i].reqs) CHECK_THAT(act[q.first] == q.second, m[i].names[0] << " is active, but " << m[q.first].names[0] << " is " << (q.second ? "not" : "also")); }
    x.label("accepted"); };
  return p; }

static gen::Formula some(Rng& r, int size) { auto f = gen::formula(r, std::max(2, (r.chance(1, 8) ? 40 : 12) * size / 100)); if (r.chance(1, 4)) f.cs.resize((size_t)r.range(0, (long long)f.cs.size())); if (r.chance(1, 40)) f.cs.push_back({}); if (r.chance(1, 4)) for (auto& c : f.cs) c = noisy(r, c, f.n); return f; }
static std::string words(Rng& r, bool proofs) { std::string o = gen::strategy(r); if (o.rfind("fields ", 0) == 0) o = o.substr(7); if (r.chance(1, 2)) o += gen::heuristics(r); if (proofs && r.chance(1, 3)) o += " " + r.pick(std::vector<std::string>{"-pp", "-cp", "-pp -cp", "-bp", "--print-proof"}); if (r.chance(1, 6)) o += " -iuv"; if (r.chance(1, 5)) o += " " + r.pick(std::vector<std::string>{"-o", "-c", "-i", "-o -stat", "-i -stat", "-stat", "-o -live-stat", "-o -c -stat -live-stat"}); if (r.chance(1, 4)) o += " " + r.pick(std::vector<std::string>{"-sw", "-si", "-sw on -si on", "-si off", "--foo", "-sw --bar"}); return o; }
static Prop program() {
  Prop p; p.id = "program"; p.rule = "the program run on files (random CNFs in random layouts, plain, xz or bz2; damaged texts; missing files) with random strategies, heuristics, limits, observers and proof options; exactly one answer line which is the truth, exit code 0; no answer and exit code 1 when the file cannot be read; printed proofs are valid derivations from the clauses of the file; non-trivial: at least three clauses, or a file that cannot be read";
  p.gen = [](Rng& r, int size) { Case c; auto f = some(r, size); std::string o = words(r, true); if (r.chance(1, 6)) o += r.chance(1, 2) ? " -cl " + std::to_string(r.range(0, 6)) : " -t " + r.pick(std::vector<std::string>{"0", "100000", "1e12", "0.5"}); c.push_back("w " + o); c.push_back("file " + std::to_string(r.chance(1, 4) ? r.range(1, 2) : 0) + " " + std::to_string(r.range(1, 2)) + " " + std::to_string(r.next() & 0xffffff)); if (r.chance(1, 8)) c.push_back(r.chance(1, 5) ? "absent" : "damage " + std::to_string(r.range(0, 5)) + " " + std::to_string(r.range(0, 100000))); lits(c, f.cs); return c; };
  p.run = [](const Case& c, Ctx& x) { auto cs = clauses(c); std::string o; long long kind = 0, streams = 1, seed = 1, d = -1, at = 0; bool absent = false; for (auto& l : c) { auto t = split(l); if (t.empty()) continue; if (t[0] == "w") o = l.substr(1); if (t[0] == "file" && t.size() > 3) { to_int(t[1], kind); to_int(t[2], streams); to_int(t[3], seed); } if (t[0] == "absent") absent = true; if (t[0] == "damage" && t.size() > 2) { to_int(t[1], d); to_int(t[2], at); } }
    kind = std::min<long long>(std::max<long long>(kind, 0), 2); streams = std::min<long long>(std::max<long long>(streams, 1), 3); std::string text = dimacs::render(cs, top(cs), (uint64_t)seed);
    if (d >= 0) { size_t q = (size_t)at % (text.size() + 1); static const std::vector<std::string> bits{"x", " 1.5 ", "p cnf", "\np cnf -1 2\n", " 99999999999 ", "\n% "}; text.insert(q, bits[(size_t)d % bits.size()]); }
    auto m = dimacs::meaning(text); if (m.huge || m.n > 400) return; std::string path = x.scratch + "/f" + dimacs::suffix((int)kind); if (!absent) dimacs::write(path, dimacs::pack(text, (int)kind, (int)streams, (uint64_t)seed + 7).bytes);
    std::vector<std::string> args{path}; for (auto& t : split(o)) args.push_back(t); auto out = cli(args); CHECK_THAT(!out.sig, "the program died with signal " << out.sig); auto a = answers(out);
    auto has = [&](const char* s) { for (auto& t : args) if (t == s) return true; return false; };
    if (absent || !m.ok) { bool refuted = !absent && !ref::sat(std::max(m.n, 1), m.cs); x.nontrivial = true; x.label("unreadable"); if (refuted && out.code == 0) { CHECK_THAT(a == std::vector<std::string>{"s UNSATISFIABLE"}, "a malformed file gets another answer than UNSATISFIABLE"); return; } CHECK_THAT(out.code == 1, "exit code " << out.code << " for a file that cannot be read"); CHECK_THAT(a.empty(), "a file that cannot be read gets the answer " << a[0]); return; }
    CHECK_THAT(out.code == 0, "exit code " << out.code); CHECK_THAT(a.size() == 1, a.size() << " answer lines"); bool e = ref::sat(std::max(m.n, 1), m.cs); bool may = has("-cl") || has("-t"); x.nontrivial = m.cs.size() >= 3;
    if (a[0] == "UNKNOWN" || a[0] == "s TIMEOUT") { CHECK_THAT(may, "the answer is " << a[0] << " without a limit"); x.label("stopped"); return; }
    CHECK_THAT(a[0] == (e ? "s SATISFIABLE" : "s UNSATISFIABLE"), "the answer is '" << a[0] << "', the formula is " << (e ? "satisfiable" : "unsatisfiable")); x.label(e ? "sat" : "unsat");
    CHECK_THAT(out.text.find("proof is invalid") == std::string::npos, "the program rejects its own proof");
    if (!e && (has("-pp") || has("--print-proof"))) { size_t q = out.text.find("\ns UNSATISFIABLE\n"); std::string pr = out.text.substr(q + 17); std::string only; for (auto& l : lines(pr)) if (l.find(": (") != std::string::npos) only += l + "\n"; proofcheck::check(only, m.cs); x.label("proof"); } };
  return p; }

// --- all models -----------------------------------------------------------------------------------
static Prop models() {
  Prop p; p.id = "models"; p.rule = "the program run with --all-models on CNFs over at most eight variables; it reports every model once (their number is compared with a truth table) and then UNSATISFIABLE; with -iuv at least one and at most all of them; non-trivial: at least two models";
  p.gen = [](Rng& r, int size) { Case c; auto f = gen::formula(r, std::max(1, 8 * size / 100)); f.cs.resize((size_t)r.range(0, (long long)f.cs.size())); if (r.chance(1, 4)) for (auto& k : f.cs) k = noisy(r, k, f.n); c.push_back("w " + words(r, false)); c.push_back("v " + std::to_string(r.chance(1, 2) ? f.n : top(f.cs))); c.push_back("lay " + std::to_string(r.next() & 0xffffff)); lits(c, f.cs); return c; };
  p.run = [](const Case& c, Ctx& x) { auto cs = clauses(c); std::string o; long long v = 0, lay = 1; for (auto& l : c) { auto t = split(l); if (t.size() > 1 && t[0] == "v") to_int(t[1], v); if (t.size() > 1 && t[0] == "lay") to_int(t[1], lay); if (!t.empty() && t[0] == "w") o = l.substr(1); } if (v < 0 || v > 9 || top(cs) > 9) return; std::string text = dimacs::render(cs, std::max((int)v, top(cs)), (uint64_t)lay); auto m = dimacs::meaning(text); if (!m.ok || m.n > 9) return; std::string path = x.scratch + "/f.cnf"; dimacs::write(path, text);
    std::vector<std::string> args{"--all-models", path}; bool iuv = false; for (auto& t : split(o)) { args.push_back(t); iuv |= t == "-iuv"; } auto out = cli(args); CHECK_THAT(!out.sig && out.code == 0, "the program ended with code " << out.code << ", signal " << out.sig); auto a = answers(out);
    ref::Table tb(std::max(m.n, 1)); for (auto& k : m.cs) tb.add(k); uint64_t want = tb.count(); if (m.n == 0 && want) want = 1; // no variable, one model
     uint64_t got = 0; size_t at = 0; while ((at = out.text.find("Model found: ", at)) != std::string::npos) { at += 13; CHECK_THAT(std::strtoull(out.text.c_str() + at, nullptr, 10) == got, "model number " << got << " is reported as " << out.text.substr(at, 6)); got++; }
    CHECK_THAT(a == std::vector<std::string>{"s UNSATISFIABLE"}, "the enumeration ends with " << a.size() << " answers"); if (iuv) CHECK_THAT(got <= want && (want == 0) == (got == 0), got << " models reported, there are " << want); else { bool fits = got == want; for (int q = m.n; q < std::max((int)v, top(cs)); q++) fits |= got == (want <<= 1); /* comments may name variables the header does not */ CHECK_THAT(fits, got << " models reported, there are " << want); } x.nontrivial = want >= 2; x.label(want ? "sat" : "unsat"); };
  return p; }

// --- interactive commands ---------------------------------------------------------------------------
struct Driver : sentinel::Listener {
  sut::Solver* s = nullptr; sentinel::SATSentinel* sent = nullptr; std::vector<std::string> script; size_t at = 0; std::vector<Clause> cs; int n = 0; size_t decided = 0, learned = 0, refused = 0, removed = 0, rounds = 0; std::string problem; bool iuv = false, must = false;
  std::map<unsigned, int> live; std::map<int, unsigned> why; std::vector<Clause> all; std::set<int> gone; std::vector<unsigned> del; int cur = -1; // clauses there and the given one each is (-1: learned), reasons, clauses ever given and those deleted by command
  void add_clause(unsigned cl, const std::vector<unsigned>&, bool ext) override { live[cl] = ext ? cur : -1; }
  void delete_clause(unsigned cl) override { live.erase(cl); del.push_back(cl); }
  void assign(unsigned raw, unsigned r) override { why[std::abs(sut::I(raw))] = r; }
  void unassign(unsigned raw) override { why.erase(std::abs(sut::I(raw))); }
  void update_reason(unsigned raw, unsigned r) override { why[std::abs(sut::I(raw))] = r; }
  void give(const Clause& k) { cur = (int)all.size(); all.push_back(k); }
  std::vector<Clause> kept() { std::vector<Clause> v; for (size_t i = 0; i < all.size(); i++) if (!gone.count((int)i)) v.push_back(all[i]); return v; }
  int count() { return (int)napsat::variables_count(*s); }
  bool one(const std::string& l) { // runs a command and compares with what it should do
    auto t = split(l); long long v; auto lit = [&](const std::string& w, bool there) { return to_int(w, v) && w.find('+') == std::string::npos && v != 0 && std::llabs(v) <= INT_MAX && (!there || std::llabs(v) <= n); };
    auto before = s->trail(); auto st = napsat::get_status(*s); int nb = count(); bool want = false, touch = true; Clause k; int d = 0; enum { NONE, DECIDE, AUTO, LEARN, QUIET, DELETE } kind = NONE; long long id = -1;
    if (l.empty()) { want = true; kind = st == status::SAT ? QUIET : AUTO; } else if (t.empty()) {}
    else if (t[0] == "DECIDE" && t.size() == 1) { want = true; kind = AUTO; }
    else if (t[0] == "DECIDE" && t.size() == 2 && lit(t[1], true) && !s->value((int)std::llabs(v))) { want = true; kind = DECIDE; d = (int)v; }
    else if (t[0] == "LEARN") { want = true; for (size_t i = 1; i < t.size() && want; i++) { want = lit(t[i], false); k.push_back((int)v); } if (want) kind = LEARN; }
    else if (t[0] == "PRINT" || t[0] == "HELP") { want = true; kind = QUIET; }
    else if (t[0] == "DELETE_CLAUSE" && t.size() == 2 && to_int(t[1], id) && id >= 0 && id <= INT_MAX && live.count((unsigned)id)) { bool reason = false; for (auto& w : why) reason |= w.second == (unsigned)id; want = !reason; if (want) kind = DELETE; }
    if (kind == LEARN) give(k); int given = kind == DELETE ? live[(unsigned)id] : -1; del.clear();
    bool got; { proofcheck::Capture cap; got = sent->parser->parse(l); } if (kind == DELETE && !got && !must) { want = false; kind = NONE; }
    if (kind == DELETE) { CHECK_THAT(del == std::vector<unsigned>{(unsigned)id} && !live.count((unsigned)id), "'" << l << "' deletes " << del.size() << " clauses"); if (given >= 0) gone.insert(given); removed++; CHECK_THAT(s->trail() == before && napsat::get_status(*s) == st, "'" << l << "' changes the assignment"); } else if (kind == NONE || kind == QUIET) CHECK_THAT(del.empty(), "'" << l << "' deletes a clause");
    (void)touch; CHECK_THAT(got == want, "command '" << l << "' is " << (got ? "accepted" : "refused")); auto after = s->trail();
    if (kind == NONE || kind == QUIET) { CHECK_THAT(after == before && napsat::get_status(*s) == st && count() == nb, "command '" << l << "' changes the state"); if (kind == NONE) refused++; return want; }
    if (kind == DECIDE) { auto exp = before; exp.push_back(d); CHECK_THAT(after == exp, "after '" << l << "' the literal is not the last one assigned"); CHECK_THAT(napsat::is_decided(*s, sut::L(d)), "after '" << l << "' the literal is no decision"); decided++; }
    if (kind == AUTO) { if (napsat::get_status(*s) == status::SAT) CHECK_THAT(after == before, "a decision in a complete assignment"); else { CHECK_THAT(after.size() == before.size() + 1, "the solver did not decide"); before.push_back(after.back()); CHECK_THAT(after == before, "the decision is not the last literal"); } }
    if (kind == LEARN) { for (int q : k) n = std::max(n, std::abs(q)); cs.push_back(k); learned++; CHECK_THAT(count() == n, "there are " << count() << " variables, expected " << n); }
    return want; }
  void checkpoint() override { if (!problem.empty()) { if (++rounds > 100000) _exit(3); { proofcheck::Capture cap; sent->parser->parse(""); } return; } try { if (++rounds > 20000) throw pbt::Fail("the solver does not come to an end"); while (at < script.size()) if (one(script[at++])) return; one(""); } catch (const pbt::Fail& f) { problem = f.what(); } } };
static Prop interactive() {
  Prop p; p.id = "interactive"; p.rule = "interactive runs: at each checkpoint a command of a random script (decisions of free, assigned and unknown literals, clauses learned from the user that may contradict the rest or mention new variables, print commands, malformed and unknown commands), then the empty command until the end; every command does what it says or is refused without effect, and the answer is that of the formula with the clauses learned; non-trivial: at least two commands took effect";
  p.gen = [](Rng& r, int size) { Case c; auto f = gen::formula(r, std::max(2, 12 * size / 100)); std::string o = gen::strategy(r) + (r.chance(1, 2) ? gen::heuristics(r) : ""); if (r.chance(1, 6)) o += " -iuv"; c.push_back("o " + o); f.cs.resize((size_t)r.range(0, (long long)f.cs.size())); lits(c, f.cs); c.push_back("n " + std::to_string(f.n)); int k = (int)r.range(1, 4 + size / 5); bool again = r.chance(1, 3);
    static const std::vector<std::string> bad{"DECIDE x", "DECIDE 0", "DECIDE 1 2", "DECIDE 999", "DECIDE -999", "DECIDE 99999999999", "DECIDE 1x", "DECIDE -", "LEARN x", "LEARN 1 0", "LEARN 1 y 2", "LEARN 99999999999", "FOO", "decide 1", "  ", "HINT", "HINT x", "HINT 0", "HINT 1 2 3", "HINT 999", "DELETE_CLAUSE", "DELETE_CLAUSE x", "DELETE_CLAUSE 99999", "DELETE_CLAUSE -1", "DELETE_CLAUSE 1 2", "DELETE_CLAUSE C1", "ASSUME", "ASSUME x", "ASSUME 0", "ASSUME 999", "FORGET", "FORGET x", "FORGET 1 2", "FORGET 999", "LEARN 2147483648", "DECIDE -2147483648"}, print{"PRINT trail", "PRINT trail-simple", "PRINT clause-set", "PRINT watch-lists", "PRINT", "PRINT foo", "PRINT trail x", "HELP"};
    auto cmd = [&]() -> std::string { switch (r.range(0, 9)) { case 0: return r.pick(bad); case 1: return r.pick(print); case 2: return "DECIDE"; case 3: return r.chance(1, 2) ? "" : "DELETE_CLAUSE " + std::to_string(r.range(0, r.chance(1, 2) ? 3 : (long long)f.cs.size() + 3)); case 4: case 5: { std::string s = "LEARN"; int w = (int)r.range(r.chance(1, 20) ? 0 : 1, 4); while (w--) s += " " + std::to_string(gen::lit(r, f.n + (r.chance(1, 6) ? 2 : 0))); return s; } default: return (r.chance(1, 10) ? " DECIDE\t" : "DECIDE ") + std::to_string(gen::lit(r, f.n)); } };
    for (int i = 0; i < k; i++) { c.push_back("! " + cmd()); if (again && r.chance(1, 6)) { auto e = gen::distinct(r, f.n, (int)r.range(1, 3)); c.push_back("then" + gen::show(e)); } } return c; };
  p.run = [](const Case& c, Ctx& x) { Driver d; std::string o = options_of(c); auto cs = clauses(c); int n = declared_of(c); if (n > 60 || top(cs) > 60) return; std::vector<std::vector<std::string>> rounds(1); std::vector<Clause> between; for (auto& l : c) { if (l.rfind("! ", 0) == 0) rounds.back().push_back(l.substr(2)); else if (l.rfind("then", 0) == 0) { between.push_back(ints(split(l))); rounds.emplace_back(); } }
    for (auto& ro : rounds) for (auto& l : ro) for (auto& t : split(l)) { long long v; if (to_int(t, v) && std::llabs(v) > 60 && std::llabs(v) != 999 && std::llabs(v) <= INT_MAX && l.find("LEARN") != std::string::npos) return; }
    sut::Solver s(o + " -i", (unsigned)n, &d); d.s = &s; d.sent = s.sent; d.iuv = s.o.ignore_unused_variables; CHECK_THAT(s.sent && s.sent->parser, "no commands can be given"); d.n = n; d.must = !s.o.lazy_strong_chronological_backtracking && !s.o.graph_backtracking && !s.o.record_dependencies; for (auto& k : cs) { d.give(k); s.add(k); for (int q : k) d.n = std::max(d.n, std::abs(q)); } d.cs = cs;
    for (size_t i = 0; i < rounds.size(); i++) { if (i) { for (int q : between[i - 1]) if (std::abs(q) > 60) return; d.give(between[i - 1]); s.add(between[i - 1]); d.cs.push_back(between[i - 1]); for (int q : between[i - 1]) d.n = std::max(d.n, std::abs(q)); } d.script = rounds[i]; d.at = 0; auto st = napsat::solve(s); if (!d.problem.empty()) throw Fail(d.problem); bool e = ref::sat(std::max(d.n, 1), d.cs); if (st == status::SAT && !d.gone.empty()) e = true; CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << ", the clauses are " << (e ? "satisfiable" : "unsatisfiable")); if (e) sut::check_model(s, d.kept(), d.n, !d.iuv); x.label(e ? "sat" : "unsat"); }
    x.nontrivial = d.decided + d.learned + d.removed >= 2; if (d.removed) x.label("deleted"); if (d.learned) x.label("learned"); if (d.refused) x.label("refused"); };
  return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {options_prop(), help_prop(), parser_prop(), program(), models(), interactive()}); }
