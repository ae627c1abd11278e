// Properties of reading formulas from files.
#include "dimacs.hpp"
#include "hist.hpp"
using namespace pbt; using namespace hist; using napsat::status;
static void lits(Case& c, const std::vector<Clause>& cs) { for (auto& k : cs) c.push_back("k" + gen::show(k)); }
static std::vector<Clause> clauses(const Case& c) { std::vector<Clause> v; for (auto& l : c) { auto t = split(l); if (!t.empty() && t[0] == "k") v.push_back(ints(t)); } return v; }
static int top(const std::vector<Clause>& cs) { int n = 0; for (auto& c : cs) for (int l : c) n = std::max(n, std::abs(l)); return n; }
// The solver holds exactly the given clauses over the given number of variables.
static void holds(sut::Solver& s, const std::vector<Clause>& cs, int n, Ctx& x) {
  bool e = ref::sat(std::max(n, 1), cs); auto st = napsat::solve(s); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << ", the formula is " << (e ? "satisfiable" : "unsatisfiable"));
  if (e) { CHECK_THAT((int)napsat::variables_count(s) == n, "there are " << napsat::variables_count(s) << " variables, expected " << n); sut::check_model(s, cs, n, true); } x.label(e ? "sat" : "unsat"); }
static gen::Formula some(Rng& r, int size) { auto f = gen::formula(r, std::max(2, (r.chance(1, 8) ? 40 : 10) * size / 100)); if (r.chance(1, 2)) { size_t k = (size_t)r.range(0, (long long)f.cs.size()); f.cs.resize(k); } if (r.chance(1, 40)) f.cs.insert(f.cs.begin() + r.range(0, (long long)f.cs.size()), Clause{}); if (r.chance(1, 4)) for (auto& c : f.cs) c = noisy(r, c, f.n); return f; }

// --- meaning of a file --------------------------------------------------------------------------
// The clauses found in the file are observed exactly: after loading, the solver must agree with the
// reference on the formula conjoined with each of several sets of unit clauses (fresh solvers).
static Prop meaning_prop() {
  Prop p; p.id = "meaning"; p.rule = "CNFs rendered with random layouts (clauses over several lines, several per line, comments anywhere, aliases and weights, blank lines, CRLF, signs and leading zeros, wrong counts, missing header, missing last 0, trailing % section) and loaded; the solver must hold exactly those clauses: same answer, and same answer under random unit clauses added afterwards; non-trivial: at least three clauses, and the answer with the units differs for some of them or the layout has a comment or a clause over several lines";
  p.gen = [](Rng& r, int size) { Case c; c.push_back("o " + gen::strategy(r)); if (r.chance(1, 4)) c.push_back("watch"); auto f = some(r, size); c.push_back("v " + std::to_string(r.chance(1, 3) ? f.n + r.range(0, 3) : top(f.cs))); c.push_back("lay " + std::to_string(r.next() & 0xffffff)); lits(c, f.cs); int k = (int)r.range(0, 4); while (k--) { std::string s = "u"; int w = (int)r.range(1, 5); while (w--) s += " " + std::to_string(gen::lit(r, std::max(1, f.n))); c.push_back(s); } return c; };
  p.run = [](const Case& c, Ctx& x) { auto cs = clauses(c); int n = top(cs); long long v = 0, lay = 1; bool watch = false; for (auto& l : c) { auto t = split(l); if (t.size() > 1 && t[0] == "v" && to_int(t[1], v) && v < 100000) n = std::max(n, (int)v); if (t.size() > 1 && t[0] == "lay") to_int(t[1], lay); if (l == "watch") watch = true; }
    std::string text = dimacs::render(cs, n, (uint64_t)lay); auto m = dimacs::meaning(text); if (m.huge) return; if (m.ok != true || m.cs != cs) throw std::runtime_error("the reference reader disagrees with the renderer"); // a harness defect
    std::string path = x.scratch + "/f.cnf"; dimacs::write(path, text); int declared = m.n; sentinel::Listener quiet;
    bool alias = watch && m.comments >= 1000;
    auto load = [&](sut::Solver& s) { CHECK_THAT(napsat::parse_dimacs(s, path.c_str()), "the file was rejected"); };
    { sut::Solver s(options_of(c), 0, watch ? &quiet : nullptr); load(s); bool e = ref::sat(std::max(declared, 1), cs); auto st = napsat::solve(s); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << ", the formula in the file is " << (e ? "satisfiable" : "unsatisfiable"));
      if (e) { (void)alias; int vc = (int)napsat::variables_count(s); CHECK_THAT(vc >= declared && vc <= std::max(n, declared), "there are " << vc << " variables, expected " << declared); sut::check_model(s, cs, declared, true); } x.label(e ? "sat" : "unsat"); }
    bool differs = false; for (auto& l : c) { auto t = split(l); if (t.empty() || t[0] != "u") continue; auto us = ints(t); auto all = cs; int nn = declared; for (int u : us) { all.push_back({u}); nn = std::max(nn, std::abs(u)); } sut::Solver s(options_of(c), 0, watch ? &quiet : nullptr); load(s); for (int u : us) s.add({u}); bool e = ref::sat(std::max(nn, 1), all), e0 = ref::sat(std::max(declared, 1), cs); auto st = napsat::solve(s); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "with units " << gen::show(us) << " the answer is " << sut::st(st) << ", expected " << (e ? "satisfiable" : "unsatisfiable")); if (e != e0) differs = true; }
    x.nontrivial = cs.size() >= 3 && (differs || m.comments || m.lines > cs.size() + 1); };
  return p; }

// --- several files, compressed files ------------------------------------------------------------
static Prop files_prop() {
  Prop p; p.id = "files"; p.rule = "one to three files loaded into one solver, each plain, xz or bz2 of one to three concatenated streams, with a solve between some of them; the answer is that of the conjunction; damaged copies (every kind of truncation, flipped bytes) are rejected or mean exactly the original; non-trivial: at least one compressed file and three clauses";
  p.gen = [](Rng& r, int size) { Case c; c.push_back("o " + gen::strategy(r)); int k = (int)r.range(1, 3); auto f = some(r, size); size_t per = f.cs.size() / (size_t)k + 1; for (int i = 0; i < k; i++) { c.push_back("file " + std::to_string(r.range(0, 2)) + " " + std::to_string(r.range(1, 3)) + " " + std::to_string(r.next() & 0xffffff)); for (size_t j = i * per; j < std::min(f.cs.size(), (i + 1) * per); j++) c.push_back("k" + gen::show(f.cs[j])); if (r.chance(1, 4)) c.push_back("solve"); } for (int q = (int)r.range(0, 6); q > 0; q--) c.push_back((r.chance(1, 2) ? "cut " : "flip ") + std::to_string(r.range(0, 100000)) + " " + std::to_string(r.range(0, 7))); return c; };
  p.run = [](const Case& c, Ctx& x) { sut::Solver s(options_of(c)); std::vector<Clause> all, cur; int n = 0; bool any = false, unsat = false; long long kind = 0, streams = 1, seed = 1; int idx = 0; std::string lastbytes, lasttext; int lastkind = 0; std::vector<size_t> borders;
    auto flush = [&] { if (!any) return; any = false; std::string text = dimacs::render(cur, top(cur), (uint64_t)seed); auto m = dimacs::meaning(text); if (m.cs != cur) throw std::runtime_error("the reference reader disagrees with the renderer"); auto pk = dimacs::pack(text, (int)kind, (int)streams, (uint64_t)seed + 7); std::string path = x.scratch + "/" + std::to_string(idx++) + dimacs::suffix((int)kind); dimacs::write(path, pk.bytes); CHECK_THAT(napsat::parse_dimacs(s, path.c_str()), "file " << path.substr(x.scratch.size()) << " was rejected"); all.insert(all.end(), cur.begin(), cur.end()); n = std::max(n, m.n); if (kind) { lastbytes = pk.bytes; lasttext = text; lastkind = (int)kind; borders = pk.borders; x.label(kind == 1 ? "xz" : "bz2"); if (streams > 1) x.label("streams"); } cur.clear(); };
    std::vector<std::pair<int, long long>> damage;
    auto ask = [&] { bool e = ref::sat(std::max(n, 1), all); auto st = napsat::solve(s); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << ", the conjunction of the files is " << (e ? "satisfiable" : "unsatisfiable")); if (e) sut::check_model(s, all, n, true); unsat = !e; x.label(e ? "sat" : "unsat"); };
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; if (t[0] == "file" && t.size() > 3) { flush(); to_int(t[1], kind); to_int(t[2], streams); to_int(t[3], seed); kind = std::min<long long>(std::max<long long>(kind, 0), 2); streams = std::min<long long>(std::max<long long>(streams, 1), 5); any = true; } else if (t[0] == "k" && any) cur.push_back(ints(t)); else if (t[0] == "solve") { flush(); ask(); } else if ((t[0] == "cut" || t[0] == "flip") && t.size() > 2) { flush(); long long a = 0, b = 0; to_int(t[1], a); to_int(t[2], b); if (lastbytes.empty()) continue;
        std::string d = lastbytes; size_t at = (size_t)(a % (long long)d.size()); bool border = false; if (t[0] == "cut") { d.resize(at); for (size_t q : borders) border |= q == at; } else d[at] = (char)(d[at] ^ (1 << (b & 7)));
        if (border) continue; std::string path = x.scratch + "/d" + dimacs::suffix(lastkind); dimacs::write(path, d); sut::Solver z(options_of(c)); bool ok = napsat::parse_dimacs(z, path.c_str()); if (t[0] == "cut") CHECK_THAT(!ok, "a file truncated to " << at << " of " << lastbytes.size() << " bytes was accepted"); if (ok) { auto m = dimacs::meaning(lasttext); bool e = ref::sat(std::max(m.n, 1), m.cs); auto st = napsat::solve(z); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "a damaged file was accepted with another meaning"); } else x.label("damage-rejected"); } }
    flush(); ask(); x.nontrivial = all.size() >= 3 && lastkind; };
  return p; }

// --- malformed files ----------------------------------------------------------------------------
static Prop malformed_prop() {
  Prop p; p.id = "malformed"; p.rule = "rendered CNFs mutated byte by byte (inserted, deleted, replaced and duplicated pieces, foreign tokens, numbers out of range) and random bytes, read as plain files and as files with a compression suffix; the parser terminates, and its verdict and the clauses it holds agree with an independent reader; non-trivial: the text is malformed, or it is well-formed and differs from what was rendered";
  p.gen = [](Rng& r, int size) { Case c; c.push_back("o " + gen::strategy(r)); auto f = some(r, size); std::string t = dimacs::render(f.cs, f.n, r.next()); if (r.chance(1, 10)) { t.clear(); int k = (int)r.range(0, 60); while (k--) t += (char)r.range(0, r.chance(1, 2) ? 255 : 70); }
    static const std::vector<std::string> bits{"p cnf 3 2\n", "p cnf", "p cnf -1 2\n", "p cnf 2 x\n", "p cnf 1\n", "p", "x", "0", " 0 ", "-", "--1", "1-", "1.5", "0x1", "99999999999", "-99999999999", "2147483648", "-2147483648", "1e5", "%", "\n%\n", "\nc\n", "c", "\n", "\r", " ", "\t", "-0", "+", "+1", "cw 1 2\n", "\nco 1 a\n", "\ncw 1 nan\n", "\ncw 1 -2\n", "\ncw 2 -0.5\n", "\ncw 5 inf\n", "\ncw 999999999999 1\n", std::string(1, '\0'), "\xff", "a", "p dnf 1 1\n", "\np cnf 4 4\n"};
    if (!r.chance(1, 8)) for (int k = (int)r.range(1, r.chance(1, 2) ? 1 : 6); k > 0; k--) { size_t at = (size_t)r.range(0, (long long)t.size()); switch (r.range(0, 4)) { case 0: t.insert(at, r.pick(bits)); break; case 1: if (at < t.size()) t.erase(at, (size_t)r.range(1, 4)); break; case 2: if (at < t.size()) t[at] = (char)r.range(0, 127); break; case 3: t.insert(at, t.substr(at / 2, (size_t)r.range(0, 20))); break; default: t.resize(at); } }
    c.push_back("suffix " + std::to_string(r.chance(1, 12) ? r.range(1, 4) : 0)); for (size_t i = 0; i < t.size(); i += 24) c.push_back("x " + hex(t.substr(i, 24))); return c; };
  p.run = [](const Case& c, Ctx& x) { std::string text; long long kind = 0; for (auto& l : c) { auto t = split(l); if (t.size() < 2) continue; if (t[0] == "x") text += unhex(t[1]); if (t[0] == "suffix") to_int(t[1], kind); } kind = std::min<long long>(std::max<long long>(kind, 0), 4);
    if (kind >= 3) { std::string path = x.scratch + (kind == 3 ? "" : "/absent.cnf"); sut::Solver s(options_of(c)); CHECK_THAT(!napsat::parse_dimacs(s, path.c_str()), "a " << (kind == 3 ? "folder" : "file that does not exist") << " was accepted"); x.label("unreadable"); return; }
    auto m = dimacs::meaning(text); if (m.huge) { x.label("too large"); return; } std::string path = x.scratch + "/m" + dimacs::suffix((int)kind); dimacs::write(path, text); sut::Solver s(options_of(c)); bool ok = napsat::parse_dimacs(s, path.c_str());
    if (kind) { CHECK_THAT(!ok, "plain text was accepted as a compressed file"); x.label("not compressed"); return; }
    int n = std::max(m.n, 1); bool e = m.n <= 400 ? ref::sat(n, m.cs) : false; if (m.n > 400) { x.label("too large"); return; }
    if (m.ok) { CHECK_THAT(ok, "a well-formed file was rejected"); auto st = napsat::solve(s); CHECK_THAT(st == (e ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << ", the file means something " << (e ? "satisfiable" : "unsatisfiable")); if (e) sut::check_model(s, m.cs, m.n, true); x.label("well-formed"); x.nontrivial = m.cs.size() >= 2; }
    else { if (ok) CHECK_THAT(!e && napsat::get_status(s) == status::UNSAT, "a malformed file was accepted"); else x.label("rejected"); x.label("malformed"); x.nontrivial = true; } };
  return p; }

// --- notes: weights and names of variables ---------------------------------------------------------
// "cw <var> <weight>" sets the weight of a variable, "co <var> <name>" names it for the observer; anything that is not
// exactly that is a comment. Lines of the case: "1|<text>" a line of the first file, "2|<text>" of the second file, the rest
// is a history, in which "load2" loads the second file.
struct Note { bool weight; int var; double w; std::string name; };
static bool note_of(const std::string& line, Note& n) {
  auto t = split(line); if (t.size() != 3 || (t[0] != "cw" && t[0] != "co")) return false; n.weight = t[0] == "cw"; size_t i = t[1][0] == '+' || t[1][0] == '-' ? 1 : 0; if (i == t[1].size() || t[1].size() > 15) return false; long long v = 0; for (size_t k = i; k < t[1].size(); k++) { if (t[1][k] < '0' || t[1][k] > '9') return false; v = v * 10 + (t[1][k] - '0'); } if (t[1][0] == '-' || v == 0 || v > INT_MAX) return false; n.var = (int)v;
  if (!n.weight) { n.name = t[2]; return true; } std::istringstream is(t[2]); is.imbue(std::locale::classic()); double w; if (t[2].find_first_not_of("0123456789+-.e") != std::string::npos || !(is >> w) || !is.eof() || !(w - w == 0)) return false; n.w = w; return true; }
static Prop notes_prop() {
  Prop p; p.id = "notes"; p.rule = "files with well-formed and malformed cw and co lines at random places, read at the start and in the middle of a history of decisions, limited solves and added clauses, under graph backtracking (and others); the names arrive at the observer exactly, the solver behaves step by step as one that read the same file with plain comments and was given the same weights by set_weight_function, and weights in files do not matter once a function is set; non-trivial: the history differs from one without weights, or at least two names are set";
  p.gen = [](Rng& r, int size) { Case c; std::string o = r.chance(3, 4) ? r.pick(std::vector<std::string>{"-gb", "-gb", "-gb -lcm", "-gb -ecm", "-gb -bl"}) : gen::strategy(r); c.push_back("o " + o); if (r.chance(1, 3)) c.push_back("watch"); if (r.chance(1, 8)) c.push_back("w " + std::to_string(r.range(0, 5)) + " " + std::to_string(r.range(0, 999)));
    auto f = gen::formula(r, std::max(3, 14 * size / 100)); int n = f.n; bool names = r.chance(1, 3);
    auto note = [&](int top) { auto var = [&] { std::string v = std::to_string(r.range(1, top)); if (r.chance(1, 15)) v = r.pick(std::vector<std::string>{"+", "0", "00"}) + v; return v; };
      static const std::vector<std::string> ws{"0", "1", "2", "5", "10", "0.5", "2.5", "0.25", "100", "1e3", "1e6", "7", "3", "+4", ".5", "6.", "1e-3", "1000000", "1.5e2"}, as{"x", "y_1", "p", "a&b", "0", "name", "12", "c", "cw", "-x"};
      static const std::vector<std::string> bad{"cw", "co", "cw x 1", "co 0 a", "cw 0 5", "cw 1", "co 1", "co -1 b", "cw -1 5", "cw 1 abc", "cost of things", "co 1 a b", "cw 1 2 3", "cw 1 nan", "cw 2 inf", "cw 1 -inf", "cw 1 1e400", "cw 2 5x", "cw 1x 5", "cw 1.0 7", "co 1.5 z", "cw 99999999999 5", "co 99999999999 z", "cw 1 9 0", "cw 2 = 7", "co 2 = a", "cwx 1 2", "cw: 1 2", "c w 1 9", "c cw 1 9", "c co 1 z", "cw 1,5 2", "cw 1 2,5", "cw 17 5x", "cw 18 nan", "cw 16", "cw 19 1 2", "cw 17 x", "co 18 a b", "co 16", "cw 20 1e400", "cw 17x 1", "cw -17 1", "co -18 x"};
      if (r.chance(1, 6)) { std::string b = r.pick(bad); return b; } bool w = !names || r.chance(2, 3); std::string gap = r.chance(1, 10) ? "  " : r.chance(1, 20) ? "\t" : " "; return (r.chance(1, 12) ? std::string("  ") : std::string()) + (w ? "cw" : "co") + gap + var() + gap + (w ? (r.chance(1, 25) ? "-1" : r.pick(ws)) : r.pick(as)) + (r.chance(1, 12) ? " " : ""); };
    int beyond = r.chance(1, 12) ? n + (int)r.range(1, 3) : n; size_t k = (size_t)r.range(0, (long long)f.cs.size()); if (r.chance(1, 2)) k = f.cs.size() - std::min(f.cs.size(), (size_t)r.range(0, 4));
    for (int q = (int)r.range(0, 4); q > 0; q--) c.push_back("1|" + note(n)); std::string h = "1|p cnf " + std::to_string(n) + " " + std::to_string(k); c.insert(r.chance(2, 3) ? c.begin() + 1 : c.end(), h); for (auto& q : std::vector<int>(r.range(1, n), 0)) { (void)q; c.push_back("1|" + note(beyond)); }
    for (size_t i = 0; i < k; i++) { c.push_back("1|" + gen::show(f.cs[i]) + " 0"); if (r.chance(1, 8)) c.push_back("1|" + note(beyond)); }
    bool two = r.chance(1, 2); if (two) for (int q = (int)r.range(1, 6); q > 0; q--) c.push_back("2|" + (r.chance(1, 6) ? gen::show(gen::distinct(r, n, (int)r.range(1, 4))) + " 0" : note(n))); Mix m{1, 1, 1, 0, 1, 1, 3, 5}; if (r.chance(1, 10)) m.w = 1;
    auto ops = [&](int q) { while (q--) op(r, c, m, n); }; ops((int)r.range(0, 6)); if (two) c.push_back("load2"); ops((int)r.range(0, 6)); int streak = 0; for (; k < f.cs.size(); k++) { c.push_back(line(how(r), f.cs[k])); if (++streak == 12) { c.push_back("solve"); streak = 0; } if (r.chance(1, 3)) ops((int)r.range(1, 3)); } c.push_back("solve"); return c; };
  p.run = [](const Case& c, Ctx& x) { struct Piece { std::string text; bool weight; int var; double w; }; std::vector<Piece> piece; bool watch = false; int header = 0, top = 0, first = 0; size_t names = 0; std::vector<Note> one; std::string with[2], plain[2]; std::vector<std::pair<unsigned, std::string>> expect[2]; bool seen = false;
    for (auto& l : c) { if (l == "watch") watch = true; if (l.size() < 2 || l[1] != '|' || (l[0] != '1' && l[0] != '2')) continue; int f = l[0] - '1'; std::string t = l.substr(2); auto w = split(t); if (w.size() >= 3 && w[0] == "p" && w[1] == "cnf") { if (f == 0 && !seen) { long long v; if (to_int(w[2], v) && v < 1000 && w.size() == 4) { header = (int)v; seen = true; } else continue; } else continue; }
      else { Note n; if (note_of(t, n)) { if (n.var > 1000) continue; if (!f && (n.weight || watch)) first = std::max(first, n.var); if (n.weight) { if (!f) one.push_back(n); top = std::max(top, n.var); } else { expect[f].push_back({(unsigned)n.var, n.name}); names++; if (watch) top = std::max(top, n.var); } with[f] += t + "\n"; plain[f] += "c " + t + "\n"; if (f) piece.push_back({t, n.weight, n.var, n.w}); continue; }
        if (!w.empty() && w[0][0] != 'c') { if (f == 0) seen = true; bool num = true; long long v; for (auto& q : w) num = num && to_int(q, v) && std::llabs(v) <= 1000; if (!num || w.back() != "0") continue; for (auto& q : w) { to_int(q, v); top = std::max(top, (int)std::llabs(v)); if (!f) first = std::max(first, (int)std::llabs(v)); } } }
      with[f] += t + "\n"; plain[f] += t + "\n"; if (f) piece.push_back({t, false, 0, 0}); }
    // variables that only a note mentions exist too, and then the rest of the comparison needs them to be declared
    bool same = top <= header; std::string path[2][2]; for (int f = 0; f < 2; f++) { path[f][0] = x.scratch + "/w" + std::to_string(f) + ".cnf"; path[f][1] = x.scratch + "/p" + std::to_string(f) + ".cnf"; dimacs::write(path[f][0], with[f]); dimacs::write(path[f][1], plain[f]); }
    struct Names : sentinel::Listener { std::vector<std::pair<unsigned, std::string>> got; std::set<unsigned> vars; std::string wrong; void add_variable(unsigned v) override { vars.insert(v); } void alias(unsigned v, const std::string& a) override { got.push_back({v, a}); if (!vars.count(v)) wrong = "a variable was named before it was announced"; } };
    enum { FILE_WEIGHTS, FUNCTION, NONE }; std::vector<std::string> log[3]; bool any = false;
    for (int kind : {FILE_WEIGHTS, FUNCTION, NONE}) { if (kind != FILE_WEIGHTS && !same) break; Names ear; sut::Solver s(options_of(c), 0, watch ? &ear : nullptr); auto ws = std::make_shared<std::map<unsigned, double>>(); bool own = false; auto given = [&] { if (own || kind != FUNCTION) return; napsat::set_weight_function(s, [ws](napsat::Tlit q) { auto it = ws->find((unsigned)q.var().value); return it == ws->end() ? 1.0 : it->second; }); };
      auto load = [&](int f) { auto read = [&](const std::string& p) { CHECK_THAT(napsat::parse_dimacs(s, p.c_str()), "the file was rejected"); };
        if (kind == FUNCTION && f) { for (auto& q : piece) { if (q.weight) (*ws)[(unsigned)q.var] = q.w; else { std::string p = x.scratch + "/line.cnf"; dimacs::write(p, q.text + "\n"); read(p); } if (napsat::get_status(s) == status::UNSAT) return; } return; }
        read(path[f][kind != FILE_WEIGHTS]); if (kind == FUNCTION) for (auto& n : one) (*ws)[(unsigned)n.var] = n.w; };
      for (auto& l : c) { auto t = split(l); if (t.empty() || t[0] != "w") { if (t.empty() || t[0] == "o" || t[0] == "watch") continue; break; } long long a = 0, b = 0; if (t.size() > 2) { to_int(t[1], a); to_int(t[2], b); } napsat::set_weight_function(s, [a, b](napsat::Tlit q) { return Hist::weight((int)a, (uint64_t)b, q); }); own = true; break; }
      given(); load(0); if (kind == FILE_WEIGHTS) { int vc = (int)napsat::variables_count(s), most = 0; for (auto& n : one) most = std::max(most, n.var); if (watch) for (auto& n : expect[0]) most = std::max(most, (int)n.first); if (napsat::get_status(s) != status::UNSAT) { CHECK_THAT(vc >= most, "a note gives variable " << most << " but there are " << vc << " variables"); CHECK_THAT(vc <= std::max(header, first), "there are " << vc << " variables, but the file mentions " << std::max(header, first)); } }
      bool loaded = false, broke = false; auto record = [&](const std::string& l) { std::string q = l + " ->"; for (int k : s.trail()) q += " " + std::to_string(k); log[kind].push_back(q + " " + sut::st(napsat::get_status(s))); }; record("load"); auto state = [&] { return napsat::get_status(s); };
      bool head = true;
      for (auto& l : c) { if (l.size() > 1 && l[1] == '|') { head = false; continue; } auto t = split(l); if (t.empty()) continue; auto k = ints(t); bool far = false; for (int q : k) far |= std::abs(q) > std::max(header, 1); if (state() == status::UNSAT) { broke = true; break; }
        if (t[0] == "w" && !head) { long long a = 0, b = 0; if (t.size() > 2) { to_int(t[1], a); to_int(t[2], b); } napsat::set_weight_function(s, [a, b](napsat::Tlit q) { return Hist::weight((int)a, (uint64_t)b, q); }); own = true; }
        else if (t[0] == "load2") { load(1); loaded = true; } else if (t[0] == "a" && !far) s.add(k); else if (t[0] == "p" && !far) s.push(k); else if (t[0] == "solve") napsat::solve(s); else if (t[0] == "lim" && t.size() > 1) { long long v = 0; to_int(t[1], v); napsat::solve_limited(s, (unsigned)std::max<long long>(v, 0)); } else if (t[0] == "sync") napsat::synchronize(s);
        else if (t[0] == "prop") { if (state() == status::UNKNOWN) napsat::propagate(s); } else if (t[0] == "dec") { if (state() == status::UNKNOWN && napsat::propagate(s)) napsat::decide(s); } else if (t[0] == "dl" && !k.empty() && !far && std::abs(k[0]) <= (int)napsat::variables_count(s)) { if (state() == status::UNKNOWN && napsat::propagate(s) && s.value(std::abs(k[0])) == 0) napsat::decide(s, sut::L(k[0])); }
        else if (t[0] == "blk") { if (state() != status::SAT) continue; Clause b; for (int q : s.trail()) b.push_back(-q); if (!b.empty()) s.add(b); } else continue; record(l); }
      if (kind == FILE_WEIGHTS && watch) { CHECK_THAT(ear.wrong.empty(), ear.wrong); auto all = expect[0]; if (loaded) all.insert(all.end(), expect[1].begin(), expect[1].end()); bool prefix = ear.got.size() <= all.size() && std::equal(ear.got.begin(), ear.got.end(), all.begin()); CHECK_THAT(prefix && (broke || state() == status::UNSAT || ear.got.size() == all.size()), "the observer was told " << ear.got.size() << " names, the file has " << all.size() << (prefix ? "" : ", and others") << (ear.got.empty() ? "" : ", the last one is " + ear.got.back().second)); } any |= own; }
    if (same) { for (size_t i = 0; i < std::max(log[0].size(), log[1].size()); i++) CHECK_THAT(i < log[0].size() && i < log[1].size() && log[0][i] == log[1][i], "with the weights in the file: " << (i < log[0].size() ? log[0][i] : "-") << "; with the same weights as a function: " << (i < log[1].size() ? log[1][i] : "-")); x.label("compared"); if (log[0] != log[2]) { x.label("weights matter"); x.nontrivial = true; } if (any) x.label("own function"); } else x.label("beyond the header"); if (watch && names >= 2) { x.nontrivial = true; x.label("names"); } };
  return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {meaning_prop(), files_prop(), malformed_prop(), notes_prop()}); }
