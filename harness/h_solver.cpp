// Properties of the solver, through its public API.
#include "hist.hpp"
#include <atomic>
#include <thread>
#include <chrono>
using namespace pbt; using namespace hist; using napsat::status;

static Clause block_of(const std::vector<int>& t) { Clause b; for (int q : t) b.push_back(-q); return b; }
static void strategy_label(Ctx& x, const std::string& o) { std::string s = "ncb"; for (const char* k : {"-cb", "-lscb", "-gb"}) for (auto& t : split(o)) if (t == k) s = k; if (s == "-gb") for (const char* k : {"-lcm", "-ecm", "-bsc", "-bfc", "-bl"}) for (auto& t : split(o)) if (t == k) s += k; x.label("strategy:" + s); }

// --- verdict ------------------------------------------------------------------------------------
static Prop verdict() {
  Prop p; p.id = "verdict"; p.rule = "one CNF from ten families (k-SAT near the threshold, mixed widths, pigeonhole, parity, colouring, chains...), one strategy and one set of heuristic options; answer compared with a reference procedure; non-trivial: at least one decision was needed or the formula is refuted with at least two clauses";
  p.gen = [](Rng& r, int size) { Case c; bool heur = r.chance(1, 2); std::string o = header(r, c, heur); int maxn = r.chance(1, 3) ? 12 : r.chance(1, 2) ? 30 : 70; auto f = r.chance(1, 25) ? gen::hard(r, size) : gen::formula(r, std::max(2, maxn * size / 100)); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line(how(r), cl)); c.push_back("solve"); return c; };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); for (auto& l : c) { h.step(l); h.check_status(l); }
    strategy_label(x, options_of(c)); x.label(h.sats ? "sat" : "unsat"); bool dec = false; for (int q : h.s.trail()) dec |= napsat::is_decided(h.s, sut::L(q)); x.nontrivial = dec || (h.unsats && h.cs.size() >= 2); };
  return p; }

// --- model --------------------------------------------------------------------------------------
static Prop model() {
  Prop p; p.id = "model"; p.rule = "satisfiable-leaning formulas and histories with partial declarations, fresh variables and blocking clauses; every SAT answer is checked clause by clause and query by query; non-trivial: at least one SAT answer with a decision in it";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.blk = 3; m.fresh = 2; m.sync = 1; m.prop = 1; m.dec = 1; m.dl = 1; if (r.chance(1, 2)) return history(r, size, 40, true, m);
    Case c; std::string o = header(r, c, true); int n = (int)r.range(2, std::max(3, 60 * size / 100)); auto f = gen::random_ksat(r, std::max(3, n), 1.5 + 2.3 * r.unit(), 3); gen::permute(r, f); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line(how(r), noisy(r, cl, f.n))); c.push_back("solve"); for (int k = gb(o) ? 3 : 8; k > 0; k--) { c.push_back("blk"); c.push_back("solve"); } return c; };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); int checked = 0;
    for (auto& l : c) { h.step(l); h.check_status(l);
      if (h.state() == status::SAT) { checked++; bool dec = false;
        sut::check_model(h.s, h.cs, h.n, true); CHECK_THAT((int)napsat::variables_count(h.s) == h.n, "variables_count is " << napsat::variables_count(h.s) << ", expected " << h.n);
        // the queries agree with each other
        for (int q : h.s.trail()) { if (napsat::is_decided(h.s, sut::L(q))) { dec = true; CHECK_THAT(!napsat::is_root_level(h.s, (unsigned)std::abs(q)), "literal " << q << " is both decided and fixed at root level"); } }
        if (dec) x.nontrivial = true; } }
    strategy_label(x, options_of(c)); x.label(checked ? "sat" : "nosat"); };
  return p; }

// --- incremental --------------------------------------------------------------------------------
static Prop incremental() {
  Prop p; p.id = "incremental"; p.rule = "histories mixing clause additions (in one call or literal by literal), fresh variables, solves, propagations, hand decisions, synchronisations and blocking clauses; non-trivial: clauses were added after an answer and at least two answers were given";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.blk = 2; m.dec = 1; m.dl = 2; return history(r, size, r.chance(1, 2) ? 12 : 40, r.chance(1, 2), m, "", r.chance(1, 2)); };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); for (auto& l : c) { h.step(l); h.check_status(l); }
    strategy_label(x, options_of(c)); if (h.sats && h.unsats) x.label("sat-then-unsat"); x.nontrivial = h.solves >= 2 && h.added_after_solve > 0; };
  return p; }

// --- enumeration --------------------------------------------------------------------------------
static Prop enumeration() {
  Prop p; p.id = "enumeration"; p.rule = "formulas of at most 9 variables; models are enumerated with blocking clauses built from the whole model, from its decisions only, or from a projection; the collection is compared with the truth table; non-trivial: at least two models";
  p.gen = [](Rng& r, int size) { Case c; std::string o = header(r, c, r.chance(1, 2)); int mx = std::max(2, 9 * size / 100); Clause dummy; gen::Formula f; do { f = gen::formula(r, mx); } while (f.n > 9); if (r.chance(1, 2)) f.cs.resize(f.cs.size() / 2); if (r.chance(1, 3)) f.cs.resize(f.cs.size() / 2); c.push_back("n " + std::to_string(f.n)); for (auto& cl : f.cs) c.push_back(line(how(r), cl)); c.push_back(r.pick(std::vector<std::string>{"mode full", "mode full", "mode decisions", "mode projection " + std::to_string(r.range(1, f.n))})); c.push_back("sync " + std::to_string(r.range(0, 1))); return c; };
  p.run = [](const Case& c, Ctx& x) {
    Hist h(c); std::string mode = "full"; long long k = 1 << 20, sy = 0; for (auto& l : c) { auto t = split(l); if (t.empty()) continue; if (t[0] == "mode" && t.size() > 1) { mode = t[1]; if (t.size() > 2) to_int(t[2], k); } else if (t[0] == "sync") { if (t.size() > 1) to_int(t[1], sy); } else if (t[0] == "a" || t[0] == "p") h.step(l); }
    if (h.n > 9) return; if (mode != "projection") k = 1 << 20; const int n = h.n; auto cs0 = h.cs;
    auto sat = [&](unsigned a) { for (auto& cl : cs0) { bool ok = false; for (int q : cl) ok |= ((a >> (std::abs(q) - 1)) & 1) == (q > 0); if (!ok) return false; } return true; };
    unsigned mask = k >= n ? (1u << n) - 1 : (1u << k) - 1; std::set<unsigned> want; for (unsigned a = 0; a < (1u << n); a++) if (sat(a)) want.insert(a & mask);
    std::set<unsigned> got;
    while (true) {
      auto st = napsat::solve(h.s); if (st == status::UNSAT) break; CHECK_THAT(st == status::SAT, "solve returned " << sut::st(st));
      unsigned a = 0; for (int v = 1; v <= n; v++) { int q = h.s.value(v); CHECK_THAT(q != 0, "variable " << v << " has no value in a model"); if (q > 0) a |= 1u << (v - 1); }
      CHECK_THAT(sat(a), "enumerated an assignment that is not a model"); CHECK_THAT(got.insert(a & mask).second, "the same model was enumerated twice"); CHECK_THAT(got.size() <= want.size(), "more models than exist");
      Clause b; for (int q : h.s.trail()) { if (std::abs(q) > k) continue; if (mode == "decisions" && !napsat::is_decided(h.s, sut::L(q))) continue; b.push_back(-q); }
      if (sy) napsat::synchronize(h.s); h.s.add(b); }
    CHECK_THAT(got == want, "enumerated " << got.size() << " models, there are " << want.size());
    CHECK_THAT(napsat::solve(h.s) == status::UNSAT, "the status changed after exhaustion");
    strategy_label(x, options_of(c)); x.label(mode); x.nontrivial = want.size() >= 2; };
  return p; }

// --- limits -------------------------------------------------------------------------------------
struct ConflictCounter : sentinel::Listener { long learned = 0, decisions = 0; void add_clause(unsigned, const std::vector<unsigned>&, bool ext) override { if (!ext) learned++; } void assign(unsigned, unsigned r) override { if (r == 0xFFFFFFFFu) decisions++; } };
static Prop limits() {
  Prop p; p.id = "limits"; p.cpu_limit_s = 40; p.rule = "histories of solve_limited calls with limits 0..6 mixed with additions and full solves, runs under the conflict-limit and timeout options, and limited resolution of hard formulas; non-trivial: at least one run stopped with UNKNOWN and a later one concluded, or a hard formula was stopped";
  p.gen = [](Rng& r, int size) {
    int kind = (int)r.range(0, 19);
    if (kind < 12) { Mix m; m.solve = 1; m.lim = 5; m.blk = 1; m.dl = 1; auto c = history(r, size, 30, r.chance(1, 2), m); c.insert(c.begin(), "kind history"); return c; }
    if (kind < 15) { Case c; c.push_back("kind resume " + std::to_string(r.range(1, 4))); header(r, c, r.chance(1, 2)); auto f = gen::formula(r, std::max(4, 24 * size / 100)); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line("a", cl)); return c; }
    if (kind < 17) { Case c; long k = r.range(0, 5); c.push_back("kind option " + std::to_string(k)); header(r, c, false, " --conflict-limit " + std::to_string(k)); auto f = gen::formula(r, std::max(4, 30 * size / 100)); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line("a", cl)); return c; }
    Case c; bool time = kind == 17; long k = time ? r.range(0, 30) : r.range(1, 60); c.push_back(std::string("kind ") + (time ? "hardtime " : "hard ") + std::to_string(k));
    std::string o = header(r, c, false, time ? " --timeout " + std::to_string(k) : ""); int hsz = time ? 11 : (int)r.range(8, 10); auto f = gen::php(hsz + 1, hsz); c.push_back("n 0"); c.push_back("php " + std::to_string(hsz + 1) + " " + std::to_string(hsz)); return c; };
  p.run = [](const Case& c, Ctx& x) {
    std::string kind = "history"; long long k = 0; for (auto& l : c) { auto t = split(l); if (!t.empty() && t[0] == "kind" && t.size() > 1) { kind = t[1]; if (t.size() > 2) to_int(t[2], k); } }
    ConflictCounter cc; const bool watch = kind == "hard" || kind == "option";
    Hist h(c, "", watch ? &cc : nullptr); strategy_label(x, options_of(c)); x.label(kind);
    if (kind == "history") { bool later = false; for (auto& l : c) { int u = h.unknowns; h.step(l); h.check_status(l); if (u && (h.sats + h.unsats)) later = true; } x.nontrivial = later; if (h.unknowns) x.label("stopped"); return; }
    for (auto& l : c) { auto t = split(l); if (t.size() == 3 && t[0] == "php") { long long a = 0, b = 0; to_int(t[1], a); to_int(t[2], b); if (a < 1 || b < 1 || a > 14 || b > 14) return; for (auto& cl : gen::php((int)a, (int)b).cs) { h.note(cl); h.s.add(cl); } } else if (!t.empty() && (t[0] == "a" || t[0] == "p")) h.step(l); }
    auto t0 = std::chrono::steady_clock::now(); auto secs = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    if (kind == "resume") { int stops = 0; for (int i = 0; i < 200000; i++) { auto st = napsat::solve_limited(h.s, (unsigned)std::max(1ll, k)); if (st == status::UNKNOWN) { stops++; continue; } h.check_answer(st, false); x.nontrivial = stops > 0; if (stops) x.label("stopped"); return; } throw Fail("resuming a limited search 200000 times does not conclude"); }
    if (kind == "option") { auto st = napsat::solve(h.s); h.check_answer(st, true); long stop = cc.learned; if (st == status::UNKNOWN) { x.label("stopped"); x.nontrivial = true; CHECK_THAT(cc.learned > 0, "stopped at the conflict limit without a conflict"); } (void)stop; return; }
    if (kind == "hard") { // unsatisfiable by the pigeonhole principle; far beyond k conflicts
      long before = 0; for (int i = 0; i < 3; i++) { auto st = napsat::solve_limited(h.s, (unsigned)k); CHECK_THAT(st != status::SAT, "SAT for a pigeonhole formula"); if (st == status::UNKNOWN) { x.label("stopped"); x.nontrivial = true; } long n = cc.learned - before; before = cc.learned; CHECK_THAT(n <= 4 * k + 8, n << " clauses were learned under a limit of " << k << " conflicts"); CHECK_THAT(st == status::UNSAT || n >= 1, "stopped before any conflict"); if (st == status::UNSAT) break; } return; }
    if (kind == "hardtime") { auto st = napsat::solve(h.s); CHECK_THAT(st != status::SAT, "SAT for a pigeonhole formula"); CHECK_THAT(secs() < 20, "the timeout of " << k << " ms did not stop the search for " << secs() << " s"); if (st == status::UNKNOWN) { x.label("stopped"); x.nontrivial = true; } return; } };
  return p; }

// --- presentation -------------------------------------------------------------------------------
static Prop presentation() {
  Prop p; p.id = "presentation"; p.rule = "a formula and a second presentation of it (variables renamed and flipped, clauses and literals permuted, literals and clauses repeated, tautologies and subsumed clauses inserted, other way of adding, other variable declaration, other strategy); non-trivial: the presentations differ and one clause has at least two literals";
  p.gen = [](Rng& r, int size) {
    Case c; header(r, c, r.chance(1, 2)); auto f = gen::formula(r, std::max(2, (r.chance(1, 2) ? 12 : 40) * size / 100)); for (auto& cl : f.cs) c.push_back(line(how(r), cl));
    c.push_back("second"); c.push_back("o2 " + (r.chance(1, 2) ? split(c[0]).size() > 1 ? c[0].substr(2) : "" : gen::strategy(r) + gen::heuristics(r))); c.push_back("n2 " + std::to_string(r.range(0, f.n + 3)));
    c.push_back("noise " + std::to_string(r.range(1, 1000000))); return c; };
  p.run = [](const Case& c, Ctx& x) {
    std::string o1, o2; long long n2 = 0, seed = 1; int n = 1; std::vector<Clause> cs; std::vector<bool> one;
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; auto rest = [&] { size_t q = l.find(t[0]); return l.substr(q + t[0].size()); }; if (t[0] == "o") o1 = rest(); else if (t[0] == "o2") o2 = rest(); else if (t[0] == "n2" && t.size() > 1) to_int(t[1], n2); else if (t[0] == "noise" && t.size() > 1) to_int(t[1], seed); else if (t[0] == "a" || t[0] == "p") { auto k = ints(t); for (int q : k) n = std::max(n, std::abs(q)); cs.push_back(k); one.push_back(t[0] == "a"); } }
    sut::Solver a(o1, 0); for (size_t i = 0; i < cs.size(); i++) { if (one[i]) a.add(cs[i]); else a.push(cs[i]); } auto sa = napsat::solve(a);
    Rng r((uint64_t)seed); gen::Formula g{n, cs, ""}; std::vector<Clause> extra; for (auto& k : cs) { if (r.chance(1, 8)) extra.push_back(k); if (r.chance(1, 10)) { auto w = k; w.push_back(gen::lit(r, n)); w.push_back(gen::lit(r, n)); extra.push_back(w); } if (r.chance(1, 12)) { int l = gen::lit(r, n); extra.push_back({l, -l}); } if (r.chance(1, 12)) { int l = gen::lit(r, n); extra.push_back({l, gen::lit(r, n), -l, l}); } }
    for (auto& k : extra) g.cs.push_back(k); for (auto& k : g.cs) k = noisy(r, k, n, true); gen::permute(r, g);
    sut::Solver b(o2, (unsigned)std::max(0ll, std::min(n2, 1000ll))); for (auto& k : g.cs) { if (r.chance(1, 2)) b.add(k); else b.push(k); } auto sb = napsat::solve(b);
    bool e = ref::sat(n, cs); CHECK_THAT(sa == (e ? status::SAT : status::UNSAT), "first presentation: " << sut::st(sa) << ", expected " << e); CHECK_THAT(sb == (e ? status::SAT : status::UNSAT), "second presentation: " << sut::st(sb) << ", expected " << e);
    if (e) { sut::check_model(a, cs, 0); sut::check_model(b, g.cs, (int)std::max(0ll, std::min(n2, 1000ll))); }
    x.label(e ? "sat" : "unsat"); strategy_label(x, o2); for (auto& k : cs) if (k.size() > 1) x.nontrivial = true; };
  return p; }

// --- propagation closure ------------------------------------------------------------------------
static void check_closed(Hist& h, std::vector<int>& decisions) {
  auto val = [&](int q) { int v = h.s.value(std::abs(q)); return q > 0 ? v : -v; };
  std::set<int> seen; auto tr = h.s.trail();
  for (int q : tr) { CHECK_THAT(val(q) == 1, "literal " << q << " is on the trail but not true"); CHECK_THAT(seen.insert(std::abs(q)).second, "variable " << std::abs(q) << " is twice on the trail"); }
  for (int v = 1; v <= h.n; v++) CHECK_THAT((h.s.value(v) != 0) == (seen.count(v) == 1), "variable " << v << " has value " << h.s.value(v) << " but its presence on the trail is " << seen.count(v));
  for (auto& c : h.cs) { int free = 0, unit = 0; bool ok = false; for (int q : c) { int v = val(q); if (v > 0) ok = true; if (v == 0 && q != unit) { free++; unit = q; } } bool taut = false; for (int q : c) for (int w : c) taut |= q == -w; if (ok || taut) continue;
    std::set<int> fr; for (int q : c) if (val(q) == 0) fr.insert(q); CHECK_THAT(!fr.empty(), "clause " << sut::show(c) << " is falsified after propagation reported no conflict"); CHECK_THAT(fr.size() > 1, "clause " << sut::show(c) << " forces " << *fr.begin() << ", which is still free after propagation"); }
  decisions.clear(); for (int q : tr) if (napsat::is_decided(h.s, sut::L(q))) decisions.push_back(q);
  for (int q : tr) { auto as = decisions; as.push_back(-q); if (std::find(decisions.begin(), decisions.end(), q) != decisions.end()) continue; CHECK_THAT(!ref::sat(std::max(1, h.n), h.cs, as), "literal " << q << " is on the trail as implied, but it does not follow from the clauses and the " << decisions.size() << " decisions"); } }
static Prop closure() {
  Prop p; p.id = "closure"; p.rule = "histories driven by hand (propagate, decide a chosen literal, add clauses in the middle of the search); after every propagation that may be followed by a decision the partial assignment is examined; non-trivial: at least two decisions were pending at an examined point";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 1; m.lim = 1; m.blk = 1; m.prop = 4; m.dec = 2; m.dl = 8; auto c = history(r, size, r.chance(2, 3) ? 11 : 20, r.chance(1, 3), m); int n = 1; for (auto& l : c) for (int q : ints(split(l))) n = std::max(n, std::abs(q)); for (int k = (int)r.range(0, 8); k > 0; k--) c.push_back("dl " + std::to_string(gen::lit(r, std::min(n, 20)))); c.push_back("prop"); return c; };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); int exam = 0; std::vector<int> d;
    for (auto& l : c) { auto t = split(l); if (!t.empty() && t[0] == "prop") { if (h.state() == status::UNKNOWN && napsat::propagate(h.s)) { check_closed(h, d); exam++; if (d.size() >= 2) x.nontrivial = true; } } 
      else if (!t.empty() && t[0] == "dl") { auto k = ints(t); if (k.empty() || std::abs(k[0]) > h.n) continue; if (h.state() == status::UNKNOWN && napsat::propagate(h.s)) { check_closed(h, d); exam++; if (d.size() >= 2) x.nontrivial = true; if (h.s.value(std::abs(k[0])) == 0) { napsat::decide(h.s, sut::L(k[0])); CHECK_THAT(h.s.value(std::abs(k[0])) == (k[0] > 0 ? 1 : -1), "the decided literal " << k[0] << " is not true"); CHECK_THAT(napsat::is_decided(h.s, sut::L(k[0])), "the decided literal " << k[0] << " is not reported as decided"); } } }
      else h.step(l);
      h.check_status(l); }
    strategy_label(x, options_of(c)); x.label(exam ? "examined" : "not-examined"); };
  return p; }

// --- search driven by hand ----------------------------------------------------------------------
static Prop driven() {
  Prop p; p.id = "driven"; p.rule = "the whole search is driven by the caller: propagate, then decide literals in a generated order, until an answer; non-trivial: at least one conflict forced a decision to be undone";
  p.gen = [](Rng& r, int size) { Case c; std::string o = header(r, c, r.chance(1, 2)); auto f = gen::formula(r, std::max(2, cap(o, (r.chance(1, 2) ? 11 : 24) * size / 100))); declare(r, c, f.n); int late = r.chance(1, 3) ? (int)r.range(0, f.cs.size()) : 0; for (size_t i = 0; i < f.cs.size(); i++) c.push_back(((int)i < late ? "late" : how(r)) + gen::show(f.cs[i])); std::string ord = "order"; std::vector<int> v; for (int i = 1; i <= f.n; i++) v.push_back(r.chance(1, 2) ? i : -i); r.shuffle(v); for (int q : v) ord += " " + std::to_string(q); c.push_back(ord); c.push_back("seed " + std::to_string(r.range(1, 1000000))); return c; };
  p.run = [](const Case& c, Ctx& x) {
    Hist h(c); std::vector<int> order; std::vector<Clause> late; long long seed = 1; for (auto& l : c) { auto t = split(l); if (t.empty()) continue; if (t[0] == "order") order = ints(t); else if (t[0] == "late") late.push_back(ints(t)); else if (t[0] == "seed" && t.size() > 1) to_int(t[1], seed); else if (t[0] == "a" || t[0] == "p") h.step(l); }
    Rng r((uint64_t)seed); long steps = 0; bool undone = false; size_t next_late = 0; std::set<int> decided;
    while (true) {
      CHECK_THAT(++steps < 200000, "the driven search does not end");
      bool more = napsat::propagate(h.s); auto st = napsat::get_status(h.s);
      CHECK_THAT(more == (st == status::UNKNOWN), "propagate returned " << more << " with status " << sut::st(st));
      if (!more && next_late >= late.size()) break;
      if (!more && st == status::UNSAT) break;
      if (next_late < late.size() && (st == status::SAT || r.chance(1, 3))) { h.note(late[next_late]); h.s.add(late[next_late++]); if (napsat::get_status(h.s) == status::UNSAT) break; continue; }
      if (st != status::UNKNOWN) continue;
      for (int q : decided) if (h.s.value(std::abs(q)) != (q > 0 ? 1 : -1) || !napsat::is_decided(h.s, sut::L(q))) undone = true;
      std::set<int> keep; for (int q : h.s.trail()) if (napsat::is_decided(h.s, sut::L(q))) { CHECK_THAT(decided.count(q), "literal " << q << " is decided, but the caller never decided it"); keep.insert(q); } decided = keep;
      int pick = 0; for (int q : order) if (std::abs(q) <= h.n && h.s.value(std::abs(q)) == 0) { pick = r.chance(1, 5) ? -q : q; if (!r.chance(1, 4)) break; }
      if (!pick) for (int v = 1; v <= h.n && !pick; v++) if (h.s.value(v) == 0) pick = v;
      CHECK_THAT(pick != 0, "propagate reported that a decision is needed, but every variable has a value");
      CHECK_THAT(napsat::decide(h.s, sut::L(pick)), "decide refused the free literal " << pick); decided.insert(pick);
      CHECK_THAT(h.s.value(std::abs(pick)) == (pick > 0 ? 1 : -1), "the decided literal " << pick << " is not true"); CHECK_THAT(napsat::is_decided(h.s, sut::L(pick)), "the decided literal " << pick << " is not reported as decided"); }
    h.check_answer(napsat::get_status(h.s), false); CHECK_THAT(napsat::solve(h.s) == napsat::get_status(h.s), "solve disagrees with the driven search"); h.check_answer(napsat::solve(h.s), false);
    strategy_label(x, options_of(c)); x.label(h.sats ? "sat" : "unsat"); x.nontrivial = undone; };
  return p; }

// --- facts at root level ------------------------------------------------------------------------
static Prop facts() {
  Prop p; p.id = "facts"; p.rule = "histories rich in unit and binary clauses; at every point the variables reported at root level are compared with what the accumulated clauses entail, with earlier reports, and (right after a propagation without decisions) with the unit-propagation closure; non-trivial: at least two facts were reported";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 2; m.lim = 2; m.blk = 1; m.prop = 4; m.dec = 1; m.dl = 3; return history(r, size, 11, r.chance(1, 2), m); };
  p.run = [](const Case& c, Ctx& x) {
    Hist h(c); std::map<int, int> fixed; size_t most = 0; bool first = true;
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; h.step(l); h.check_status(l); if (h.state() == status::UNSAT) break; if (h.n > 14 || h.n < 1) continue;
      ref::Table tab(std::max(1, h.n)); for (auto& k : h.cs) tab.add(k); std::map<int, int> now; bool dec = false; std::set<int> done;
      for (int q : h.s.trail()) { dec |= napsat::is_decided(h.s, sut::L(q)); if (napsat::is_root_level(h.s, (unsigned)std::abs(q))) now[std::abs(q)] = q > 0 ? 1 : -1; }
      for (auto& f : now) CHECK_THAT(tab.implies({f.first * f.second}), "literal " << f.first * f.second << " is reported as a fact but does not follow from the clauses, at: " << l);
      for (auto& f : fixed) CHECK_THAT(now.count(f.first) && now[f.first] == f.second, "the fact " << f.first * f.second << " was withdrawn, at: " << l);
      for (int v = 1; v <= h.n; v++) if (h.s.value(v) == 0) CHECK_THAT(!napsat::is_root_level(h.s, (unsigned)v), "variable " << v << " is free but reported at root level");
      if (t[0] == "prop" && !dec) { // closure under unit propagation
        std::set<int> tr; for (int q : h.s.trail()) tr.insert(q); bool again = true; std::set<int> up; bool confl = false; while (again && !confl) { again = false; for (auto& k : h.cs) { std::set<int> fr; bool ok = false; for (int q : k) { if (up.count(q)) ok = true; else if (!up.count(-q)) fr.insert(q); } bool taut = false; for (int q : k) taut |= std::count(k.begin(), k.end(), -q) > 0; if (ok || taut) continue; if (fr.empty()) { confl = true; break; } if (fr.size() == 1) { up.insert(*fr.begin()); again = true; } } }
        CHECK_THAT(!confl, "unit propagation refutes the clauses, but the status is " << sut::st(h.state())); for (int q : up) CHECK_THAT(tr.count(q) && now.count(std::abs(q)), "literal " << q << " follows by unit propagation but is not reported as a fact"); x.label("closure"); }
      fixed = now; most = std::max(most, now.size()); (void)first; }
    strategy_label(x, options_of(c)); x.nontrivial = most >= 2; };
  return p; }

// --- determinism and isolation ------------------------------------------------------------------
struct Sink : std::vector<std::string> { void put(const std::string& s) { push_back(s); } };
static std::string snapshot(Hist& h) { std::ostringstream o; o << sut::st(h.state()) << " n" << napsat::variables_count(h.s); for (int q : h.s.trail()) o << " " << q << (napsat::is_decided(h.s, sut::L(q)) ? "d" : "") << (napsat::is_root_level(h.s, (unsigned)std::abs(q)) ? "r" : "");
  if (h.state() == status::UNSAT && h.s.o.build_proof) o << (napsat::check_proof(h.s) ? " proof accepted" : " proof rejected"); if (h.state() == status::UNSAT && h.s.o.record_dependencies && h.s.o.graph_backtracking) { o << " core"; for (auto id : napsat::clause_unsat_core(h.s)) o << " " << id.value; } return o.str(); }
// Half of the histories record a proof, or what the clauses depend on.
static std::string recorded(Rng& r) { return r.chance(1, 3) ? " -bp" : r.chance(1, 4) ? " --record-dependencies on" : ""; }
static Prop isolation() {
  Prop p; p.id = "isolation"; p.rule = "two histories on two solvers, run alone, run again, and run interleaved operation by operation; the transcript (answers, trails, decisions, facts, and at UNSAT whether the proof is accepted and the core, when they are recorded) of each must be the same in all runs; non-trivial: both histories give at least one answer and take decisions";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.lim = 1; m.dl = 2; m.dec = 1; auto a = history(r, size, 24, true, m, recorded(r)), b = history(r, size, 24, true, m, recorded(r)); Case c; for (auto& l : a) c.push_back("A " + l); for (auto& l : b) c.push_back("B " + l); c.push_back("seed " + std::to_string(r.range(1, 1000000))); return c; };
  p.run = [](const Case& c, Ctx& x) {
    Case a, b; long long seed = 1; for (auto& l : c) { if (l.rfind("A ", 0) == 0) a.push_back(l.substr(2)); else if (l.rfind("B ", 0) == 0) b.push_back(l.substr(2)); else { auto t = split(l); if (t.size() > 1 && t[0] == "seed") to_int(t[1], seed); } }
    bool dec = false; auto alone = [&](const Case& k) { Sink s; Hist h(k); for (auto& l : k) { h.step(l); s.put(snapshot(h)); dec |= s.back().find('d') != std::string::npos; } return s; };
    auto ta = alone(a), tb = alone(b), ta2 = alone(a); auto same = [](const Sink& u, const Sink& v, const Case& k, const char* what) { for (size_t i = 0; i < u.size() && i < v.size(); i++) CHECK_THAT(u[i] == v[i], what << ", at: " << k[i] << "\n" << u[i].substr(0, 300) << "\n" << v[i].substr(0, 300)); CHECK_THAT(u.size() == v.size(), what << ": lengths"); };
    same(ta, ta2, a, "a second run of the same history differs");
    Rng r((uint64_t)seed); Sink ia, ib; size_t i = 0, j = 0; { Hist A(a), B(b); while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && r.chance(1, 2))) { A.step(a[i++]); ia.put(snapshot(A)); } else { B.step(b[j++]); ib.put(snapshot(B)); } } }
    same(ta, ia, a, "an instance behaves differently when another one is used in between"); same(tb, ib, b, "an instance behaves differently when another one is used in between");
    x.nontrivial = dec; strategy_label(x, options_of(a)); };
  return p; }

// Several solvers, each used by its own thread.
static Prop threads() {
  Prop p; p.id = "threads"; p.rule = "two to four histories on as many solvers, each run alone and then all at the same time in threads of their own; the transcript (answers, trails, decisions, facts, and at UNSAT whether the proof is accepted and the core, when they are recorded) of each must be the same, and a build with the thread sanitizer must see no data race; non-trivial: at least two of the histories take decisions";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.lim = 1; m.dl = 2; m.dec = 1; Case c; int k = (int)r.range(2, r.chance(1, 3) ? 4 : 2); for (int i = 0; i < k; i++) for (auto& l : history(r, size, 24, true, m, recorded(r))) c.push_back(std::string(1, (char)('A' + i)) + " " + l); return c; };
  p.run = [](const Case& c, Ctx& x) {
    std::vector<Case> k(4); for (auto& l : c) if (l.size() > 2 && l[0] >= 'A' && l[0] <= 'D' && l[1] == ' ') k[(size_t)(l[0] - 'A')].push_back(l.substr(2)); k.erase(std::remove_if(k.begin(), k.end(), [](const Case& q) { return q.empty(); }), k.end()); if (k.empty()) return;
    auto work = [](Hist& h, const Case& q, Sink& s) { for (auto& l : q) { h.step(l); s.put(snapshot(h)); } }; std::vector<Sink> want(k.size()), got(k.size()); int deciding = 0;
    for (size_t i = 0; i < k.size(); i++) { Hist h(k[i]); work(h, k[i], want[i]); bool dec = false; for (auto& l : want[i]) dec |= l.find('d') != std::string::npos; deciding += dec; strategy_label(x, options_of(k[i])); }
    for (int again = 0; again < 2; again++) { std::vector<std::unique_ptr<Hist>> hs; for (auto& q : k) hs.emplace_back(new Hist(q)); std::vector<std::string> problem(k.size()); std::atomic<size_t> ready{0}; std::vector<std::thread> ts;
      for (size_t i = 0; i < k.size(); i++) { got[i].clear(); ts.emplace_back([&, i] { ready++; while (ready < k.size()) std::this_thread::yield(); try { work(*hs[i], k[i], got[i]); } catch (const std::exception& e) { problem[i] = std::string("!") + e.what(); } }); }
      for (auto& t : ts) t.join(); for (size_t i = 0; i < k.size(); i++) { CHECK_THAT(problem[i].empty(), "in a thread of its own: " << problem[i].substr(1)); CHECK_THAT(want[i].size() == got[i].size(), "a history has another length in a thread of its own"); for (size_t j = 0; j < want[i].size(); j++) CHECK_THAT(want[i][j] == got[i][j], "a solver behaves differently while others are used in other threads, at: " << k[i][j] << "\n" << want[i][j].substr(0, 300) << "\n" << got[i][j].substr(0, 300)); } }
    x.nontrivial = deciding >= 2; };
  return p; }

// --- scale --------------------------------------------------------------------------------------
static Prop scale() {
  Prop p; p.id = "scale"; p.cpu_limit_s = 120; p.rule = "formulas with a known answer and up to tens of thousands of variables, very long implication chains, clauses of thousands of literals, thousands of simultaneous decisions, planted 3-SAT and its incremental extension; non-trivial: at least 1000 variables or literals in a clause";
  p.gen = [](Rng& r, int size) { Case c; header(r, c, r.chance(1, 4)); (void)size;
    std::vector<std::string> kinds = {"chain", "chain-unsat", "free", "wide", "wide-unsat", "planted", "planted-inc", "pairs", "sparse"};
    std::string k = r.pick(kinds); long n = 1000; bool g = gb(c[0]);
    if (k == "chain" || k == "chain-unsat") n = r.range(1000, g ? 6000 : 30000); else if (k == "free") n = r.range(1000, g ? 6000 : 20000); else if (k == "wide" || k == "wide-unsat") n = r.range(1000, 6000); else if (k == "planted") n = r.range(200, g ? 400 : 1200); else if (k == "planted-inc") n = r.range(100, g ? 150 : 600); else if (k == "pairs") n = r.range(1000, g ? 5000 : 12000); else n = r.range(20000, 100000);
    c.push_back("kind " + k + " " + std::to_string(n) + " " + std::to_string(r.range(1, 1000000))); return c; };
  p.run = [](const Case& c, Ctx& x) {
    std::string kind; long long n = 0, seed = 1; for (auto& l : c) { auto t = split(l); if (t.size() > 3 && t[0] == "kind") { kind = t[1]; to_int(t[2], n); to_int(t[3], seed); } } if (kind.empty() || n < 3 || n > 200000) return;
    Rng r((uint64_t)seed); std::vector<Clause> cs; bool e = true; int N = (int)n; Hist h(c); std::vector<int> pol(N + 1); for (int v = 1; v <= N; v++) pol[v] = r.chance(1, 2) ? 1 : -1; std::vector<int> perm; for (int v = 1; v <= N; v++) perm.push_back(v * pol[v]); r.shuffle(perm);
    auto planted = [&] { Clause k = gen::distinct(r, N, 3); bool ok = false; for (int q : k) ok |= q * pol[std::abs(q)] > 0; if (!ok) k[0] = -k[0]; return k; };
    if (kind == "chain" || kind == "chain-unsat") { for (int i = 0; i + 1 < N; i++) cs.push_back({-perm[i], perm[i + 1]}); if (kind == "chain-unsat") { cs.push_back({-perm[N - 1], -perm[0]}); cs.push_back({perm[0]}); e = false; } else if (r.chance(1, 2)) cs.push_back({perm[0]}); if (r.chance(1, 2)) r.shuffle(cs); }
    else if (kind == "free") { cs.push_back({N}); for (int i = 0; i < 50; i++) cs.push_back(planted()); }
    else if (kind == "wide" || kind == "wide-unsat") { Clause w; for (int v = 1; v <= N; v++) w.push_back(v * pol[v]); cs.push_back(w); for (int v = 1; v < N; v++) cs.push_back({-v * pol[v]}); if (kind == "wide-unsat") { cs.push_back({-N * pol[N]}); e = false; } r.shuffle(cs); }
    else if (kind == "pairs") { for (int i = 0; i + 1 < N; i += 2) { cs.push_back({perm[i], perm[i + 1]}); cs.push_back({-perm[i], -perm[i + 1]}); } r.shuffle(cs); }
    else if (kind == "planted" || kind == "planted-inc") { int m = (int)(N * (2.0 + r.unit())); for (int i = 0; i < m; i++) cs.push_back(planted()); }
    else { for (int i = 0; i < 300; i++) cs.push_back(planted()); }
    size_t i = 0; int rounds = kind == "planted-inc" ? 6 : 1; for (int q = 1; q <= rounds; q++) { size_t hi = cs.size() * q / rounds; for (; i < hi; i++) { for (int l : cs[i]) h.n = std::max(h.n, std::abs(l)); h.cs.push_back(cs[i]); if (i & 1) h.s.add(cs[i]); else h.s.push(cs[i]); } auto st = napsat::solve(h.s); bool want = q < rounds ? true : e; CHECK_THAT(st == (want ? status::SAT : status::UNSAT), "the answer is " << sut::st(st) << " for a formula built to be " << (want ? "satisfiable" : "unsatisfiable")); if (want) { std::vector<signed char> val(h.n + 1, 0); size_t cnt = 0; for (int l : h.s.trail()) { CHECK_THAT(std::abs(l) >= 1 && std::abs(l) <= h.n && !val[std::abs(l)], "bad trail"); val[std::abs(l)] = l > 0 ? 1 : -1; cnt++; } CHECK_THAT((int)cnt == h.n, "the model has " << cnt << " of " << h.n << " variables"); for (auto& k : h.cs) { bool ok = false; for (int l : k) ok |= val[std::abs(l)] == (l > 0 ? 1 : -1); CHECK_THAT(ok, "the model does not satisfy a clause of size " << k.size()); } } }
    x.label(kind); strategy_label(x, options_of(c)); x.nontrivial = n >= 1000 || kind.rfind("planted", 0) == 0; };
  return p; }

// --- ignored unused variables -------------------------------------------------------------------
static Prop unused() {
  Prop p; p.id = "unused"; p.rule = "histories under the option that leaves unused variables alone, with more variables declared than used; non-trivial: a SAT answer in which some variable occurs in no clause";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 4; m.fresh = 4; m.blk = 2; m.dec = 1; Case c = history(r, size, 20, r.chance(1, 2), m, " -iuv"); for (auto& l : c) if (l.rfind("n ", 0) == 0 && r.chance(2, 3)) { int n = 0; for (auto& k : c) if (k[0] == 'a' || k[0] == 'p') for (int q : ints(split(k))) n = std::max(n, std::abs(q)); l = "n " + std::to_string(n + r.range(1, 10)); }
    if (r.chance(1, 2)) { int n = declared_of(c), top = 0; for (auto& k : c) if (k[0] == 'a' || k[0] == 'p') for (int q : ints(split(k))) top = std::max(top, std::abs(q)); Case d; for (size_t i = 0; i < c.size(); i++) { d.push_back(c[i]); if (i > 2 && n > top && r.chance(1, 5)) { int v = (int)r.range(top + 1, n); d.push_back("dl " + std::to_string(r.chance(1, 2) ? v : -v)); } } c = d; }
    if (r.chance(2, 3)) c.push_back("watch"); return c; };
  // a decision of the solver is never about a variable without clauses
  struct Idle : sentinel::Listener { std::set<int> used; int mine = 0; bool quiet = false; std::string problem; void assign(unsigned raw, unsigned reason) override { int v = std::abs(sut::I(raw)); if (reason == 0xFFFFFFFFu && v != mine && !quiet && !used.count(v) && problem.empty()) problem = "the solver decided variable " + std::to_string(v) + ", which occurs in no clause"; } };
  p.run = [](const Case& c, Ctx& x) { Idle idle; bool seen = std::find(c.begin(), c.end(), "watch") != c.end(); Hist h(c, "", seen ? &idle : nullptr); if (!h.iuv) return; idle.quiet = h.s.o.eager_chunk_merging; bool nt = false;
    for (auto& l : c) { auto t = split(l); if (t.empty() || t[0] == "watch") continue; auto w = ints(t); idle.mine = t[0] == "dl" && !w.empty() ? std::abs(w[0]) : 0; if (t[0] == "a" || t[0] == "p") for (int q : w) idle.used.insert(std::abs(q)); h.step(l); if (!h.cs.empty()) for (int q : h.cs.back()) idle.used.insert(std::abs(q)); CHECK_THAT(idle.problem.empty(), idle.problem << ", at: " << l); h.check_status(l); if (!t.empty() && t[0] == "solve" && h.state() == status::SAT) { std::set<int> used; for (auto& k : h.cs) for (int q : k) used.insert(std::abs(q)); for (int v = 1; v <= h.n; v++) { if (!used.count(v)) { nt = true; if (h.s.value(v) != 0) { bool ok = false; for (auto& q : c) { auto u = split(q); if (u.size() > 1 && u[0] == "dl") ok |= std::abs(ints(u).empty() ? 0 : ints(u)[0]) == v; } CHECK_THAT(ok, "variable " << v << " occurs in no clause but has a value"); } } } sut::check_model(h.s, h.cs, h.n, false); } }
    strategy_label(x, options_of(c)); x.nontrivial = nt; };
  return p; }

// --- costs, synchronisation, suggestions --------------------------------------------------------
static Prop costs() {
  Prop p; p.id = "costs"; p.rule = "graph-backtracking histories with user cost functions (zero, constant, small integers, fractions, huge), synchronisations and polarity suggestions at arbitrary points; non-trivial: a cost function or a synchronisation preceded at least one answer";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.sync = 4; m.w = 4; m.sug = 2; m.dl = 1; m.lim = 1; Case c; do { c = history(r, size, 40, true, m); } while (c[0].find("-gb") == std::string::npos); if (r.chance(2, 3)) c.insert(c.begin() + 2, "w " + std::to_string(r.range(0, 5)) + " " + std::to_string(r.range(0, 999))); return c; };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); bool touched = false; for (auto& l : c) { h.step(l); h.check_status(l); auto t = split(l); if (!t.empty() && (t[0] == "w" || t[0] == "sync")) touched = true; if (touched && h.solves) x.nontrivial = true; } strategy_label(x, options_of(c)); };
  return p; }

// --- everything at once, for the sanitised and the self-checking builds -------------------------
static Prop sound_build() {
  Prop p; p.id = "sound_build"; p.rule = "unrestricted legal histories (all operations, all strategies, proofs and observers on or off) on builds with address and undefined-behaviour sanitizers and with the solver's own self-checks; non-trivial: at least two answers, or an answer after a hand decision";
  p.gen = [](Rng& r, int size) { Mix m; m.solve = 3; m.lim = 2; m.blk = 2; m.dec = 2; m.dl = 3; m.w = 1; m.sug = 1; m.fresh = 2; std::string more; if (r.chance(1, 4)) more += " -bp"; if (r.chance(1, 6)) more += " -iuv"; if (r.chance(1, 5)) more += " -stat"; auto c = history(r, size, r.chance(1, 2) ? 12 : 40, true, m, more); if (r.chance(1, 4)) c.push_back("watch"); return c; };
  p.run = [](const Case& c, Ctx& x) { ConflictCounter cc; bool w = false, dl = false; for (auto& l : c) { if (l == "watch") w = true; if (l.rfind("dl", 0) == 0 || l.rfind("dec", 0) == 0) dl = true; } Hist h(c, "", w ? &cc : nullptr); for (auto& l : c) { h.step(l); h.check_status(l); }
    if (h.s.o.build_proof && h.state() == status::UNSAT) CHECK_THAT(napsat::check_proof(h.s), "check_proof rejects the proof");
    strategy_label(x, options_of(c)); x.nontrivial = h.solves >= 2 || (h.solves && dl); if (h.s.o.build_proof) x.label("proof"); if (w) x.label("observed"); };
  return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {verdict(), model(), incremental(), enumeration(), limits(), presentation(), closure(), driven(), facts(), isolation(), threads(), scale(), unused(), costs(), sound_build()}); }
