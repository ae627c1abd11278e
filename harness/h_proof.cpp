// Properties of resolution proofs.
#include "hist.hpp"
#include "proofcheck.hpp"
#include "src_access.hpp"
#include "proof/proof.hpp"
using namespace pbt; using namespace hist; using napsat::status;

// The proof of the UNSAT answer that was just given.
static proofcheck::Result verify(Hist& h) {
  bool ok; std::string text; { proofcheck::Capture cap; ok = napsat::check_proof(h.s); text = cap.text(); } CHECK_THAT(ok, "check_proof rejects the proof of the solver: " << text.substr(0, 300));
  { proofcheck::Capture cap; napsat::print_proof(h.s); text = cap.text(); } auto r = proofcheck::check(text, h.cs);
  // printing does not consume the proof
  std::string again; { proofcheck::Capture cap; napsat::print_proof(h.s); again = cap.text(); } CHECK_THAT(again == text, "printing the proof twice gives two different texts"); return r; }

static Prop proof() {
  Prop p; p.id = "proof"; p.rule = "unsatisfiable-leaning formulas and histories (clauses added before and after answers, solving, propagating, deciding by hand, blocking models) with proofs recorded, under every strategy; at each UNSAT answer the solver must accept its proof, and the printed derivation is checked line by line by an independent checker against the clauses that were added; non-trivial: the derivation has at least three resolution steps";
  p.gen = [](Rng& r, int size) { std::string more = r.chance(1, 2) ? " -bp" : r.chance(1, 2) ? " -cp" : " -pp"; if (r.chance(1, 10)) more += " -iuv"; if (r.chance(1, 2)) { Mix m; m.solve = 2; m.blk = 3; m.dec = 1; m.dl = 2; m.lim = 1; m.w = 1; return history(r, size, r.chance(1, 2) ? 12 : 40, r.chance(2, 3), m, more, r.chance(1, 2)); }
    Case c; header(r, c, r.chance(2, 3), more); int mx = std::max(2, (r.chance(1, 2) ? 12 : 50) * size / 100); auto f = r.chance(1, 40) ? gen::hard(r, size) : r.chance(1, 2) ? gen::random_ksat(r, std::max(3, (int)r.range(3, std::max(3, mx))), 4.5 + 1.5 * r.unit(), 3) : gen::formula(r, mx); if (r.chance(1, 2)) for (int k = (int)r.range(0, f.n / 2); k > 0; k--) f.cs.insert(f.cs.begin() + r.range(0, (long long)f.cs.size()), gen::distinct(r, f.n, (int)r.range(1, 2))); bool noise = r.chance(1, 2); declare(r, c, f.n); for (auto& cl : f.cs) c.push_back(line(how(r), noise ? noisy(r, cl, f.n) : cl)); c.push_back("solve"); return c; };
  p.run = [](const Case& c, Ctx& x) { Hist h(c); CHECK_THAT(h.s.o.build_proof || options_of(c).find("-bp") + options_of(c).find("-cp") + options_of(c).find("-pp") == 3 * std::string::npos, "a proof was asked for but is not recorded"); if (!h.s.o.build_proof) return; bool was = false;
    for (auto& l : c) { h.step(l); h.check_status(l); if (h.state() == status::UNSAT && !was) { was = true; auto r = verify(h); if (r.steps >= 3) x.nontrivial = true; x.label(r.steps == 0 ? "steps:0" : r.steps < 3 ? "steps:1-2" : r.steps < 20 ? "steps:3-19" : "steps:20+"); } }
    if (was) verify(h); x.label(was ? "unsat" : "sat"); };
  return p; }

// --- the proof object on its own ----------------------------------------------------------------
//   in <id> lits                            input clause
//   d <id> lits | <id0> <piv> <id> ...      derived clause with its chain (right or wrong)
//   off <id>                                deactivate
//   root <lit> <id>                         root_assign, the reason being that clause
//   strip <id>                              remove_root_literals
using Set = std::set<int>;
static Set resolve(const Set& a, const Set& b, int piv) { Set r = a; r.erase(piv); for (int l : b) if (l != -piv) r.insert(l); return r; }
static bool taut(const Set& c) { for (int l : c) if (c.count(-l)) return true; return false; }
static std::string sh(const Set& s) { std::string o; for (int l : s) o += " " + std::to_string(l); return o; }
// The reference: every step with what it depends on, and whether it is an exact resolution chain.
struct Book {
  struct Step { Set k; bool right; std::vector<int> from; size_t links; }; std::vector<Step> steps; std::map<int, int> live; std::map<int, int> root; /*literal -> step of its reason (virtual id)*/ std::vector<int> order; std::set<int> pinned; int empty = -1; std::vector<Clause> inputs;
  bool put(int id, const Set& k, bool right, std::vector<int> from, size_t links) { steps.push_back({k, right, from, links}); if (k.empty()) empty = (int)steps.size() - 1; else live[id] = (int)steps.size() - 1; return true; }
  bool input(int id, const Set& k, const Clause& raw) { if (taut(k) || live.count(id)) return false; inputs.push_back(raw); return put(id, k, true, {}, 0); }
  bool derive(int id, const Set& k, const std::vector<std::pair<int, int>>& ch) { if (taut(k) || live.count(id) || ch.size() < 2) return false; std::vector<int> from; Set base; bool right = true; for (size_t i = 0; i < ch.size(); i++) { if (!live.count(ch[i].second)) return false; auto& q = steps[live[ch[i].second]]; from.push_back(live[ch[i].second]); if (!i) base = q.k; else { if (!base.count(ch[i].first) || !q.k.count(-ch[i].first)) right = false; base = resolve(base, q.k, ch[i].first); } } return put(id, k, right && base == k, from, ch.size()); }
  bool off(int id) { if (!live.count(id) || pinned.count(id)) return false; live.erase(id); return true; }
  bool assign(int lit, int id) { if (!live.count(id) || root.count(lit) || root.count(-lit)) return false; auto& k = steps[live[id]].k; if (!k.count(lit)) return false; for (int l : k) if (l != lit && !root.count(-l)) return false; root[lit] = id; order.push_back(lit); pinned.insert(id); return true; }
  // The clause without its falsified literals; it is derived rightly when all it is derived from is a right clause.
  bool strip(int id) { if (!live.count(id) || pinned.count(id)) return false; Set k, gone; for (int l : steps[live[id]].k) (root.count(-l) ? gone : k).insert(l); if (gone.empty()) return false; for (int l : k) if (root.count(l)) return false; std::vector<int> from{live[id]}; Set cur = steps[live[id]].k; for (size_t i = order.size(); i-- > 0;) if (cur.count(-order[i])) { from.push_back(live[root[order[i]]]); cur = resolve(cur, steps[live[root[order[i]]]].k, -order[i]); } live.erase(id); return put(id, k, true, from, 2); }
  bool acceptable() const { std::set<int> seen; std::vector<int> todo{empty}; while (!todo.empty()) { int i = todo.back(); todo.pop_back(); if (!seen.insert(i).second) continue; if (!steps[i].right) return false; for (int f : steps[i].from) todo.push_back(f); } return true; } };

static Prop chains() {
  Prop p; p.id = "chains"; p.rule = "random derivations over at most 6 variables written directly into the proof object: chains of several links, some of them made wrong (literal lost or added, wrong pivot, link left out or exchanged), names reused after deactivation, literals fixed at root level and removed from clauses, ending in the empty clause; the proof must be accepted exactly when every step below the empty clause is an exact resolution chain, and an accepted proof must print as a valid derivation; non-trivial: at least three derived clauses";
  p.gen = [](Rng& r, int size) { Case c; Book b; int n = (int)r.range(2, 6), next = 0; std::vector<int> freeids; auto id = [&] { if (!freeids.empty() && r.chance(1, 2)) { size_t i = r.next() % freeids.size(); int q = freeids[i]; freeids.erase(freeids.begin() + (long)i); return q; } return next++; };
    auto input = [&](const Clause& k) { int q = id(); Clause raw = k; if (r.chance(1, 6)) raw.push_back(r.pick(k)); b.input(q, Set(k.begin(), k.end()), raw); c.push_back("in " + std::to_string(q) + gen::show(raw)); return q; };
    auto derive = [&](int q, Set k, std::vector<std::pair<int, int>> ch) { if (!b.derive(q, k, ch)) return false; std::string s = "d " + std::to_string(q) + sh(k) + " | " + std::to_string(ch[0].second); for (size_t i = 1; i < ch.size(); i++) s += " " + std::to_string(ch[i].first) + " " + std::to_string(ch[i].second); c.push_back(s); return true; };
    int ins = (int)r.range(3, 6 + size / 6); for (int i = 0; i < ins; i++) input(gen::distinct(r, n, (int)r.range(1, 3)));
    bool wrong = r.chance(1, 2); int err = (int)r.range(2, 12);
    for (int step = 0; step < 40 && b.empty < 0; step++) {
      std::vector<int> ids; for (auto& [q, k] : b.live) ids.push_back(q); if (ids.empty()) break;
      if (r.chance(1, 12)) { int q = r.pick(ids); if (b.off(q)) { c.push_back("off " + std::to_string(q)); freeids.push_back(q); } continue; }
      if (r.chance(1, 3)) { int q = r.pick(ids); for (int l : Set(b.steps[b.live[q]].k)) if (b.assign(l, q)) { c.push_back("root " + std::to_string(l) + " " + std::to_string(q)); break; } continue; }
      if (!b.root.empty() && r.chance(1, 3)) { int q = r.pick(ids); if (b.strip(q)) c.push_back("strip " + std::to_string(q)); continue; }
      int first = r.pick(ids); Set base = b.steps[b.live[first]].k; std::vector<std::pair<int, int>> ch{{0, first}}; int want = (int)r.range(1, 5); bool wild = r.chance(1, 4);
      while ((int)ch.size() <= want) { std::vector<std::pair<int, int>> opts; for (int q : ids) for (int l : base) if (b.steps[b.live[q]].k.count(-l)) { auto z = resolve(base, b.steps[b.live[q]].k, l); if (wild || !taut(z)) opts.push_back({l, q}); } if (opts.empty()) break; size_t best = r.next() % opts.size(); if (!wild) for (size_t t = 0; t < opts.size(); t++) if (resolve(base, b.steps[b.live[opts[t].second]].k, opts[t].first).size() < resolve(base, b.steps[b.live[opts[best].second]].k, opts[best].first).size() && r.chance(3, 4)) best = t; base = resolve(base, b.steps[b.live[opts[best].second]].k, opts[best].first); ch.push_back(opts[best]); if (base.empty()) break; }
      if (ch.size() < 2) continue; Set k = base;
      if (wrong && r.chance(1, err)) switch (r.range(0, 4)) { case 0: if (!k.empty()) { auto it = k.begin(); std::advance(it, (long)r.range(0, (long long)k.size() - 1)); k.erase(it); } break; case 1: k.insert(gen::lit(r, n)); break; case 2: ch[1 + r.next() % (ch.size() - 1)].first *= -1; break; case 3: ch[r.next() % ch.size()].second = r.pick(ids); break; default: if (ch.size() > 2) ch.erase(ch.begin() + 1 + (long)(r.next() % (ch.size() - 1))); }
      if (taut(k)) continue; bool in = false; for (auto& [q, i] : b.live) in |= b.steps[i].k == k; if (in && r.chance(3, 4)) continue;
      derive(id(), k, ch); }
    if (b.empty < 0) { std::vector<int> ids; for (auto& [q, k] : b.live) ids.push_back(q); int first = ids.empty() ? input({1}) : (r.chance(2, 3) ? ids.back() : r.pick(ids)); auto k = b.steps[b.live[first]].k; std::vector<std::pair<int, int>> ch{{0, first}}; for (int l : k) ch.push_back({l, input({-l})}); derive(next++, {}, ch); }
    return c; };
  p.run = [](const Case& c, Ctx& x) { Book b; napsat::proof::resolution_proof pf; size_t derived = 0, strips = 0;
    auto give = [&](const std::vector<int>& k, auto f) { std::vector<napsat::Tlit> v; for (int l : k) v.push_back(sut::L(l)); f(v.data(), (unsigned)v.size()); }; auto C = [](int id) { return napsat::Tclause((unsigned)id); };
    for (auto& l : c) { auto t = split(l); long long v; if (t.empty()) continue; if (b.empty >= 0) return; if (t.size() < 2 || !to_int(t[1], v)) return; int id = (int)v; Clause raw; size_t i = 2; for (; i < t.size() && t[i] != "|"; i++) { if (!to_int(t[i], v) || std::llabs(v) > 5000) return; raw.push_back((int)v); }
      if (t[0] == "root") { if (raw.size() != 1 || !b.assign(id, raw[0])) return; pf.root_assign(sut::L(id), C(raw[0])); continue; }
      if (id < 0 || id > 5000) return; Set k(raw.begin(), raw.end()); if (k.count(0)) return;
      if (t[0] == "in") { if (!b.input(id, k, raw)) return; give(raw, [&](auto* d, unsigned n) { pf.input_clause(C(id), d, n); }); }
      else if (t[0] == "off") { if (!b.off(id)) return; pf.deactivate_clause(C(id)); }
      else if (t[0] == "strip") { if (!b.strip(id)) return; pf.remove_root_literals(C(id)); strips++; derived++; }
      else if (t[0] == "d") { std::vector<std::pair<int, int>> ch; std::vector<long long> q; for (i++; i < t.size(); i++) { if (!to_int(t[i], v)) return; q.push_back(v); } if (q.size() % 2 == 0) return; ch.push_back({0, (int)q[0]}); for (size_t j = 1; j < q.size(); j += 2) { if (!q[j]) return; ch.push_back({(int)q[j], (int)q[j + 1]}); } if (!b.derive(id, k, ch)) return; derived++;
        pf.start_resolution_chain(); for (auto& [pv, f] : ch) pf.link_resolution(pv ? sut::L(pv) : napsat::LIT_UNDEF, C(f)); give(Clause(k.begin(), k.end()), [&](auto* d, unsigned n) { pf.finalize_resolution(C(id), d, n); }); }
      else return; }
    if (b.empty < 0) return; bool e = b.acceptable(), ok; { proofcheck::Capture cap; ok = pf.check_proof(); } x.nontrivial = derived >= 3; x.label(e ? "right" : "wrong"); if (strips) x.label("root-literals");
    CHECK_THAT(ok == e, (e ? "a correct proof was rejected" : "a wrong proof was accepted")); if (!e) return;
    std::string text; { proofcheck::Capture cap; pf.print_proof(); text = cap.text(); } proofcheck::check(text, b.inputs);
    { proofcheck::Capture cap; ok = pf.check_proof(); } CHECK_THAT(ok, "a correct proof was rejected the second time"); };
  return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {proof(), chains()}); }
