// Properties of the data structures and text helpers, each against an independent model.
#include "pbt.hpp"
#include "src_access.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <limits>
#include <numeric>
using namespace pbt;
using Words = std::vector<std::string>;
static long long num(const Words& t, size_t i) { long long v = 0; if (i < t.size()) to_int(t[i], v); return v; }

// --- bitset -------------------------------------------------------------------------------------
namespace bs {
struct Reg { bitset b; std::set<unsigned> m; size_t cap = 63 * 64; };
static size_t capacity_for(size_t n) { size_t k = 63 * 64; return n == 0 ? k : (n + k - 1) / k * k; }
static std::string text(const std::set<unsigned>& m) {
  std::string s = "["; size_t i = 0;
  for (unsigned e : m) { if (i == 1000) { s += ", ... " + std::to_string(m.size() - 1000) + " more"; break; } if (i) s += ", "; s += std::to_string(e); i++; }
  return s + "]"; }
static void same(Reg& r, int k) {
  CHECK_THAT(r.b.capacity() == r.cap, "register " << k << ": capacity " << r.b.capacity() << ", expected " << r.cap);
  CHECK_THAT(r.b.count() == r.m.size(), "register " << k << ": count " << r.b.count() << ", expected " << r.m.size());
  CHECK_THAT(r.b.empty() == r.m.empty(), "register " << k << ": empty() is " << r.b.empty() << " with " << r.m.size() << " elements");
  auto it = r.m.begin(); size_t n = 0;
  for (auto i = r.b.cbegin(); i != r.b.cend(); ++i, ++it, ++n) { CHECK_THAT(it != r.m.end(), "register " << k << ": iteration gives an element too many, " << *i); CHECK_THAT(*i == *it, "register " << k << ": iteration gives " << *i << " at position " << n << ", expected " << *it); }
  CHECK_THAT(it == r.m.end(), "register " << k << ": iteration ends before " << *it);
  for (unsigned e : r.m) { CHECK_THAT(r.b.get(e) && r.b[e], "register " << k << ": element " << e << " is lost"); if (e && !r.m.count(e - 1)) CHECK_THAT(!r.b.get(e - 1), "register " << k << ": element " << e - 1 << " appeared"); if (e + 1 < r.cap && !r.m.count(e + 1)) CHECK_THAT(!r.b.get(e + 1), "register " << k << ": element " << e + 1 << " appeared"); if (e + 64 < r.cap && !r.m.count(e + 64)) CHECK_THAT(!r.b.get(e + 64), "register " << k << ": element " << e + 64 << " appeared"); } }
static void relate(Reg& a, Reg& b) {
  if (a.cap != b.cap) return;
  bool sub = std::includes(b.m.begin(), b.m.end(), a.m.begin(), a.m.end()), sup = std::includes(a.m.begin(), a.m.end(), b.m.begin(), b.m.end()), inter = false; for (unsigned e : a.m) inter |= b.m.count(e) > 0;
  CHECK_THAT((a.b == b.b) == (sub && sup), "operator== is wrong"); CHECK_THAT((a.b != b.b) == !(sub && sup), "operator!= is wrong");
  CHECK_THAT((a.b <= b.b) == sub, "operator<= is wrong"); CHECK_THAT((a.b < b.b) == (sub && !sup), "operator< is wrong"); CHECK_THAT((a.b >= b.b) == sup, "operator>= is wrong"); CHECK_THAT((a.b > b.b) == (sup && !sub), "operator> is wrong");
  CHECK_THAT(a.b.has_intersection(b.b) == inter, "has_intersection is " << !inter << ", expected " << inter); CHECK_THAT(a.b.has_difference(b.b) == !sub, "has_difference is " << sub << ", expected " << !sub); }
}
static Prop bitset_prop() {
  Prop p; p.id = "bitset"; p.rule = "sequences of up to 200 operations on four bitsets (build, set, clear bits, resize, copy, the four set operations in both forms, also of a bitset with itself) with indices clustered around word and metadata-word boundaries up to 20000, compared with std::set; non-trivial: some bitset held elements in at least two metadata words, or a binary operation had two non-empty operands";
  p.gen = [](Rng& r, int size) { Case c; int nops = (int)r.range(1, 2 + 2 * size); size_t top = r.pick(std::vector<size_t>{64, 200, 4032, 4033, 8064, 8065, 20000}); bool mixed = r.chance(1, 4); size_t hot = (size_t)r.range(0, (long long)top - 1);
    auto idx = [&] { long long b; switch (r.range(0, 5)) { case 0: b = r.range(0, (long long)top - 1); break; case 1: b = 64 * r.range(0, (long long)top / 64) + r.range(-1, 1); break; case 2: b = 4032 * r.range(0, (long long)top / 4032) + r.range(-2, 2); break; case 3: b = (long long)hot + r.range(-70, 70); break; case 4: b = r.range(0, 130); break; default: b = (long long)top - 1 - r.range(0, 70); } return std::to_string(std::min<long long>(std::max<long long>(b, 0), (long long)top - 1)); };
    auto reg = [&] { return std::to_string(r.range(0, 3)); };
    if (!mixed) for (int k = 0; k < 4; k++) c.push_back("new " + std::to_string(k) + " " + std::to_string(top));
    while ((int)c.size() < nops) switch (r.range(0, 11)) {
      case 0: case 1: case 2: case 3: c.push_back("set " + reg() + " " + idx()); break;
      case 4: c.push_back("clr " + reg() + " " + idx()); break;
      case 5: c.push_back("run " + reg() + " " + idx() + " " + std::to_string(r.range(1, r.chance(1, 10) ? 1400 : 130)) + " " + std::to_string(r.range(1, r.chance(1, 3) ? 70 : 2))); break;
      case 6: c.push_back("copy " + reg() + " " + reg()); break;
      case 7: case 8: c.push_back(r.pick(Words{"and", "or", "xor", "sub"}) + " " + reg() + " " + reg() + " " + reg()); break;
      case 9: c.push_back(r.pick(Words{"iand", "ior", "ixor", "isub"}) + " " + reg() + " " + reg()); break;
      case 10: c.push_back("cmp " + reg() + " " + reg()); break;
      default: if (r.chance(1, 3)) c.push_back("clear " + reg()); else if (mixed) c.push_back(r.pick(Words{"new", "resize"}) + " " + reg() + " " + std::to_string(r.range(0, r.chance(1, 2) ? 130 : 20000))); else c.push_back("reset " + reg() + " " + idx()); }
    return c; };
  p.run = [](const Case& c, Ctx& x) { bs::Reg R[4];
    for (auto& l : c) { auto t = split(l); if (t.size() < 2) continue; int d = (int)(num(t, 1) & 3); auto& D = R[d]; unsigned a = (unsigned)(num(t, 2) & 0xffff);
      if (t[0] == "new") { D.b = bitset(a); D.m.clear(); D.cap = bs::capacity_for(a); }
      else if (t[0] == "resize") { D.b.resize(a); D.cap = std::max(D.cap, bs::capacity_for(a)); }
      else if (t[0] == "clear") { D.b.clear(); D.m.clear(); }
      else if (t[0] == "set" || t[0] == "clr" || t[0] == "reset") { if (a >= D.cap) continue; bool v = t[0] == "set"; D.b.set(a, v); if (v) D.m.insert(a); else D.m.erase(a); }
      else if (t[0] == "run") { unsigned n = (unsigned)(num(t, 3) & 0xfff), st = std::max(1u, (unsigned)(num(t, 4) & 0xff)); for (unsigned i = 0, e = a; i < n && e < D.cap; i++, e += st) { D.b.set(e, true); D.m.insert(e); } }
      else if (t[0] == "copy") { auto& S = R[a & 3]; D.b = S.b; D.m = S.m; D.cap = S.cap; }
      else if (t[0] == "cmp") { bs::relate(D, R[a & 3]); bs::relate(R[a & 3], D); continue; }
      else if (t[0][0] == 'i') { auto& S = R[a & 3]; if (D.cap != S.cap) continue; auto M = D.m; auto O = S.m; std::set<unsigned> out; auto ins = std::inserter(out, out.end());
        if (t[0] == "iand") { D.b &= S.b; std::set_intersection(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "ior") { D.b |= S.b; std::set_union(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "ixor") { D.b ^= S.b; std::set_symmetric_difference(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "isub") { D.b -= S.b; std::set_difference(M.begin(), M.end(), O.begin(), O.end(), ins); } else continue;
        if (!M.empty() && !O.empty()) x.nontrivial = true; D.m = out; x.label("in-place"); }
      else { int k1 = (int)(a & 3), k2 = (int)(num(t, 3) & 3); auto &A = R[k1], &B = R[k2]; if (A.cap != B.cap) continue; auto M = A.m; auto O = B.m; std::set<unsigned> out; auto ins = std::inserter(out, out.end()); bitset res;
        if (t[0] == "and") { res = A.b & B.b; std::set_intersection(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "or") { res = A.b | B.b; std::set_union(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "xor") { res = A.b ^ B.b; std::set_symmetric_difference(M.begin(), M.end(), O.begin(), O.end(), ins); } else if (t[0] == "sub") { res = A.b - B.b; std::set_difference(M.begin(), M.end(), O.begin(), O.end(), ins); } else continue;
        bs::same(A, k1); bs::same(B, k2); if (!M.empty() && !O.empty()) x.nontrivial = true; size_t cap = A.cap; D.b = res; D.m = out; D.cap = cap; x.label("binary"); }
      bs::same(D, d); if (!D.m.empty() && *D.m.rbegin() / 4032 != *D.m.begin() / 4032) { x.nontrivial = true; x.label("two-blocks"); } }
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) bs::relate(R[i], R[j]); CHECK_THAT(R[i].b.to_string() == bs::text(R[i].m), "to_string gives " << R[i].b.to_string().substr(0, 200)); if (R[i].m.size() > 1000) x.label("long"); }
    // a second way to build the same set compares equal
    for (int i = 0; i < 4; i++) { bitset o(R[i].cap); std::vector<unsigned> v(R[i].m.rbegin(), R[i].m.rend()); for (unsigned e : v) o.set(e, true); CHECK_THAT(o == R[i].b, "register " << i << " differs from the same set built in another order"); CHECK_THAT(o <= R[i].b && R[i].b <= o && !(o < R[i].b), "register " << i << " is not a subset of itself"); } };
  return p; }

// --- heap ---------------------------------------------------------------------------------------
static Prop heap_prop() {
  Prop p; p.id = "heap"; p.rule = "sequences of insertions, removals, updates, increases, rescalings and pops on densely packed keys, with many equal activities, compared with a map; non-trivial: a pop or a removal from a heap of at least four keys";
  p.gen = [](Rng& r, int size) { Case c; int nops = (int)r.range(1, 3 + 3 * size); int keys = (int)r.range(1, 3 + size / 2); int grain = (int)r.pick(std::vector<int>{3, 20, 1000, 1000000}); bool grow = r.chance(1, 2);
    for (int i = 0; i < nops; i++) { auto k = std::to_string(r.range(0, keys)), a = std::to_string(r.range(0, grain)); switch (r.range(0, grow && i < nops / 2 ? 5 : 9)) { case 0: case 1: case 2: case 3: c.push_back("ins " + k + " " + a); break; case 4: c.push_back("upd " + k + " " + a); break; case 5: c.push_back("inc " + k + " " + a); break; case 6: c.push_back("rem " + k); break; case 7: c.push_back("pop"); break; case 8: c.push_back("norm " + std::to_string(r.range(1, 200))); break; default: c.push_back("top"); } }
    return c; };
  p.run = [](const Case& c, Ctx& x) { napsat::utils::heap h; std::map<unsigned, double> m; long long top = -1; std::map<unsigned, double> all;
    auto best = [&] { double b = -1; for (auto& [k, v] : m) b = std::max(b, v); return b; };
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; unsigned k = (unsigned)(num(t, 1) & 0xfff); double a = (double)num(t, 2);
      if (t[0] == "ins") { if (m.count(k)) continue; h.insert(napsat::Tvar(k), a); m[k] = a; }
      else if (t[0] == "upd") { if (!m.count(k)) continue; h.update(napsat::Tvar(k), a); m[k] = a; }
      else if (t[0] == "inc") { if (!m.count(k)) continue; h.increase_activity(napsat::Tvar(k), m[k] + a); m[k] = m[k] + a; }
      else if (t[0] == "rem") { if (!m.count(k)) continue; if (m.size() >= 4) x.nontrivial = true; h.remove(napsat::Tvar(k)); m.erase(k); }
      else if (t[0] == "norm") { double f = std::max(1LL, num(t, 1)) / 100.0; h.normalize(f); for (auto& [q, v] : m) v *= f; }
      else if (t[0] == "pop") { if (m.empty()) continue; if (m.size() >= 4) x.nontrivial = true; unsigned q = h.pop().value; CHECK_THAT(m.count(q), "pop returned " << q << ", which is not in the heap"); CHECK_THAT(m[q] == best(), "pop returned key " << q << " of activity " << m[q] << ", the largest is " << best()); m.erase(q); }
      CHECK_THAT(h.size() == m.size(), "size " << h.size() << ", expected " << m.size()); CHECK_THAT(h.empty() == m.empty(), "empty() is wrong");
      CHECK_THAT(h.contains(napsat::Tvar(k)) == (m.count(k) > 0), "contains(" << k << ") is wrong");
      if (!m.empty()) { unsigned q = h.top().value; CHECK_THAT(m.count(q) && m[q] == best(), "top is key " << q << ", which does not have the largest activity"); } }
    if (m.size() >= 4) x.nontrivial = true;
    for (unsigned k = 0; k < 4200; k += 1 + k / 60) CHECK_THAT(h.contains(napsat::Tvar(k)) == (m.count(k) > 0), "contains(" << k << ") is wrong at the end");
    double last = 0; bool first = true; while (!m.empty()) { unsigned q = h.pop().value; CHECK_THAT(m.count(q), "drain returned " << q << " twice or out of nowhere"); CHECK_THAT(first || m[q] <= last, "drain is not in decreasing order of activity"); last = m[q]; first = false; m.erase(q); } CHECK_THAT(h.empty(), "elements are left after draining"); (void)top; (void)all; };
  return p; }

// --- AVL tree -----------------------------------------------------------------------------------
static Prop avl_prop() {
  Prop p; p.id = "avl"; p.rule = "insertions and removals of (key, data) pairs in random, ascending, descending and zig-zag orders with duplicate keys, and best-fit queries, compared with an ordered set; non-trivial: at least eight pairs were in the tree and something was removed";
  p.gen = [](Rng& r, int size) { Case c; int nops = (int)r.range(1, 4 + 4 * size); int keys = (int)r.range(1, r.chance(1, 2) ? 8 : 3 + 3 * size); int datas = (int)r.pick(std::vector<int>{1, 2, 6}); int order = (int)r.range(0, 3); int up = (int)r.range(2, 7);
    for (int i = 0; i < nops; i++) { long long k = r.range(0, keys); if (order == 1) k = i % (keys + 1); if (order == 2) k = keys - i % (keys + 1); if (order == 3) k = i % 2 ? i % (keys + 1) : keys - i % (keys + 1); auto d = std::to_string(r.range(1, datas)); int w = (int)r.range(0, 9); c.push_back((w < up ? "ins " : w < 9 ? "rem " : "fit ") + std::to_string(r.chance(1, 60) ? 4294967295LL - r.range(0, 1) : k) + " " + d); }
    return c; };
  p.run = [](const Case& c, Ctx& x) { utils::AVLTree t; std::set<std::pair<unsigned, unsigned>> m; size_t peak = 0; static char blob[64]; int step = 0;
    auto fit = [&](unsigned k) { auto it = m.lower_bound({k, 0}); char* d = (char*)t.find_best_fit(k); if (it == m.end()) { CHECK_THAT(d == nullptr, "best fit of " << k << " exists, expected none"); return; } CHECK_THAT(d != nullptr, "best fit of " << k << " is missing, expected key " << it->first); CHECK_THAT(m.count({it->first, (unsigned)(d - blob)}), "best fit of " << k << " is not a pair of the smallest key " << it->first); };
    for (auto& l : c) { auto w = split(l); if (w.size() < 3) continue; unsigned k = (unsigned)num(w, 1), d = (unsigned)(num(w, 2) & 63); std::pair<unsigned, unsigned> e{k, d};
      if (w[0] == "ins") { bool r = t.insert(k, blob + d); CHECK_THAT(r == m.insert(e).second, "insert of a " << (r ? "present" : "new") << " pair returned " << r); }
      else if (w[0] == "rem") { bool r = t.remove(k, blob + d); CHECK_THAT(r == (m.erase(e) > 0), "remove returned " << r); if (r && peak >= 8) x.nontrivial = true; }
      peak = std::max(peak, m.size()); fit(k); fit(k + 1); if (k) fit(k - 1);
      if (m.size() < 40 || step++ % 16 == 0) { CHECK_THAT(t.is_balanced(), "the tree is not balanced"); CHECK_THAT(t.is_bst(), "the tree is not ordered"); } }
    CHECK_THAT(t.is_balanced() && t.is_bst(), "the tree is not balanced or not ordered at the end"); fit(0); for (auto& e : m) fit(e.first);
    auto rest = m; bool front = c.size() & 1; while (!m.empty()) { auto it = front ? m.begin() : std::prev(m.end()); auto e = *it; CHECK_THAT(!t.remove(e.first, blob + 63), "removed a pair that was never inserted"); CHECK_THAT(t.remove(e.first, blob + e.second), "pair " << e.first << "," << e.second << " is lost"); m.erase(it); fit(e.first); if (m.size() < 20) CHECK_THAT(t.is_balanced() && t.is_bst(), "the tree breaks while it is emptied"); } };
  return p; }

// --- restart counter ----------------------------------------------------------------------------
static Prop luby_prop() {
  Prop p; p.id = "luby"; p.rule = "a restart counter is stepped tens of thousands of times with resets at random points, compared with the sequence 1 1 2, 1 1 2 4, 1 1 2 4 8, ... written as blocks; non-trivial: at least fifty restarts were signalled";
  p.gen = [](Rng& r, int size) { Case c; int k = (int)r.range(1, 4); for (int i = 0; i < k; i++) { c.push_back("step " + std::to_string(r.range(1, 20 + (long long)size * size * 30))); c.push_back("reset"); } return c; };
  p.run = [](const Case& c, Ctx& x) { napsat::luby_counter lc; int block = 1, pos = -1; unsigned long left = 1, seen = 0; auto restart = [&] { block = 1; pos = -1; left = 1; };
    // the block b holds the gaps 1, 2^0, 2^1, ..., 2^b
    auto next = [&] { pos++; if (pos > block) { block++; pos = -1; left = 1; } else left = 1ul << pos; };
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; if (t[0] == "reset") { lc.reset(); restart(); continue; } if (t[0] != "step") continue; long long n = std::min<long long>(num(t, 1), 3000000);
      for (long long i = 0; i < n; i++) { bool want = --left == 0; bool got = lc.increment(); CHECK_THAT(got == want, "step " << i << ": increment returned " << got << ", expected " << want << " (block " << block << ")"); if (want) { next(); seen++; } } }
    x.nontrivial = seen >= 50; };
  return p; }

// --- printing of numbers ------------------------------------------------------------------------
static std::string strip(const std::string& s, char ch) { std::string o; for (char q : s) if (q != ch) o += q; return o; }
static void grouped(const std::string& s) { CHECK_THAT(!s.empty() && s[0] != ',' && s.back() != ',', "digits '" << s << "'"); CHECK_THAT(s == "0" || s[0] != '0', "leading zero in '" << s << "'"); int since = 0; for (size_t i = s.size(); i-- > 0;) { if (s[i] == ',') { CHECK_THAT(since == 3, "a group of " << since << " digits in '" << s << "'"); since = 0; } else { CHECK_THAT(isdigit((unsigned char)s[i]), "character in '" << s << "'"); since++; CHECK_THAT(since <= 3, "more than three digits in a group of '" << s << "'"); } } }
static Prop numbers_prop() {
  Prop p; p.id = "numbers"; p.rule = "numbers of every magnitude, biased towards powers of ten and group boundaries, printed as integers, fixed-point numbers, durations and padded columns and read back; strings mixing text and colour escapes measured; non-trivial: a value of at least 1000, or a string with an escape sequence";
  p.gen = [](Rng& r, int size) { Case c; (void)size; auto big = [&](int digits) { unsigned long long v = 0; int d = (int)r.range(1, digits); for (int i = 0; i < d; i++) v = v * 10 + (unsigned long long)r.range(0, r.chance(1, 3) ? 0 : 9); if (r.chance(1, 4)) { v = 1; for (int i = 1; i < d; i++) v *= 10; v -= (unsigned long long)r.range(0, 1); } return v; };
    for (int i = 0; i < 6; i++) switch (r.range(0, 4)) {
      case 0: c.push_back("int " + std::to_string(big(18))); break;
      case 1: c.push_back("float " + std::to_string(big(12)) + " " + std::to_string(r.range(0, 999999)) + " " + std::to_string(r.range(0, 6))); break;
      case 2: c.push_back("time " + std::to_string(big(15))); break;
      case 3: { auto b = std::min<unsigned long long>(big(10), 4294967295ull); c.push_back("pad " + std::to_string(r.chance(1, 3) ? b : (unsigned long long)r.range(0, (long long)b)) + " " + std::to_string(b)); break; }
      default: { std::string s = "esc"; int k = (int)r.range(0, 8); for (int j = 0; j < k; j++) s += " " + (r.chance(1, 2) ? hex("\033[" + std::to_string(r.range(0, 107)) + (r.chance(1, 2) ? ";1" : "") + "m") : hex(std::string((size_t)r.range(1, 9), "amz [;m0"[r.range(0, 7)]))); c.push_back(s); } }
    return c; };
  p.run = [](const Case& c, Ctx& x) { for (auto& l : c) { auto t = split(l); if (t.empty()) continue; long long v = num(t, 1);
      if (t[0] == "int") { if (v < 0) continue; auto s = napsat::pretty_integer(v); grouped(s); CHECK_THAT(strip(s, ',') == std::to_string(v), v << " is printed as " << s); if (v >= 1000) x.nontrivial = true; }
      else if (t[0] == "float") { if (v < 0) continue; long long fr = num(t, 2); int n = (int)std::min<long long>(std::max<long long>(num(t, 3), 0), 6); double f = (double)v + (double)fr / 1e6; auto s = napsat::pretty_float(f, (unsigned)n); auto dot = s.find('.'); CHECK_THAT((dot == std::string::npos) == (n == 0), f << " with " << n << " digits is printed as " << s); grouped(s.substr(0, dot)); if (n) CHECK_THAT(s.size() - dot - 1 == (size_t)n, f << " with " << n << " digits is printed as " << s); double back = std::stod(strip(s, ',')); double unit = std::pow(10.0, -n); CHECK_THAT(back <= f * (1 + 1e-12) + 1e-9 && back > f * (1 - 1e-12) - unit * 1.001 - 1e-9, f << " is printed as " << s); if (v >= 1000) x.nontrivial = true; }
      else if (t[0] == "time") { if (v < 0) continue; auto s = napsat::pretty_time(std::chrono::microseconds(v)); long long ms = 0; bool last = false; long long prev = 1LL << 60; for (auto& w : split(s)) { CHECK_THAT(!last, "duration " << s); size_t q; long long n = std::stoll(w, &q); auto u = w.substr(q); long long f = u == "h" ? 3600000 : u == "m" ? 60000 : u == "s" ? 1000 : u == "ms" ? 1 : 0; CHECK_THAT(f && f < prev, "duration " << s); CHECK_THAT(u == "h" || n < (u == "ms" ? 1000 : 60), "duration " << s); prev = f; last = u == "ms"; ms += n * f; } CHECK_THAT(last && ms == v / 1000, v << " microseconds are printed as " << s); if (ms >= 1000) x.nontrivial = true; }
      else if (t[0] == "pad") { unsigned n = (unsigned)v, m = (unsigned)num(t, 2); if (m == 0 || n > m) continue; auto s = napsat::pad(n, m); CHECK_THAT(s == std::string(s.size(), ' '), "padding is not made of spaces"); CHECK_THAT(s.size() + std::to_string(n).size() == std::to_string(m).size(), "pad(" << n << ", " << m << ") has " << s.size() << " spaces"); if (m >= 1000) x.nontrivial = true; }
      else if (t[0] == "esc") { std::string s; unsigned w = 0; bool e = false; for (size_t i = 1; i < t.size(); i++) { auto q = unhex(t[i]); s += q; if (q[0] == '\033') e = true; else w += (unsigned)q.size(); } CHECK_THAT(napsat::string_length_escaped(s) == w, "visible length of '" << s << "' is " << napsat::string_length_escaped(s) << ", expected " << w); if (e && w) x.nontrivial = true; } } };
  return p; }

// --- justified text -----------------------------------------------------------------------------
static Prop justify_prop() {
  Prop p; p.id = "justify"; p.rule = "texts of random words (punctuated, long, repeated blanks, explicit line breaks) laid out at random widths with random prefixes; words, their order and the explicit line breaks must survive, every line starts with the prefix and stays within the width unless one word is wider; non-trivial: the text was broken over at least two lines without an explicit break";
  p.gen = [](Rng& r, int size) { Case c; int width = (int)r.range(2, r.chance(1, 3) ? 12 : 100); int pre = (int)r.range(0, std::min(width - 1, 8)); c.push_back("width " + std::to_string(width)); c.push_back("prefix " + hex(std::string((size_t)pre, r.chance(1, 2) ? ' ' : '>'))); std::string s; int k = (int)r.range(0, 2 + size); for (int i = 0; i < k; i++) { int n = (int)r.range(1, r.chance(1, 8) ? 30 : 8); for (int j = 0; j < n; j++) s += (char)('a' + r.range(0, 25)); if (r.chance(1, 4)) s += ".,;:!"[r.range(0, 4)]; s += r.chance(1, 10) ? (r.chance(1, 3) ? "\n\n" : "\n") : r.chance(1, 10) ? "   " : " "; } if (!s.empty() && r.chance(1, 2)) s.pop_back(); c.push_back("text " + hex(s)); return c; };
  p.run = [](const Case& c, Ctx& x) { unsigned width = 20; std::string pre, text; for (auto& l : c) { auto t = split(l); if (t.size() < 2) continue; if (t[0] == "width") width = (unsigned)num(t, 1); else if (t[0] == "prefix") pre = unhex(t[1]); else if (t[0] == "text") text = unhex(t[1]); } if (width <= pre.size() || width > 1000) return;
    auto out = napsat::justify_string(text, width, ' ', pre);
    std::vector<std::string> lines; { std::string cur; for (char q : out) if (q == '\n') { lines.push_back(cur); cur.clear(); } else cur += q; if (!cur.empty()) lines.push_back(cur); }
    Words got; std::vector<size_t> ends; for (auto& l : lines) { CHECK_THAT(l.rfind(pre, 0) == 0, "line '" << l << "' does not start with the prefix"); auto w = split(l.substr(pre.size())); CHECK_THAT(l.size() <= width || w.size() <= 1, "line '" << l << "' is wider than " << width); got.insert(got.end(), w.begin(), w.end()); ends.push_back(got.size()); }
    auto want = split(text); CHECK_THAT(got == want, "the words changed: " << out.substr(0, 300));
    size_t n = 0; std::string para; std::istringstream is(text); size_t paragraphs = 0; bool broken = false; while (std::getline(is, para)) { size_t k = split(para).size(); n += k; paragraphs++; if (!is.eof()) CHECK_THAT(std::find(ends.begin(), ends.end(), n) != ends.end(), "an explicit line break is lost"); if (k > 1) broken = true; }
    x.nontrivial = broken && lines.size() > paragraphs; };
  return p; }

// --- premises of learned clauses ----------------------------------------------------------------
static Prop tracker_prop() {
  Prop p; p.id = "tracker"; p.rule = "histories of input clauses, learned clauses, links, tracked derivations (finished or cancelled), deletions and reuse of ids, compared with sets; non-trivial: some clause was recorded with at least two premises, one of them through another learned clause";
  p.gen = [](Rng& r, int size) { Case c; int n = (int)r.range(2, 4 + 2 * size); for (int i = 0; i < n; i++) { auto id = [&] { return std::to_string(r.range(0, 3 + size / 4)); }; switch (r.range(0, 9)) { case 0: case 1: c.push_back("input " + id()); break; case 2: case 3: case 4: case 5: { std::string s = "derive " + id(); int k = (int)r.range(1, 5); while (k--) s += " " + id(); c.push_back(s); break; } case 6: c.push_back("link " + id() + " " + id()); break; case 7: { std::string s = "cancel"; int k = (int)r.range(0, 4); while (k--) s += " " + id(); c.push_back(s); break; } case 8: c.push_back("delete " + id()); break; default: c.push_back("get " + id()); } } return c; };
  p.run = [](const Case& c, Ctx& x) { napsat::proof::dependency_tracker d; struct E { bool in; std::set<unsigned> p; bool deep = false; }; std::map<unsigned, E> m; auto T = [](unsigned i) { return napsat::Tclause(i); };
    auto check = [&](unsigned id) { std::set<unsigned> g; for (auto& q : d.get_dependencies(T(id))) g.insert(q.value); CHECK_THAT(g == m[id].p, "clause " << id << " has " << g.size() << " premises, expected " << m[id].p.size()); };
    for (auto& l : c) { auto t = split(l); if (t.empty()) continue; unsigned id = (unsigned)(num(t, 1) & 255);
      if (t[0] == "input") { if (m.count(id)) continue; d.add_input(T(id)); m[id] = {true, {id}}; }
      else if (t[0] == "derive") { std::vector<unsigned> from; for (size_t i = 2; i < t.size(); i++) { unsigned q = (unsigned)(num(t, i) & 255); if (m.count(q)) from.push_back(q); } if (m.count(id)) continue; d.start_tracking(); std::set<unsigned> want; bool deep = false; for (unsigned q : from) { d.track_dependency(T(q)); deep |= !m[q].in; want.insert(m[q].p.begin(), m[q].p.end()); } d.add_learned(T(id)); d.finalize_tracking(T(id)); std::set<unsigned> full = want; for (unsigned q : want) full.insert(m[q].p.begin(), m[q].p.end()); m[id] = {false, full, deep}; if (deep && full.size() >= 2) x.nontrivial = true; }
      else if (t[0] == "link") { unsigned q = (unsigned)(num(t, 2) & 255); if (!m.count(id) || !m.count(q)) continue; d.link_dependencies(T(id), T(q)); auto s = m[q].p; m[id].p.insert(s.begin(), s.end()); }
      else if (t[0] == "cancel") { d.start_tracking(); for (size_t i = 1; i < t.size(); i++) { unsigned q = (unsigned)(num(t, i) & 255); if (m.count(q)) d.track_dependency(T(q)); } d.cancel_tracking(); }
      else if (t[0] == "delete") { if (!m.count(id) || m[id].in) continue; d.delete_clause(T(id)); m.erase(id); }
      for (auto& [k, e] : m) if (k == id || c.size() < 60) check(k); }
    for (auto& [k, e] : m) check(k); };
  return p; }

// --- exported implication graph -----------------------------------------------------------------
static Prop exporter_prop() {
  Prop p; p.id = "exporter"; p.rule = "random acyclic assignments (trails of decisions, root facts and implied literals with reasons over earlier literals) exported to a folder, possibly over the files of an earlier export; one file per assigned literal with its text and the list of literals it helps to imply; non-trivial: at least one literal is implied";
  p.gen = [](Rng& r, int size) { Case c; int rounds = (int)r.range(1, 2); for (int q = 0; q < rounds; q++) { int n = (int)r.range(1, 2 + size / 5); c.push_back("graph " + std::to_string(n) + (r.chance(1, 2) ? "" : " " + r.pick(std::vector<std::string>{"slash", "ask", "ask", "bad", "end"}) + " " + std::to_string(r.range(0, 999)))); std::vector<int> vs(n), tr; std::iota(vs.begin(), vs.end(), 1); r.shuffle(vs); int k = (int)r.range(0, n); for (int i = 0; i < k; i++) { int l = r.chance(1, 2) ? vs[i] : -vs[i]; std::string s = "lit " + std::to_string(l); if (!tr.empty() && r.chance(2, 3)) { auto pool = tr; r.shuffle(pool); size_t w = (size_t)r.range(0, std::min<long long>(4, (long long)pool.size())); s += " because"; for (size_t j = 0; j < w; j++) s += " " + std::to_string(-pool[j]); } c.push_back(s); tr.push_back(l); } } return c; };
  p.run = [](const Case& c, Ctx& x) { namespace fs = std::filesystem; auto dir = x.scratch + "/graph"; napsat::env::set_suppress_info(true); napsat::env::set_obsidian_template_folder(x.scratch + "/template"); fs::create_directories(x.scratch + "/template/.obsidian"); std::ofstream(x.scratch + "/template/.obsidian/app.json") << "{}";
    std::ofstream(x.scratch + "/file") << "x"; auto snapshot = [&] { std::map<std::string, std::string> r; if (fs::exists(dir)) for (auto& e : fs::directory_iterator(dir)) if (e.is_regular_file()) { std::ifstream f(e.path()); std::stringstream ss; ss << f.rdbuf(); r[e.path().filename().string()] = ss.str(); } return r; };
    size_t i = 0; while (i < c.size()) { auto t = split(c[i]); if (t.empty() || t[0] != "graph") { i++; continue; } unsigned n = (unsigned)(num(t, 1) & 0xfff); std::string how = t.size() > 2 ? t[2] : "given"; uint64_t seed = (uint64_t)num(t, 3); std::vector<napsat::Tlit> tr; std::map<int, std::vector<napsat::Tlit>> why; std::map<int, std::set<int>> imp; std::set<int> lits; for (i++; i < c.size(); i++) { t = split(c[i]); if (t.size() < 2 || t[0] != "lit") break; int l = (int)num(t, 1); if (!l || (unsigned)std::abs(l) > n || lits.count(l) || lits.count(-l)) continue; lits.insert(l); auto L = [](int v) { return napsat::Tlit(napsat::Tvar((unsigned)std::abs(v)), v > 0); }; tr.push_back(L(l)); if (t.size() > 2 && t[2] == "because") { auto& w = why[l]; w.push_back(L(l)); for (size_t j = 3; j < t.size(); j++) { int q = (int)num(t, j); if (!lits.count(-q)) continue; w.push_back(L(q)); imp[std::abs(q)].insert(l); x.nontrivial = true; } } }
      auto I = [](napsat::Tlit l) { return (l.pol() ? 1 : -1) * (int)l.var().value; };
      // the folder: given, given with a closing slash, or asked for (after answers that cannot be used, or none at all)
      std::string where = dir + (how == "slash" ? "/" : ""); if (how == "ask" || how == "end") where = ""; else if (how == "bad") where = x.scratch + "/file/sub"; std::string in; bool asked = how == "ask" || how == "bad" || how == "end"; if (asked) { Rng r(seed); for (int k = (int)r.range(0, 2); k > 0; k--) in += (r.chance(1, 2) ? "" : x.scratch + "/file/sub") + "\n"; if (how != "end") in += dir + (r.chance(1, 3) ? "/" : "") + "\nleft\n"; }
      std::map<std::string, std::string> before; if (how == "end") before = snapshot(); std::istringstream is(in); std::ostringstream os; auto oi = std::cin.rdbuf(is.rdbuf()); auto oo = std::cout.rdbuf(os.rdbuf()); std::cin.clear(); auto back = [&] { std::cin.rdbuf(oi); std::cin.clear(); std::cout.rdbuf(oo); };
      try { napsat::exporter::implication_graph_exporter::export_implication_graph(where, n, tr, [&](napsat::Tlit l) -> const napsat::Tlit* { auto it = why.find(I(l)); return it == why.end() ? nullptr : it->second.data(); }, [&](napsat::Tlit l) { return why.at(I(l)).size(); }, [&](napsat::Tlit l) { return "about " + std::to_string(I(l)) + " in VAULT_NAME, again VAULT_NAME."; }); } catch (...) { back(); throw; }
      std::string rest; std::getline(std::cin, rest); back(); x.label(how); if (how == "end") { CHECK_THAT(snapshot() == before, "an export without a folder wrote something"); continue; } if (asked) CHECK_THAT(rest == "left", "the question for the folder read up to '" << rest << "'");
      std::set<std::string> names; for (auto& e : fs::directory_iterator(dir)) if (e.path().filename() != ".obsidian") names.insert(e.path().filename()); std::set<std::string> want; for (auto& l : tr) want.insert(l.to_string() + ".md"); CHECK_THAT(names == want, "the folder has " << names.size() << " files, expected " << want.size());
      CHECK_THAT(fs::exists(dir + "/.obsidian/app.json"), "the template was not copied");
      for (auto& l : tr) { std::ifstream f(dir + "/" + l.to_string() + ".md"); std::string line, head; std::getline(f, head); CHECK_THAT(head == "about " + std::to_string(I(l)) + " in graph, again graph.", "the text of literal " << I(l) << " is '" << head << "'"); std::multiset<std::string> got, exp; for (int q : imp[std::abs(I(l))]) exp.insert("- [[" + napsat::Tlit(napsat::Tvar((unsigned)std::abs(q)), q > 0).to_string() + "]]"); while (std::getline(f, line)) if (line.rfind("- [[", 0) == 0) got.insert(line); CHECK_THAT(got == exp, "literal " << I(l) << " lists " << got.size() << " implied literals, expected " << exp.size()); } } };
  return p; }

int main(int argc, char** argv) { return main_driver(argc, argv, {bitset_prop(), heap_prop(), avl_prop(), luby_prop(), numbers_prop(), justify_prop(), tracker_prop(), exporter_prop()}); }
