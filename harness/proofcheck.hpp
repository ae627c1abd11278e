// An independent checker of printed resolution proofs:   ID: (lits) [input]   /   ID: (lits) [resolution A, B]
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <iostream>
namespace proofcheck {
using pbt::split; using pbt::to_int;
inline std::set<int> norm(const ref::Clause& c) { return std::set<int>(c.begin(), c.end()); }
inline std::string plain(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r; }
struct Result { int inputs = 0, steps = 0, empty = 0; std::vector<std::pair<std::string, std::set<int>>> derived; };
// Throws Fail if some line is not an added clause or not a resolvent of earlier lines, or if the empty clause is missing.
inline Result check(const std::string& text, const std::vector<ref::Clause>& cs) {
  std::set<std::set<int>> in; for (auto& c : cs) in.insert(norm(c));
  std::map<std::string, std::set<int>> have; Result res; std::istringstream is(text); std::string l;
  while (std::getline(is, l)) { if (l.empty()) continue; size_t a = l.find(": ("), b = l.find(')'); CHECK_THAT(a != std::string::npos && b != std::string::npos && b > a, "this is not a line of a proof: " << l);
    std::string id = l.substr(0, a); std::set<int> c; for (auto& t : split(l.substr(a + 3, b - a - 3))) { long long v; std::string tt = t; if (tt[0] == '~') tt[0] = '-'; CHECK_THAT(to_int(tt, v), "not a literal in: " << l); c.insert((int)v); }
    CHECK_THAT(!have.count(id), "the name " << id << " is given twice in the proof"); std::string how = l.substr(b + 1);
    if (how == " [input]") { CHECK_THAT(in.count(c), "the proof uses an input that is no added clause: " << l); res.inputs++; }
    else { size_t r = how.find("[resolution "); CHECK_THAT(r != std::string::npos, "no justification in: " << l); std::string ab = how.substr(r + 12); ab = ab.substr(0, ab.find(']')); size_t k = ab.find(", "); CHECK_THAT(k != std::string::npos, "no premises in: " << l); std::string p = ab.substr(0, k), q = ab.substr(k + 2); CHECK_THAT(have.count(p) && have.count(q), "the proof uses a clause that was not derived before: " << l);
      auto &A = have[p], &B = have[q]; bool ok = false; for (int v : A) if (B.count(-v)) { std::set<int> R = A; R.erase(v); for (int w : B) if (w != -v) R.insert(w); if (R == c) ok = true; } CHECK_THAT(ok, "the line is no resolvent of its premises: " << l); res.steps++; res.derived.push_back({id, c}); }
    have[id] = c; if (c.empty()) res.empty++; }
  CHECK_THAT(res.empty, "the printed proof does not derive the empty clause");
  return res; }
struct Capture { std::ostringstream os; std::streambuf* old; Capture() : old(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } std::string text() const { return plain(os.str()); } };
}
