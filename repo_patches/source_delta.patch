From eb3c49ed495403a78bd8ee7aa8ebe5b6e2207b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 01/62] fix: do not re-imply a literal that is already assigned
 at a low enough level when adding a clause

---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From 46c27ed857c08b1df16d71cf4b5b7aa3f6db4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 02/62] fix: forget the lazy reason and the chunk of a decision
 that becomes implied at root level

---
 src/solver/NapSAT-imply.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..b65c7e4 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -161,6 +161,11 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].decision = Tvar();
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
+    // the literal is not a decision anymore, so there is nothing left to reimply
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
+    // the chunk may be reused, so the other missed implications should not refer to it anymore
+    for (TSchunk& chunk : _chunks)
+      chunk.missed_implication.set(ck, false);
     _decision_index.resize(_decision_index.size() - 1);
   }
 
-- 
2.43.0


From dd4f2003b8fc4be27d32e47de6dfed70c173b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 03/62] fix: lazy chunk merging must keep the backtrack
 possibilities that already cover a missed implication

---
 src/solver/NapSAT-conflict.cpp | 60 +++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..d802dc6 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -87,35 +87,32 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
   bitset diff = current - processed;
   diff &= mergeable_chunks;
 
-  if (diff.empty()) {
-    combinations.push_back(current);
-    return;
-  }
-
-  for (auto i = diff.cbegin(); i != diff.cend(); ++i) {
-    Tchunk c = *i;
-    bitset next_process = processed;
-    next_process.set(c, true);
+  while (!diff.empty()) {
+    Tchunk c = *diff.cbegin();
     bitset merged_chunks = _chunks[c].missed_implication;
     if (_n_assumptions > 0) {
       // the assumptions cannot be backtracked, and are removed from the possibilities
       merged_chunks -= _locked_chunks;
     }
+    diff.set(c, false);
+    processed.set(c, true);
+    if (merged_chunks.has_intersection(current)) {
+      // one of the chunks is already there. The combinations with any other one are subsumed
+      continue;
+    }
 
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
-      Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
-      next_current.set(c2, true);
-      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
+      next_current.set(*j, true);
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, processed);
       if (combinations.size() > _options.backtrack_possibilities_limit) {
         return;
       }
     }
+    return;
   }
+
+  combinations.push_back(current);
 }
 
 void NapSAT::enhance_backtrack_possibilities_with_lazy_merging(const bitset& combined_chunks,
@@ -130,20 +127,23 @@ void NapSAT::enhance_backtrack_possibilities_with_lazy_merging(const bitset& com
     mergeable_chunks.set(c, true);
   }
 
-  size_t original_size = possibilities.size();
-  while(original_size > 0) {
-    bitset current = possibilities[original_size - 1];
-    if (possibilities.size() > _options.backtrack_possibilities_limit
-     || !current.has_intersection(mergeable_chunks)) {
-      // no mergeable chunk, nothing to do
-      original_size--;
-      continue;
-    }
-    possibilities[original_size - 1] = possibilities.back();
-    possibilities.pop_back();
-    original_size--;
-    compute_lazy_merge_chunk_combination(possibilities, mergeable_chunks, current, bitset(_n_allocated_chunks));
-    // remove the original possibility
+  // The combinations are checked for subsumption against the possibilities found so far. So the ones that still need to be merged cannot stay in the set.
+  vector<bitset> to_merge;
+  size_t n_kept = 0;
+  for (size_t i = 0; i < possibilities.size(); i++) {
+    if (possibilities[i].has_intersection(mergeable_chunks))
+      to_merge.push_back(possibilities[i]);
+    else
+      possibilities[n_kept++] = possibilities[i];
+  }
+  possibilities.resize(n_kept);
+
+  while (!to_merge.empty()) {
+    // a possibility that is not merged cannot be used. Dropping it is fine as long as another one remains.
+    if (!possibilities.empty() && possibilities.size() > _options.backtrack_possibilities_limit)
+      return;
+    compute_lazy_merge_chunk_combination(possibilities, mergeable_chunks, to_merge.back(), bitset(_n_allocated_chunks));
+    to_merge.pop_back();
   }
 }
 
-- 
2.43.0


From 29efcbef34dc7385716a2baf8265d1a5d2c9992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 04/62] fix: compute the level of a missed implication from the
 whole clause in graph backtracking

---
 src/solver/NapSAT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..5eb7b5a 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1421,6 +1421,10 @@ public:
       ASSERT(lit_level(lit) > LEVEL_ROOT);
       ASSERT(check_clause_implying(l_reason));
       ASSERT(clause_size(l_reason) > 1);
+      if (_options.graph_backtracking) {
+        // In graph backtracking, the level of the other literals may have changed, so the second literal may not be the highest
+        return implication_level(l_reason);
+      }
       ASSERT(lit_is_max_literal(lits[1], lits + 1, clause_size(l_reason) - 1));
       return lit_level(lits[1]);
     }
-- 
2.43.0


From 822d8dde0df984e598363cbd442ee51554105c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 05/62] fix: keep the proof in step with clauses that lose
 literals falsified at root level

---
 src/solver/NapSAT-clauses.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..e6efa38 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,10 +127,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
-        "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
       // The solver should not generate redundant literals and clauses
+      // However, in graph backtracking, several clauses may be learned at once. Then, the first ones may imply literals at level 0.
+      ASSERT(external || _options.graph_backtracking,
+        "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
       satisfied_at_root |= lit_true(l);
       n_removed++;
     }
@@ -189,13 +189,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = input_size - n_removed;
   }
 
-  if (clause_size == 0) {
-    _status = status::UNSAT;
-    return id;
-  }
-
   // Remove duplicate literals
-  if (input_size > 1) {
+  if (clause_size > 1) {
     unsigned new_size = cleanup_duplicate_literals(lits, clause.size);
 
     // if the size is 0, it means that the clause was a tautology.
@@ -224,11 +219,21 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = new_size;
   }
 
-  if (_proof && external) {
-    _proof->input_clause(id, lits_input, input_size);
+  if (_proof) {
+    if (external)
+      _proof->input_clause(id, lits_input, input_size);
     // Remove the literals falsified at level 0 in the proof
     if (n_removed > 0) {
-      _proof->remove_root_literals(id);
+      vector<Tlit> removed;
+      for (unsigned i = 0; i < input_size; i++)
+        if (lit_level(lits_input[i]) == LEVEL_ROOT)
+          removed.push_back(lits_input[i]);
+      _proof->start_resolution_chain();
+      _proof->link_resolution(LIT_UNDEF, id);
+      prove_root_literal_removal(removed.data(), removed.size());
+      // we need to deactivate the clause to be able to replace it
+      _proof->deactivate_clause(id);
+      _proof->finalize_resolution(id, lits, clause.size);
     }
   }
   if (_dependency_tracker && external) {
@@ -242,6 +247,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       }
     }
   }
+  if (clause.size == 0) {
+    _status = status::UNSAT;
+    return id;
+  }
   // sort the literals
   sort(lits, lits + clause.size);
   // print the clause
-- 
2.43.0


From 78dd808f670cdc824027493f8d83a39b53330f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 06/62] fix: derive the empty clause when lazy chunk merging
 leaves no backtrack possibility

---
 src/solver/NapSAT-conflict.cpp | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index d802dc6..0345b53 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -444,6 +444,45 @@ bool NapSAT::root_level_conflict()
 
 void NapSAT::prove_root_conflict_with_lazy_merging()
 {
+  ASSERT(_proof);
+  for (Tclause conflict : _conflicts) {
+    _proof->start_resolution_chain();
+    _proof->link_resolution(LIT_UNDEF, conflict);
+    for (unsigned j = 0; j < clause_size(conflict); j++)
+      lit_mark(clause_lits(conflict)[j]);
+
+    bool stuck = false;
+    size_t i = _trail.size();
+    while (i > 0 && !stuck) {
+      Tlit lit = _trail[--i];
+      if (!lit_marked(lit))
+        continue;
+      Tclause reason = lit_lazy_reason(lit);
+      if (reason != CLAUSE_UNDEF) {
+        // the literals of a missed implication may be anywhere in the trail
+        i = _trail.size();
+      } else {
+        reason = lit_reason(lit);
+      }
+      if (reason == CLAUSE_UNDEF) {
+        // the conflict depends on a decision, we need to try another one
+        stuck = true;
+        continue;
+      }
+      _proof->link_resolution(~lit, reason);
+      for (unsigned j = 1; j < clause_size(reason); j++)
+        lit_mark(clause_lits(reason)[j]);
+      lit_unmark(lit);
+    }
+
+    if (!stuck) {
+      _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+      return;
+    }
+    _proof->cancel_resolution_chain();
+    for (Tlit lit : _trail)
+      lit_unmark(lit);
+  }
   ASSERT(false);
 }
 
@@ -1261,8 +1300,9 @@ void NapSAT::graph_repair()
 
   if (possibilities.empty()) {
     // we cannot repair the conflicts
-    // TODO: We still need to generate the empty clause for the proof
     _status = status::UNSAT;
+    if (_proof && _n_assumptions == 0)
+      prove_root_conflict_with_lazy_merging();
     return;
   }
 
-- 
2.43.0


From 838d7777888e38c5073543aab2bb7ce06ad98ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 07/62] fix: do not give the id of a clause to the empty clause
 in the proof

---
 src/proof/proof.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..abd9a12 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -62,6 +62,12 @@ void resolution_proof::input_clause(napsat::Tclause id, const napsat::Tlit* lits
   clause &c = clauses.back();
   c.size = size;
 
+  if (size == 0) {
+    // nothing can be derived from the empty clause, so it does not need an id
+    empty_clause_id = clauses.size() - 1;
+    return;
+  }
+
   if (id >= clause_matches.size()) {
     clause_matches.reserve(2 * id.value + 1);
     clause_matches.resize(id + 1, 0xFFFFFFFF);
@@ -70,11 +76,6 @@ void resolution_proof::input_clause(napsat::Tclause id, const napsat::Tlit* lits
   assert(clause_matches[id] == 0xFFFFFFFF);
   clause_matches[id] = clauses.size() - 1;
 
-  if (size == 0) {
-    empty_clause_id = clause_matches[id];
-    return;
-  }
-
   c.lits = new Tlit[size];
   memcpy(c.lits, lits, size * sizeof(Tlit));
   // sort the literals for convenience and faster search
-- 
2.43.0


From 1fe6c6e5939e55d9dcb6d438c947c99ff7a95d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 08/62] fix: visit each clause once when printing the proof

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index abd9a12..62383f5 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -372,7 +372,8 @@ void resolution_proof::print_proof(void)
     clause &c = clauses[index];
     c.marked = true;
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      clauses_to_check.push_back(link.second);
+      if (!clauses[link.second].marked)
+        clauses_to_check.push_back(link.second);
   }
 
   for (unsigned index = 0; index < clauses.size(); index++) {
-- 
2.43.0


From 0dbef18697d1a68f14c44771ffc242d844de95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 09/62] fix: grow the literal buffer when a clause is written
 with more literals than there are variables

push_literal could write past the end of the buffer when the literals of the
clause are repeated (the guard was only a debug assertion).
---
 src/solver/NapSAT-utils.cpp | 10 +++++++++-
 src/solver/NapSAT.cpp       |  8 ++++++--
 src/solver/NapSAT.hpp       | 10 ++++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..8877155 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -340,13 +340,21 @@ void NapSAT::var_allocate(Tvar var)
   _watches.resize(2 * var.value + 2);
   _binary_watches.resize(2 * var.value + 2);
   // reallocate the literal buffer to make sure it is big enough
+  reserve_literal_buffer(_vars.size().value + 1);
+}
+
+void NapSAT::reserve_literal_buffer(unsigned capacity)
+{
+  if (capacity <= _lit_buffer_capacity)
+    return;
   // TODO replace with std::vector
-  Tlit* new_literal_buffer = new Tlit[_vars.size().value + 1];
+  Tlit* new_literal_buffer = new Tlit[capacity];
   assert(_lit_buffer);
   std::memcpy(new_literal_buffer, _lit_buffer,
               _lit_buffer_size * sizeof(Tlit));
   delete[] _lit_buffer;
   _lit_buffer = new_literal_buffer;
+  _lit_buffer_capacity = capacity;
 }
 
 void NapSAT::allocate_chunks(size_t n_chunks)
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..0cb7966 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -257,7 +257,8 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _activities.reserve(n_clauses);
 
   // TODO replace this with an std::vector
-  _lit_buffer = new Tlit[2*n_var+1];
+  _lit_buffer_capacity = 2*n_var+1;
+  _lit_buffer = new Tlit[_lit_buffer_capacity];
   _lit_buffer_size = 0;
   var_allocate(n_var + 1);
 
@@ -518,7 +519,10 @@ void NapSAT::add_literal(Tlit lit)
   ASSERT(_writing_clause);
   Tvar var = lit.var();
   var_allocate(var);
-  ASSERT(_lit_buffer_size < _vars.size().value);
+  if (_lit_buffer_size == _lit_buffer_capacity) {
+    // the user may push more literals than there are variables (e.g., repeated literals)
+    reserve_literal_buffer(2 * _lit_buffer_capacity);
+  }
   _lit_buffer[_lit_buffer_size++] = lit;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 5eb7b5a..cbb63f2 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -817,6 +817,10 @@ public:
      * to write.
      */
     unsigned _lit_buffer_size = 0;
+    /**
+     * @brief Number of literals that the literal buffer can hold.
+     */
+    unsigned _lit_buffer_capacity = 0;
 
     /**
      * @brief Flag recording whether the most recent conflict is due to the user
@@ -1552,6 +1556,12 @@ public:
      */
     void var_allocate(Tvar var);
 
+    /**
+     * @brief Makes sure that the literal buffer can hold at least capacity
+     * literals. The literals already in the buffer are kept.
+     */
+    void reserve_literal_buffer(unsigned capacity);
+
     /**
      * @brief Allocates new chunks and rescale all variable chunks.
      */
-- 
2.43.0


From 1c3428eaf028ef44b65af2689a16b41ae9c573cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 10/62] fix: do not conclude unsatisfiability when the
 enumeration of the backtrack possibilities was cut

With lazy chunk merging, the possibilities found before the limit may all be
discarded because their decisions are implied at root level by a missed lower
implication. Enumerate the remaining ones before concluding UNSAT.
---
 src/solver/NapSAT-conflict.cpp | 17 ++++++++++++++---
 src/solver/NapSAT.hpp          |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 0345b53..fc124f0 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -18,6 +18,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <queue>
 
 using namespace std;
@@ -156,6 +157,16 @@ struct compare_prefixes {
 
 void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) const
 {
+  if (!compute_backtrack_possibilities(possibilities, _options.backtrack_possibilities_limit) && possibilities.empty()) {
+    // All the possibilities found before the limit depend on decisions that are implied at root level by a missed lower implication. The conflicts may still be fixed with the ones that were not enumerated.
+    compute_backtrack_possibilities(possibilities, numeric_limits<double>::infinity());
+  }
+  NOTIFY_STAT_N(_a_bt_choices, possibilities.size());
+}
+
+bool NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities, double limit) const
+{
+  bool complete = true;
   ASSERT(all_of(_conflicts_chunks.begin(), _conflicts_chunks.end(),
       [](const bitset& cl_chunks){ return !cl_chunks.empty(); }
     ));
@@ -166,8 +177,9 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
   prefixes.push(make_pair(_conflicts_chunks.size(), bitset(_n_allocated_chunks)));
   while (!prefixes.empty()) {
     // check if the prefix is subsumed by an existing possibility
-    if (possibilities.size() > _options.backtrack_possibilities_limit) {
+    if (possibilities.size() > limit) {
       NOTIFY_STAT(_n_backtrack_limit_reached);
+      complete = false;
       break;
     }
 
@@ -224,8 +236,7 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
     remaining |= cl_chunks;
   }
   enhance_backtrack_possibilities_with_lazy_merging(remaining, possibilities);
-
-  NOTIFY_STAT_N(_a_bt_choices, possibilities.size());
+  return complete;
 }
 
 void NapSAT::fix_conflicts_and_learned_in_order(const vector<pair<Tclause, vector<Tlit>>>& learned)
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index cbb63f2..ddb72c4 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2018,6 +2018,12 @@ public:
      */
     void compute_backtrack_possibilities(std::vector<bitset>& possibilities) const;
 
+    /**
+     * @brief Same as above, but stops the enumeration once more than limit possibilities have been found.
+     * @return true if all the possibilities were enumerated, false if the limit was reached before.
+     */
+    bool compute_backtrack_possibilities(std::vector<bitset>& possibilities, double limit) const;
+
     /**
      * @brief Given a learned clause, chooses the level to backtrack to
      * according to the options and the literals in the clause.
-- 
2.43.0


From 2dad698ef040c6a5228ee488e146138158f6d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 11/62] fix: do not process clauses added once the clause set
 is unsatisfiable

The trail is left in the state of the last conflict, so analysing the conflicts
of later clauses relied on an inconsistent state.
---
 src/solver/NapSAT-clauses.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index e6efa38..249a812 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -111,6 +111,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   ASSERT(lits_input != nullptr);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
+  if (external && _status == status::UNSAT && _n_assumptions == 0) {
+    // The clause set is already unsatisfiable, and the trail was left in the state of the last conflict.
+    return CLAUSE_UNDEF;
+  }
   if (external) {
     for (unsigned i = 0; i < input_size; i++)
       bump_var_activity(lits_input[i].var());
-- 
2.43.0


From 175cd96e7df942762484516c42dc73cd0f1ad094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 12/62] fix: do not read past the trail when lazy chunk merging
 leaves no UIP

With a small backtrack possibilities limit, a missed lower implication may lead
to several decisions of the backtracked chunks that cannot be merged. There is
no clause to learn in that case.
---
 src/solver/NapSAT-conflict.cpp | 36 ++++++++++++++++++++++++++++------
 src/solver/NapSAT.hpp          |  6 +++---
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index fc124f0..59f2b1d 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -766,7 +766,7 @@ bool NapSAT::mark_relevant_literals(Tlit lit, T level, unsigned& count) {
 }
 
 template <typename T>
-void NapSAT::analyze_conflict_impl(T level) {
+bool NapSAT::analyze_conflict_impl(T level) {
   ASSERT(_lit_buffer_size > 0);
   ASSERT(all_of(_trail.begin(), _trail.end(), [this](Tlit l){ return !lit_marked(l); }));
   NOTIFY(message, "Analyzing conflict " + clause_to_string(_lit_buffer, _lit_buffer_size) + " at level " + level.to_string(), 8);
@@ -785,9 +785,17 @@ void NapSAT::analyze_conflict_impl(T level) {
   // The information is held in the "marked" markers
   _lit_buffer_size = 0;
   unsigned i = _trail.size();
+  // bounds the number of missed lower implications that can be followed, since they may form cycles
+  size_t max_resets = _trail.size();
 
   while (count > 1) {
-    ASSERT(i > 0);
+    if (i == 0) {
+      // The missed lower implications lead to several decisions that cannot be merged. There is no UIP.
+      ASSERT(_options.lazy_chunk_merging);
+      for (Tlit lit : _trail)
+        lit_unmark(lit);
+      return false;
+    }
     Tlit lit = _trail[--i];
     if (!lit_marked(lit))
       continue;
@@ -808,7 +816,8 @@ void NapSAT::analyze_conflict_impl(T level) {
       continue;
     }
     if (mark_relevant_literals(lit, level, count)) {
-      i = _trail.size();
+      i = max_resets == 0 ? 0 : _trail.size();
+      max_resets -= max_resets > 0;
     }
   }
   ASSERT(count == 1);
@@ -865,10 +874,11 @@ void NapSAT::analyze_conflict_impl(T level) {
     _lit_buffer[k++] = lit;
   }
   _lit_buffer_size = k;
+  return true;
 }
 
-void NapSAT::analyze_conflict(Tlevel l) { analyze_conflict_impl(l); };
-void NapSAT::analyze_conflict(const bitset& b) { analyze_conflict_impl(b); };
+bool NapSAT::analyze_conflict(Tlevel l) { return analyze_conflict_impl(l); };
+bool NapSAT::analyze_conflict(const bitset& b) { return analyze_conflict_impl(b); };
 
 
 Tlevel NapSAT::compute_repair_level()
@@ -1194,8 +1204,12 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _dependency_tracker->start_tracking();
 
     T bt_save = bt;
+    bool analyzed = true;
     do {
-      analyze_conflict(bt);
+      analyzed = analyze_conflict(bt);
+      if (!analyzed) {
+        break;
+      }
 
       // check if the uip is a missed implication
       Tlit uip = _lit_buffer[0];
@@ -1230,6 +1244,16 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     } while (true);
     bt = bt_save;
 
+    if (!analyzed) {
+      // there is no clause to learn from this conflict
+      if (_proof)
+        _proof->cancel_resolution_chain();
+      if (_dependency_tracker)
+        _dependency_tracker->cancel_tracking();
+      _lit_buffer_size = 0;
+      continue;
+    }
+
     // check if the clause is new
 
     for (unsigned j = 0; j < _lit_buffer_size; j++) { lit_mark(_lit_buffer[j]); }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index ddb72c4..2add0ba 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2202,7 +2202,7 @@ public:
      * @brief Helper to implement both the level and chunk conflict analysis together
      */
     template <typename T>
-    void analyze_conflict_impl(T x);
+    bool analyze_conflict_impl(T x);
 
     /**
      * Analyze a conflict and learn a new clause.
@@ -2230,13 +2230,13 @@ public:
      * @details Sets the clause in the literal_buffer and _lit_buffer_size variables.
      * @post The literal_buffer is set such that the first literal is the UIP
      */
-    void analyze_conflict(Tlevel level);
+    bool analyze_conflict(Tlevel level);
 
     /**
      * @details Sets the clause in the literal_buffer and _lit_buffer_size variables.
      * @post The literal_buffer is set such that the first literal is the UIP
      */
-    void analyze_conflict(const bitset& chunks);
+    bool analyze_conflict(const bitset& chunks);
 
 
     /*************************************************************************/
-- 
2.43.0


From 351a71cd338c9baf303b628e5fbfcedffab5a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 13/62] fix: stop at the conflict limit with the conflict
 repaired

solve kept making decisions over the pending conflict once the limit was
reached, and clauses added before the next call could make it stale.
---
 src/solver/NapSAT.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 0cb7966..9c98565 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -370,10 +370,6 @@ bool NapSAT::propagate()
 
     if (!_conflicts.empty()) {
       _conflict_count++;
-      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
-        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
-        return false;
-      }
       repair_conflicts();
 
       if (_status == status::UNSAT) {
@@ -385,6 +381,11 @@ bool NapSAT::propagate()
       if (_options.restarts && _luby_counter.increment()) {
         restart();
       }
+      // the conflict must be repaired before stopping. Otherwise, clauses added by the user in the meantime may change the trail and solve the conflict.
+      if (_options.conflict_limit >= 0 && _conflict_count >= _options.conflict_limit) {
+        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        return false;
+      }
     }
   }
 
@@ -414,6 +415,10 @@ status NapSAT::solve()
         }
         break;
       }
+      if (_status == status::UNKNOWN) {
+        // the conflict limit was reached
+        break;
+      }
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From af07bd380fea10c1d6b4573d10bb8e2e8338ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 14/62] fix: a variable constrained after a SAT answer must be
 assigned before answering SAT again

With --ignore-unused-variables, the status stayed SAT when a clause over
unassigned variables was added, and the debug build asserted that the model
was total.
---
 src/solver/NapSAT.cpp | 2 +-
 src/solver/NapSAT.hpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 9c98565..bc0bd3f 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -400,7 +400,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 2add0ba..be7e404 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1531,6 +1531,9 @@ public:
       }
       _variable_heap.insert(var, _vars[var].activity);
       _vars[var].constrained = 1;
+      // the current model does not assign the variable
+      if (_status == status::SAT)
+        _status = status::UNKNOWN;
     }
 
     /**
-- 
2.43.0


From 964d32ce165e967b077487d65f021b00f6c25afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 15/62] fix: stop with UNKNOWN when the time given by --timeout
 is elapsed

The option was accepted and documented, but never consulted.
---
 src/solver/NapSAT.cpp | 16 +++++++++++++++-
 src/solver/NapSAT.hpp | 12 ++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index bc0bd3f..2d58d97 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -386,6 +386,10 @@ bool NapSAT::propagate()
         LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
         return false;
       }
+      if (timeout_reached()) {
+        LOG_INFO("Timeout reached: " + std::to_string(_options.timeout) + " ms");
+        return false;
+      }
     }
   }
 
@@ -404,6 +408,11 @@ status NapSAT::solve()
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
+  if (_options.timeout >= 0) {
+    // more than a year is considered as no timeout
+    const double max_timeout = 1000.0 * 60 * 60 * 24 * 365;
+    _deadline = chrono::steady_clock::now() + chrono::milliseconds((long long) min(_options.timeout, max_timeout));
+  }
   while (true) {
     if (!propagate()) {
       if (_status == status::UNSAT) {
@@ -416,7 +425,7 @@ status NapSAT::solve()
         break;
       }
       if (_status == status::UNKNOWN) {
-        // the conflict limit was reached
+        // the conflict limit or the timeout was reached
         break;
       }
     }
@@ -447,6 +456,10 @@ status NapSAT::solve()
       continue;
     }
     NOTIFY(check_invariants);
+    if (timeout_reached()) {
+      LOG_INFO("Timeout reached: " + std::to_string(_options.timeout) + " ms");
+      break;
+    }
     // synchronize();
 #if USE_OBSERVER
     if (_options.interactive)
@@ -458,6 +471,7 @@ status NapSAT::solve()
     if (_status == status::SAT)
       break;
   }
+  _deadline = chrono::steady_clock::time_point::max();
   if (_status == status::SAT)
     NOTIFY(check_invariants);
   auto end_time = std::chrono::high_resolution_clock::now();
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index be7e404..649d5ab 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -113,6 +113,7 @@
 #include "Sentinel-API.hpp"
 #include "Sentinel-wrapper.hpp"
 
+#include <chrono>
 #include <vector>
 #include <set>
 #include <iostream>
@@ -936,6 +937,17 @@ public:
      * option is set, the solver will stop upon reaching the conflict limit.
      */
     unsigned _conflict_count = 0;
+    /**
+     * @brief Time at which the current call to solve must stop.
+     * @details Only used if the timeout option is not negative.
+     */
+    std::chrono::steady_clock::time_point _deadline = std::chrono::steady_clock::time_point::max();
+    /**
+     * @brief Returns true if the time given by the timeout option is elapsed.
+     */
+    inline bool timeout_reached() const {
+      return _options.timeout >= 0 && std::chrono::steady_clock::now() >= _deadline;
+    }
 
     /**  CHRONOLOGICAL BACKTRACKING  **/
     /**
-- 
2.43.0


From 72bbf68aab80c40f58c3c22f9ebee8038f683635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 16/62] fix: allocate exactly the declared variables

create_solver(n) and new_variable allocated one variable too many, 'p cnf n'
one too few for n = 2, the 'cw' and 'co' comments one too many, and
variables_count counted the unused variable 0. The extra variables are free
and double the number of models.
---
 src/solver/NapSAT-utils.cpp | 18 +++++++++---------
 src/solver/NapSAT.cpp       |  4 ++--
 src/solver/NapSAT.hpp       |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 8877155..67a2831 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -102,11 +102,11 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_number = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_number <= 0)
             throw invalid_argument(var_string);
-          if (var >= _vars.size())
-            var_allocate(var + 1);
+          Tvar var = var_number;
+          var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -139,14 +139,14 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_number = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = var_number;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
-          if (var >= _vars.size())
-            var_allocate(var + 1);
+          var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
@@ -170,7 +170,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (first_line) {
         unsigned n_var, n_clauses;
         sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var > _vars.size().value) {
+        if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 2d58d97..9f633ba 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -260,7 +260,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _lit_buffer_capacity = 2*n_var+1;
   _lit_buffer = new Tlit[_lit_buffer_capacity];
   _lit_buffer_size = 0;
-  var_allocate(n_var + 1);
+  var_allocate(n_var);
 
   if (options.build_proof)
     _proof = new napsat::proof::resolution_proof();
@@ -276,7 +276,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 649d5ab..48b13d2 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -224,7 +224,7 @@ namespace napsat
      * @brief Returns the number of variables in the solver.
      * @return the number of variables in the solver.
      */
-    inline Tvar var_count() const noexcept { return _vars.size(); }
+    inline Tvar var_count() const noexcept { return _vars.size() - 1; }
 
     /**
      * @brief Parse a DIMACS file and add the clauses to the clause set.
-- 
2.43.0


From a3b31722d3344f8ac6595131d0cba72b623c21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 17/62] fix: read every clause of a DIMACS file

Clauses that follow another one on the same line were dropped, clauses that
span several lines were split, tabs and carriage returns were rejected, all but
the first clause were dropped when the solver was already SAT, a malformed
header left the number of variables uninitialised, and a parse error left the
solver in clause input mode.
---
 src/solver/NapSAT-utils.cpp | 42 ++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 67a2831..c898c6c 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <algorithm>
 
 #define ORANGE "\033[0;33m"
@@ -81,6 +82,8 @@ bool NapSAT::parse_dimacs(const char* filename)
 
   string line;
   bool first_line = true;
+  // a clause ends with 0, it may span several lines, and a line may contain several clauses
+  bool in_clause = false;
   while (getline(stream, line)) {
     ltrim(line);
     if (line.empty())
@@ -168,9 +171,13 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
-        sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var >= _vars.size().value) {
+        int n_var, n_clauses;
+        if (sscanf(line.c_str(), "p cnf %d %d", &n_var, &n_clauses) != 2 || n_var < 0 || n_clauses < 0) {
+          LOG_ERROR("The header " << line << " is not of the form \'p cnf <variables> <clauses>\'.");
+          _status = status::ERROR;
+          return false;
+        }
+        if ((unsigned) n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
@@ -183,29 +190,36 @@ bool NapSAT::parse_dimacs(const char* filename)
 
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while (ss >> token) {
       int lit;
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        if (pos != token.size() || lit == numeric_limits<int>::min())
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
         _status = status::ERROR;
+        _writing_clause = false;
+        _lit_buffer_size = 0;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!in_clause) {
+        start_clause();
+        in_clause = true;
+      }
+      if (lit != 0) {
+        add_literal(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      finalize_clause();
+      in_clause = false;
+      if (_status == status::UNSAT)
+        return true;
     }
-    finalize_clause();
-    if (_status != status::UNKNOWN)
-      return true;
   }
+  if (in_clause)
+    finalize_clause();
   return true;
 }
 
-- 
2.43.0


From f20eb8c52ad37252e0f12cfd23c4021fbd9cdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 18/62] fix: accept file names shorter than the compression
 suffixes

parse_dimacs threw std::out_of_range for them.
---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index c898c6c..4dee301 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -52,7 +52,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -61,7 +61,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From 9907382f1f1131ee1d4c53732c8ce2f9487e21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 19/62] fix: reject truncated xz files and read every stream of
 compressed files

A truncated .xz file was silently accepted, and the streams after the first
one of a .xz or .bz2 file were ignored (as written by pbzip2, or by
concatenating files).
---
 src/utils/decoder.cpp | 89 ++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..95fdb04 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -18,6 +18,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <cstring>
 #include <lzma.h>
 #include <bzlib.h>
 #include <string>
@@ -99,38 +100,43 @@ static string byte_size_to_string(uint64_t n_bytes) {
 
 bool decompress_xz(const char* filename, ostringstream& output)
 {
-  lzma_stream strm = LZMA_STREAM_INIT;
-  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, 0);
-  if (ret != LZMA_OK) {
-    LOG_ERROR("failed to initialize the decompression stream");
-    return false;
-  }
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
     return false;
   }
+  lzma_stream strm = LZMA_STREAM_INIT;
+  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, LZMA_CONCATENATED);
+  if (ret != LZMA_OK) {
+    LOG_ERROR("failed to initialize the decompression stream");
+    return false;
+  }
   unsigned const buff_size = 256;
   char buffer_in[buff_size];
   char buffer_out[buff_size];
+  lzma_action action = LZMA_RUN;
+  strm.avail_in = 0;
 
   do {
-    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
-    if (strm.avail_in == 0)
-      break;
-    strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
-    do {
-      strm.avail_out = sizeof(buffer_out);
-      strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
-      ret = lzma_code(&strm, LZMA_RUN);
-      if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
-        print_error_message(ret);
-        return false;
-      }
-      output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
-    } while (strm.avail_out == 0);
+    if (strm.avail_in == 0 && action == LZMA_RUN) {
+      file.read(buffer_in, sizeof(buffer_in));
+      strm.avail_in = file.gcount();
+      strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
+      if (!file)
+        action = LZMA_FINISH; // the decoder fails if the data is truncated
+    }
+    strm.avail_out = sizeof(buffer_out);
+    strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
+    ret = lzma_code(&strm, action);
+    if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
+      print_error_message(ret);
+      lzma_end(&strm);
+      return false;
+    }
+    output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
@@ -139,30 +145,43 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
 {
     const int bufferSize = 4096;
     char buffer[bufferSize];
+    // bytes already read from the file, but that belong to the next stream
+    char unused[BZ_MAX_UNUSED];
+    int nUnused = 0;
 
     FILE* file = fopen(filename, "rb");
     if (!file) {
         return false;
     }
 
-    BZFILE* bzFile = nullptr;
-    int bzError;
-    bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, nullptr, 0);
-    if (bzError != BZ_OK) {
-        fclose(file);
-        return false;
-    }
+    bool success = true;
+    bool finished = false;
+    // a file may be the concatenation of several streams
+    while (success && !finished) {
+        int bzError;
+        BZFILE* bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, unused, nUnused);
 
-    while (bzError == BZ_OK) {
-        int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
-        if (bytesRead > 0) {
-            output.write(buffer, bytesRead);
+        while (bzError == BZ_OK) {
+            int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
+            if ((bzError == BZ_OK || bzError == BZ_STREAM_END) && bytesRead > 0) {
+                output.write(buffer, bytesRead);
+            }
         }
-    }
-
-    bool success = (bzError == BZ_STREAM_END);
 
-    BZ2_bzReadClose(&bzError, bzFile);
+        success = (bzError == BZ_STREAM_END);
+        if (success) {
+            void* next;
+            BZ2_bzReadGetUnused(&bzError, bzFile, &next, &nUnused);
+            memmove(unused, next, nUnused);
+            if (nUnused == 0) {
+                int c = fgetc(file);
+                finished = (c == EOF);
+                if (!finished)
+                    ungetc(c, file);
+            }
+        }
+        BZ2_bzReadClose(&bzError, bzFile);
+    }
     fclose(file);
 
     return success;
-- 
2.43.0


From 19728ccd90a893ff331c32ad65ebe97427b8f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 20/62] fix: bitset::empty must look at every metadata word

Only the first 4032 bits were checked.
---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 2be56f4068327f89bff6f79b8a530b666d25f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 21/62] fix: allow bitsets built with a size of zero

The size underflowed, and the constructor tried to allocate an enormous vector.
---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3ed90ad..017cc85 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -78,7 +78,7 @@ bitset::bitset() noexcept : _bits(1) {
   assert(_bits[0] == 0);
 }
 
-bitset::bitset(size_t size) noexcept : _bits(MP(size-1) + 1, M_NEXT_MSK) {
+bitset::bitset(size_t size) noexcept : _bits(MP(size > 0 ? size-1 : 0) + 1, M_NEXT_MSK) {
   // clear the last entry
   _bits.back() = 0;
 }
-- 
2.43.0


From 6380a8696c1dde2bf345e1ba4eca51748463ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 22/62] fix: restore the heap order upwards when an inner key
 is removed

---
 src/utils/heap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..42a698e 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,11 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
+  if (i < _heap.size()) {
+    // the key that took the place may come from another branch of the tree
+    heapify_up(i);
     heapify_down(i);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 53f980fb66d540a48f4c0f28bdb8f92d7997bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 23/62] fix: allocate valid chunks when more than 4032
 decisions are made

The identifiers of the new chunks started above the size of the chunk sets, and
the sets of missed implications and locked chunks were not resized.
---
 src/solver/NapSAT-utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4dee301..b7f2c59 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -377,8 +377,9 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  // the lowest chunks are used first
+  for (Tchunk i = n_chunks; i > _n_allocated_chunks; i--) {
+    _free_chunks.push_back(i - 1);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -388,9 +389,10 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _chunks.size().value; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
+  _locked_chunks.resize(_n_allocated_chunks);
 }
 
 unsigned NapSAT::utility_heuristic(Tlit lit)
-- 
2.43.0


From 858504cb1bc376e63978de510bcb9048058946a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 24/62] fix: make room for the literals of a lazy reason added
 to the clause being learned

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 59f2b1d..fbffbd1 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1229,6 +1229,8 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       if (_dependency_tracker)
         _dependency_tracker->track_dependency(lazy_reason);
 
+      // the learned clause and the lazy reason may share literals, and be longer than the number of variables
+      reserve_literal_buffer(_lit_buffer_size + clause_size(lazy_reason));
       const Tlit* reason_lits = clause_lits(lazy_reason);
       for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
         _lit_buffer[_lit_buffer_size++] = reason_lits[j];
-- 
2.43.0


From c9fde4477529626e7495cce22fdaac7679c74d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 25/62] fix: do not queue variables that are in no clause for a
 decision when they are unassigned

---
 src/solver/NapSAT-backtrack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index fbe9ffa..6529b91 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -30,7 +30,8 @@ void NapSAT::var_unassign(Tvar var)
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
-  if (!_variable_heap.contains(var))
+  // a variable decided by the user may not be constrained
+  if (var_constrained(var) && !_variable_heap.contains(var))
     _variable_heap.insert(var, v.activity);
 
   if (_options.graph_backtracking) {
-- 
2.43.0


From d0912fdcc6f4950b7d9e649eea4a2861a7023212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 26/62] fix: recompute the missed lower implications when
 literals of lazy reasons become implied at root level

---
 src/solver/NapSAT-imply.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index b65c7e4..f89a873 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -269,6 +269,16 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
         }
       }
     }
+
+    // the lazy reasons may contain literals that lost some of their chunks
+    for (size_t decision_index : _decision_index) {
+      Tlit decision = _trail[decision_index];
+      if (lit_lazy_reason(decision) == CLAUSE_UNDEF)
+        continue;
+      bitset missed_implication = clause_chunks(lit_lazy_reason(decision));
+      missed_implication -= lit_chunks(decision);
+      _chunks[*lit_chunks(decision).cbegin()].missed_implication = missed_implication;
+    }
   }
 
   ASSERT(check_decision_index_consistency());
-- 
2.43.0


From d7402f248509bf2737a3e5463099c29af8e949b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 27/62] fix: remove the backtrack possibilities subsumed by one
 found later with lazy chunk merging

---
 src/solver/NapSAT-conflict.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index fbffbd1..b2f5c2f 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -113,6 +113,10 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
     return;
   }
 
+  // the combinations found so far may be subsumed by the new one
+  combinations.erase(remove_if(combinations.begin(), combinations.end(),
+                               [&current](const bitset& b) { return current <= b; }),
+                     combinations.end());
   combinations.push_back(current);
 }
 
-- 
2.43.0


From b697b16db3d358a40efa80dce39fd0414286d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:36 +0000
Subject: [PATCH 28/62] fix: propagate literals implied at root level again
 when the chunks they lost are backtracked

---
 src/solver/NapSAT-imply.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index f89a873..813d379 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -178,6 +178,9 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
   // this does nothing outside of GB, but it does not hurt either
   bitset old_chunks = lit_chunks(lit);
   lit_chunks(lit).clear();
+  // The literals watched with lit may be satisfied by literals in the chunks that lit lost. When those chunks are backtracked, lit must still be propagated again.
+  if (_options.graph_backtracking && !squash_level)
+    lit_cross_chunks(lit) |= old_chunks;
 
   // fix the trail
   if (!_options.graph_backtracking) {
@@ -263,7 +266,12 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
       if (lit_chunks(l) >= old_chunks) {
         Tlevel prev_level = lit_level(l);
         lit_level(l) = implication_level(lit_reason(l));
+        bitset lost_chunks = lit_chunks(l);
         recompute_chunks(l);
+        lost_chunks -= lit_chunks(l);
+        if (squash_level)
+          lost_chunks -= old_chunks;
+        lit_cross_chunks(l) |= lost_chunks;
         if (lit_level(l) != prev_level) {
           NOTIFY(update_level, l, lit_level(l));
         }
-- 
2.43.0


From 6e70c6aaff3dd2be92ae0ca4f3a17c1cd9baca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 29/62] fix: keep only minimal backtrack possibilities in graph
 backtracking

---
 src/solver/NapSAT-conflict.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index b2f5c2f..e753d11 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -191,8 +191,7 @@ bool NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities, doub
     bitset& prefix = p.second;
     prefixes.pop();
 
-    // by virtue of the priority queue, we know that future prefixes cannot subsum older ones.
-    // But it can still be the case that an older prefix subsumes a newer one
+    // an older possibility may subsume the prefix
     if (any_of(possibilities.begin(), possibilities.end(),
         [prefix](const bitset& p){ return p <= prefix; }
       )) {
@@ -201,6 +200,10 @@ bool NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities, doub
     }
     if (p.first == prefix.count()) {
       // all conflicts are solved, we can stop
+      // a single chunk may solve more conflicts than the priority anticipates, so the prefix may subsume older possibilities
+      possibilities.erase(remove_if(possibilities.begin(), possibilities.end(),
+                                    [&prefix](const bitset& p) { return prefix <= p; }),
+                          possibilities.end());
       possibilities.push_back(prefix);
       continue;
     }
-- 
2.43.0


From 1361d0d3f25bc40c45cfd4ee853bca62930110e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 30/62] fix: count of elements left out by bitset::to_string

---
 src/utils/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 017cc85..8952cfb 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -530,9 +530,9 @@ std::string bitset::to_string() const {
     if (i != cend()) {
       result += ", ";
     }
-    if (--lim == 0) {
+    if (--lim == 0 && i != cend()) {
       result += "... ";
-      unsigned left = count() - 20;
+      size_t left = count() - 1000;
       result += std::to_string(left) + " more";
       break;
     }
-- 
2.43.0


From cadb6de5a5fbe21bfc5a8b87f2185e4207004dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 31/62] fix: pad columns of numbers above INT_MAX, and columns
 of zeros

---
 src/utils/printer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..1413071 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -43,7 +43,7 @@ unsigned string_length_escaped(string const str)
   return str.length() - n_escaped;
 }
 
-static inline unsigned log10(int n)
+static inline unsigned log10(unsigned n)
 {
   assert(n > 0);
   unsigned digits = 0;
@@ -57,6 +57,7 @@ static inline unsigned log10(int n)
 string pad(unsigned n, unsigned max_int)
 {
   n = max(n, 1u);
+  max_int = max(max_int, 1u); // e.g. the highest level when there is no decision
   int max_digits = log10(max_int);
   int digits = log10(n);
   string s = "";
-- 
2.43.0


From 2d6d852f55d37de46f73b94310765874fd28ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 32/62] fix: reject DIMACS headers with numbers that do not fit

---
 src/solver/NapSAT-utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b7f2c59..7437b68 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -21,6 +21,8 @@
 #include <fstream>
 #include <iomanip>
 #include <limits>
+#include <cmath>
+#include <cstring>
 #include <algorithm>
 
 #define ORANGE "\033[0;33m"
@@ -172,7 +174,9 @@ bool NapSAT::parse_dimacs(const char* filename)
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
         int n_var, n_clauses;
-        if (sscanf(line.c_str(), "p cnf %d %d", &n_var, &n_clauses) != 2 || n_var < 0 || n_clauses < 0) {
+        // numbers that do not fit are rejected
+        istringstream header(line.substr(strlen("p cnf")));
+        if (!(header >> n_var >> n_clauses) || n_var < 0 || n_clauses < 0) {
           LOG_ERROR("The header " << line << " is not of the form \'p cnf <variables> <clauses>\'.");
           _status = status::ERROR;
           return false;
-- 
2.43.0


From fb7791764628ecd78590b0f891cd4483593cfa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 33/62] fix: ignore weights of variables that are not finite in
 DIMACS files

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 7437b68..1cd1b0f 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -149,7 +149,7 @@ bool NapSAT::parse_dimacs(const char* filename)
             throw invalid_argument(var_string);
           Tvar var = var_number;
           double weight = stod(weight_string, &pos);
-          if (pos != weight_string.size())
+          if (pos != weight_string.size() || !isfinite(weight))
             throw invalid_argument(weight_string);
           var_allocate(var);
           var_weight(var) = weight;
-- 
2.43.0


From e51d177a4b1a3c4d8d5767a758370df043d726d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 34/62] fix: reject an input file that cannot be read

---
 src/solver/NapSAT-utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 1cd1b0f..1501b62 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -79,7 +79,15 @@ bool NapSAT::parse_dimacs(const char* filename)
       _status = status::ERROR;
       return false;
     }
-    stream = istringstream(string((istreambuf_iterator<char>(file)), istreambuf_iterator<char>()));
+    try {
+      stream = istringstream(string((istreambuf_iterator<char>(file)), istreambuf_iterator<char>()));
+    }
+    catch (const ios_base::failure &e) {
+      // e.g. the file is a directory
+      LOG_ERROR("The file " << filename << " could not be read.");
+      _status = status::ERROR;
+      return false;
+    }
   }
 
   string line;
-- 
2.43.0


From e17f13cbcda9230d7a3b75e1c71f62eafba7d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 35/62] fix: resolve the backtracking options that exclude one
 another, also when they are set as fields

---
 include/SAT-options.hpp    |  8 ++++++++
 src/solver/NapSAT.cpp      |  1 +
 src/solver/SAT-options.cpp | 30 +++++++++++++++++++++++-------
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/SAT-options.hpp b/include/SAT-options.hpp
index ebf8b43..74da327 100644
--- a/include/SAT-options.hpp
+++ b/include/SAT-options.hpp
@@ -346,6 +346,14 @@ namespace napsat
     */
     explicit options(std::vector<std::string>& tokens);
 
+    /**
+     * @brief Resolves the combinations of backtracking options that exclude or imply one another.
+     * @details Graph backtracking subsumes the other strategies, its modifiers require it, and
+     * lazy strong chronological backtracking is a form of chronological backtracking. Applied by
+     * the solver to the options it is given, since the fields can be set in any combination.
+     */
+    void resolve_backtracking();
+
     /**
      * @brief Runtime-generated help text describing every solver option (and, nested within it,
      * every sentinel/observer option). Replaces the old scripts/generate-option-documentation.py
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 9f633ba..6206519 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -130,6 +130,7 @@ static inline void print_bt_option(const options &options) {
 napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& options) :
   _options(options)
 {
+  _options.resolve_backtracking();
   print_bt_option(_options);
 #if USE_STATISTICS
   if (options.print_stats || options.print_live_stats) {
diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..87a2327 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -320,13 +320,7 @@ napsat::options::options(vector<string>& tokens)
   /****************************************************************************/
   /**                    DERIVED VALUES / MANUAL SPECIAL CASES               **/
   /****************************************************************************/
-  chronological_backtracking |= lazy_strong_chronological_backtracking;
-
-  if (graph_backtracking && chronological_backtracking) {
-    LOG_WARNING("graph backtracking subsumes chronological backtracking.");
-    LOG_WARNING("The solver will run with graph backtracking.");
-    chronological_backtracking = false;
-  }
+  resolve_backtracking();
 
   interactive |= !sentinel_options.commands_file.empty();
 
@@ -340,6 +334,28 @@ napsat::options::options(vector<string>& tokens)
   }
 }
 
+void napsat::options::resolve_backtracking()
+{
+  chronological_backtracking |= lazy_strong_chronological_backtracking;
+
+  if (graph_backtracking && chronological_backtracking) {
+    LOG_WARNING("graph backtracking subsumes chronological backtracking.");
+    LOG_WARNING("The solver will run with graph backtracking.");
+    chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
+  }
+
+  lazy_chunk_merging &= graph_backtracking;
+  eager_chunk_merging &= graph_backtracking && !lazy_chunk_merging;
+  backtrack_first_chunk &= graph_backtracking;
+  backtrack_smallest_chunk &= graph_backtracking && !backtrack_first_chunk;
+  backtrack_learned &= graph_backtracking;
+  use_max_approximate_cost_estimation &= graph_backtracking;
+  use_sum_approximate_cost_estimation &= graph_backtracking && !use_max_approximate_cost_estimation;
+  use_vsids_approximate_cost_estimation &= graph_backtracking && !use_max_approximate_cost_estimation
+    && !use_sum_approximate_cost_estimation;
+}
+
 string napsat::options::get_help_text()
 {
   static const string title =
-- 
2.43.0


From 9b4800717f94e8fbc49d0899a250c12a0f8e7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 36/62] fix: reject resolution chains whose pivots are not in
 the resolved clauses

---
 src/proof/proof.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 62383f5..0d59167 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -164,28 +164,25 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     return true;
   }
   tmp_lits.clear();
-  for (pair<Tlit, unsigned> link : c.resolution_chain) {
+  for (unsigned link_index = 0; link_index < c.resolution_chain.size(); link_index++) {
+    pair<Tlit, unsigned> link = c.resolution_chain[link_index];
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
 
-    if (pivot == LIT_UNDEF)
-      continue;
+    if (link_index != 0) {
+      // the pivot must be in the clause derived so far, and its negation in the clause of the link
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size() || binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+        LOG_ERROR("The resolution chain of clause " << index << " uses a pivot that is not in the resolved clauses");
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
 
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+    for (unsigned i = 0; i < cl.size; i++)
+      if (link_index == 0 || cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From ab0a8e6138f86c5e0c25d5f627255733b37303a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 37/62] fix: remove every literal falsified at root level from
 the clauses of a proof

---
 src/proof/proof.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 0d59167..48a4f53 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -246,16 +246,15 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
   assert(clause_matches[id] != 0xFFFFFFFF);
   clause &c = clauses[clause_matches[id]];
 
-  Tlit* end = c.lits + c.size;
-
-  vector<Tlit> simplified_clause(c.lits, end);
+  vector<Tlit> simplified_clause(c.lits, c.lits + c.size);
 
   start_resolution_chain();
   link_resolution(LIT_UNDEF, id);
 
   unsigned i = root_lit.size();
   while (i > 0) {
-    while (i > 0 && find(c.lits, end, ~root_lit[i-1]) == end) // TODO can use binary search if too slow
+    // the reasons resolved so far may have added literals falsified at root level to the clause
+    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
       i--;
     if (i == 0)
       break;
-- 
2.43.0


From 36198ff16765233cd578c4b98fb21005889cd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 38/62] fix: do not crash on option values that are not
 representable

---
 src/utils/options.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..e4cdd96 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -15,6 +15,7 @@
 
 #include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -156,6 +157,11 @@ namespace napsat
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
     }
+    catch (const std::out_of_range&) {
+      LOG_WARNING("the value of option " << tokens[i] << " is not representable.");
+      LOG_WARNING("Default value " << _storage << " is used.");
+      return false;
+    }
     i++;
     return true;
   }
-- 
2.43.0


From 947604d3b0168a5f337bf66cec4693d4e86383d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 39/62] fix: the value of a boolean environment option is not
 left to the preceding option

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 87a2327..42a491f 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -92,6 +92,7 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
           LOG_WARNING("Default value " << (*bool_options[token] ? "on" : "off") << " is used.");
           continue;
         }
+        i++;
       }
       else
         *bool_options[token] = true;
-- 
2.43.0


From 3bd395179647a248990854fa63301038b2b08821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 40/62] fix: --all-models without an input file prints the
 usage instead of crashing

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index ea4c76a..ac31f28 100644
--- a/main.cpp
+++ b/main.cpp
@@ -46,6 +46,10 @@ int main(int argc, char** argv)
       argv[i] = argv[i + 1];
     }
     argc--;
+    if (argc < 2) {
+      cout << "Usage: " << argv[0] << " --all-models <input_file> [options]" << endl;
+      return 1;
+    }
   }
 
   vector<string> tokens(argv + 2, argv + argc);
-- 
2.43.0


From 97df269044ee6beef43de0008bb5b1e7418078a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 41/62] fix: malformed interactive commands are ignored, and a
 learned clause may refute the problem

---
 src/solver/NapSAT-utils.cpp | 79 ++++++++++++++++++++++++++++---------
 src/solver/NapSAT.cpp       |  5 ++-
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 1501b62..b70e8a5 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -990,6 +990,21 @@ void NapSAT::print_watch_lists(Tlit lit) const
   }
 }
 
+/**
+ * @brief Reads an integer from the whole of a token. Returns false if it is not one.
+ */
+static bool parse_integer(const string& token, int& value)
+{
+  try {
+    size_t n_read = 0;
+    value = stoi(token, &n_read);
+    return n_read == token.size() && value != numeric_limits<int>::min();
+  }
+  catch (const std::logic_error&) {
+    return false;
+  }
+}
+
 bool NapSAT::parse_command(std::string input)
 {
   if (input == "") {
@@ -1018,6 +1033,20 @@ bool NapSAT::parse_command(std::string input)
   if (tmp != "") {
     tokens.push_back(tmp);
   }
+  // reads a literal; if declared is set, its variable must already exist
+  auto parse_literal = [this](const string& token, Tlit& lit, bool declared) {
+    int lit_int;
+    if (!parse_integer(token, lit_int) || lit_int == 0) {
+      LOG_WARNING("\"" << token << "\" is not a literal. This command is ignored.");
+      return false;
+    }
+    lit = Tlit(abs(lit_int), lit_int > 0);
+    if (declared && lit.var() >= _vars.size()) {
+      LOG_WARNING("The literal " << token << " does not exist. This command is ignored.");
+      return false;
+    }
+    return true;
+  };
   if (tokens.size() == 0) {
     LOG_WARNING("Empty command. Try \"HELP\" to get the list of commands.");
     return false;
@@ -1026,8 +1055,9 @@ bool NapSAT::parse_command(std::string input)
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
-      int lit_int = stoi(tokens[1]);
-      Tlit lit = Tlit(abs(lit_int), lit_int > 0);
+      Tlit lit;
+      if (!parse_literal(tokens[1], lit, true))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
@@ -1044,8 +1074,9 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!parse_literal(tokens[1], lit, true))
+      return false;
     if (!assume(lit)) {
       LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
@@ -1056,8 +1087,9 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!parse_literal(tokens[1], lit, true))
+      return false;
     if (!forget_assumption(lit)) {
       LOG_WARNING("The forgetting of assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
@@ -1065,21 +1097,29 @@ bool NapSAT::parse_command(std::string input)
   }
   else if (tokens[0] == "HINT") {
     if (tokens.size() == 2) {
-      int lit = stoi(tokens[1]);
+      Tlit lit;
+      if (!parse_literal(tokens[1], lit, true))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
       }
-      hint(Tlit(abs(lit), lit > 0));
+      hint(lit);
     }
     else if (tokens.size() == 3) {
-      int lit = stoi(tokens[1]);
+      Tlit lit;
+      if (!parse_literal(tokens[1], lit, true))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
       }
-      Tlevel level = stoi(tokens[2]);
-      hint(Tlit(abs(lit), lit > 0), level);
+      int level;
+      if (!parse_integer(tokens[2], level) || level < 0 || Tlevel(level) > solver_level() + 1) {
+        LOG_WARNING("\"" << tokens[2] << "\" is not a level. This command is ignored.");
+        return false;
+      }
+      hint(lit, level);
     }
     else {
       LOG_WARNING("Wrong number of arguments (expected 0 or 1). This command is ignored.");
@@ -1087,11 +1127,13 @@ bool NapSAT::parse_command(std::string input)
     }
   }
   else if (tokens[0] == "LEARN") {
+    vector<Tlit> lits(tokens.size() - 1);
+    for (unsigned i = 1; i < tokens.size(); i++)
+      if (!parse_literal(tokens[i], lits[i - 1], false))
+        return false;
     start_clause();
-    for (unsigned i = 1; i < tokens.size(); i++) {
-      int lit = stoi(tokens[i]);
-      add_literal(Tlit(abs(lit), lit > 0));
-    }
+    for (Tlit lit : lits)
+      add_literal(lit);
     finalize_clause();
   }
   else if (tokens[0] == "EXIT") {
@@ -1118,11 +1160,12 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    Tclause cl = stoi(tokens[1]);
-    if (cl < 0 || cl >= _clauses.size()) {
-      LOG_WARNING("The clause " << cl << " does not exist. This command is ignored.");
+    int cl_int;
+    if (!parse_integer(tokens[1], cl_int) || cl_int < 0 || (unsigned) cl_int >= _clauses.size().value) {
+      LOG_WARNING("The clause " << tokens[1] << " does not exist. This command is ignored.");
       return false;
     }
+    Tclause cl = cl_int;
     if (_clauses[cl].deleted) {
       LOG_WARNING("The clause " << cl << " is already deleted\n");
       return false;
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 6206519..d7c8486 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -468,8 +468,9 @@ status NapSAT::solve()
     else
 #endif
       decide();
-    ASSERT(_status != status::UNSAT);
-    if (_status == status::SAT)
+    // a clause learned by the user in interactive mode may refute the problem
+    ASSERT(_status != status::UNSAT || _options.interactive);
+    if (_status != status::UNKNOWN)
       break;
   }
   _deadline = chrono::steady_clock::time_point::max();
-- 
2.43.0


From 3a6ca1d8137e79d38ba05869f05f34da5332a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 42/62] fix: an empty clause may be given without an array of
 literals

---
 src/solver/NapSAT-clauses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 249a812..f587419 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -108,7 +108,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             bool external,
                                             Tclause id)
 {
-  ASSERT(lits_input != nullptr);
+  ASSERT(lits_input != nullptr || input_size == 0);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
   if (external && _status == status::UNSAT && _n_assumptions == 0) {
-- 
2.43.0


From fa1f7223643f0efe1675438397f0c25cb0b1a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 43/62] fix: notify the blockers of purged clauses only when
 watch changes are notified

---
 src/solver/NapSAT-purge.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 15abf14..43d4a9f 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -227,9 +227,9 @@ void napsat::NapSAT::purge_clauses()
 
     if (clause.size == 2) {
       _binary_watches[lits[0]].push_back(TSwatch(cl, lits[1]));
-      NOTIFY(block, cl, lits[1], lits[0]);
+      NOTIFY_WATCH(block, cl, lits[1], lits[0]);
       _binary_watches[lits[1]].push_back(TSwatch(cl, lits[0]));
-      NOTIFY(block, cl, lits[0], lits[1]);
+      NOTIFY_WATCH(block, cl, lits[0], lits[1]);
       NOTIFY_STAT(_n_binary_clause_simplified);
     }
     if (clause.size == 1) {
-- 
2.43.0


From 08df2709ee8dc0652367b4935bf727d0428629e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 44/62] fix: the cross-chunks of a merged decision contain the
 chunks it gets

---
 src/solver/NapSAT-imply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 813d379..5db96b2 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -425,6 +425,8 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   // update the decision level and bitset
   lit_level(decision) = implication_level(reason);
   lit_chunks(decision) = reason_chunks;
+  lit_cross_chunks(decision).set(decision_chunk, false);
+  lit_cross_chunks(decision) |= reason_chunks;
 
   // update the cross chunk
   if (clause_size(reason) >= 2) {
-- 
2.43.0


From e2301420efd4e8992754af02561ff72c74bc2bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 45/62] fix: record learned clauses, and the conflict they come
 from, in the dependency tracker

---
 src/solver/NapSAT-conflict.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index e753d11..268ed63 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1207,8 +1207,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     bool analyzed = true;
@@ -1305,8 +1307,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
-- 
2.43.0


From 67f52016f83a40c1d400de5876975ad7c346d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 46/62] fix: input clauses are kept while dependencies are
 recorded

---
 src/solver/NapSAT-purge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 43d4a9f..9435b36 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -85,7 +85,7 @@ void napsat::NapSAT::purge_root_watch_lists()
         // remove the clause from the watch list
         continue;
       }
-      if (is_protected(cl)) {
+      if (is_protected(cl) || (_dependency_tracker && clause.external)) {
         // keep the clause
         *(k++) = *j;
         continue;
@@ -148,6 +148,9 @@ void napsat::NapSAT::purge_clauses()
       continue;
     if (is_protected(cl))
       continue;
+    // the input clauses are not simplified when their identifiers may be reported in an UNSAT core
+    if (_dependency_tracker && clause.external)
+      continue;
     // Since all literals are propagated, if a clause has a watched literal falsified at level 0, then the other must be satisfied.
     // In strong chronological backtracking, the other watched literal must be satisfied at level 0 too.
     Tlit* lits = clause.lits;
-- 
2.43.0


From 88e1bbe6a09a9213042fa556f9af598d02f23dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 47/62] fix: removing a root level literal depends on
 everything that falsifies it

---
 src/solver/NapSAT-clauses.cpp  | 12 +++++-------
 src/solver/NapSAT-conflict.cpp |  8 ++------
 src/solver/NapSAT-purge.cpp    |  5 ++---
 src/solver/NapSAT.cpp          | 21 +++++++++++++++++++++
 src/solver/NapSAT.hpp          |  8 ++++++++
 5 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index f587419..b4b83ef 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -240,15 +240,13 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       _proof->finalize_resolution(id, lits, clause.size);
     }
   }
-  if (_dependency_tracker && external) {
-    _dependency_tracker->add_input(id);
+  if (_dependency_tracker) {
+    if (external)
+      _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
     if (n_removed > 0) {
-      for (unsigned i = 0; i < input_size; i++) {
-        if (lit_level(lits_input[i]) == LEVEL_ROOT) {
-          _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
-        }
-      }
+      for (Tclause premise : root_premises(lits_input, input_size))
+        _dependency_tracker->link_dependencies(id, premise);
     }
   }
   if (clause.size == 0) {
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 268ed63..25d9784 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -863,12 +863,8 @@ bool NapSAT::analyze_conflict_impl(T level) {
   if (_proof)
     prove_root_literal_removal(_lit_buffer, _lit_buffer_size);
   if (_dependency_tracker) {
-    for (unsigned i = 0; i < _lit_buffer_size; i++) {
-      Tlit lit = _lit_buffer[i];
-      if (lit_level(lit) == LEVEL_ROOT) {
-        _dependency_tracker->track_dependency(lit_reason(lit));
-      }
-    }
+    for (Tclause premise : root_premises(_lit_buffer, _lit_buffer_size))
+      _dependency_tracker->track_dependency(premise);
   }
 
   unsigned k = 0;
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 9435b36..4259929 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -223,9 +223,8 @@ void napsat::NapSAT::purge_clauses()
       _proof->finalize_resolution(cl, lits, clause.size);
     }
     if (_dependency_tracker && previous_size != clause.size) {
-      for (unsigned j = clause.size; j < previous_size; j++) {
-        _dependency_tracker->link_dependencies(cl, lit_reason(clause.lits[j]));
-      }
+      for (Tclause premise : root_premises(clause.lits + clause.size, previous_size - clause.size))
+        _dependency_tracker->link_dependencies(cl, premise);
     }
 
     if (clause.size == 2) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index d7c8486..41bb886 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -62,6 +62,27 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
   }
 }
 
+std::vector<Tclause> NapSAT::root_premises(const Tlit* lits, unsigned size)
+{
+  std::vector<Tclause> premises;
+  for (unsigned i = 0; i < size; i++) {
+    if (lit_level(lits[i]) == LEVEL_ROOT)
+      lit_mark(lits[i]);
+  }
+  for (size_t i = _trail.size(); i-- > 0;) {
+    Tlit lit = _trail[i];
+    if (!lit_marked(lit))
+      continue;
+    lit_unmark(lit);
+    Tclause reason = lit_reason(lit);
+    ASSERT(reason != CLAUSE_UNDEF);
+    premises.push_back(reason);
+    for (unsigned j = 1; j < clause_size(reason); j++)
+      lit_mark(clause_lits(reason)[j]);
+  }
+  return premises;
+}
+
 void NapSAT::restart()
 {
   NOTIFY_STAT(_n_restart);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 48b13d2..e344a92 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2398,6 +2398,14 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Returns the reasons that falsify the root level literals among
+     * lits, together with the reasons of the literals they depend on.
+     * @pre all the literals in the trail must be unmarked
+     * @post all the literals in the trail are unmarked
+     */
+    std::vector<Tclause> root_premises(const Tlit* lits, unsigned size);
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From a7346d5cb3074432cc73e3e1e40e070990afe73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 48/62] fix: the clause core of a set that is unsatisfiable
 without assumptions

---
 src/solver/NapSAT-assumptions.cpp |  2 ++
 src/solver/NapSAT-clauses.cpp     |  2 ++
 src/solver/NapSAT-conflict.cpp    | 33 ++++++++++++++++++++++++-------
 src/solver/NapSAT.hpp             |  4 ++++
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..468dd88 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -120,6 +120,8 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   ASSERT(_dependency_tracker, "Clause unsat core requires a dependency tracker.");
+  if (_n_assumptions == 0)
+    return std::vector<Tclause>(_refutation_dependencies.begin(), _refutation_dependencies.end());
   // look at each conflict clause, and find the ones that are failed by locked
   // chunks only. Return the corresponding clauses.
   std::set<Tclause> failed;
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index b4b83ef..523f33f 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -251,6 +251,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
   if (clause.size == 0) {
     _status = status::UNSAT;
+    if (_dependency_tracker)
+      _refutation_dependencies = _dependency_tracker->get_dependencies(id);
     return id;
   }
   // sort the literals
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 25d9784..c23d434 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -454,6 +454,13 @@ bool NapSAT::root_level_conflict()
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
       }
+      if (_dependency_tracker) {
+        _refutation_dependencies = _dependency_tracker->get_dependencies(conflict);
+        for (Tclause premise : root_premises(clause_lits(conflict), clause_size(conflict))) {
+          const set<Tclause>& deps = _dependency_tracker->get_dependencies(premise);
+          _refutation_dependencies.insert(deps.begin(), deps.end());
+        }
+      }
       return true;
     }
   }
@@ -462,10 +469,12 @@ bool NapSAT::root_level_conflict()
 
 void NapSAT::prove_root_conflict_with_lazy_merging()
 {
-  ASSERT(_proof);
   for (Tclause conflict : _conflicts) {
-    _proof->start_resolution_chain();
-    _proof->link_resolution(LIT_UNDEF, conflict);
+    if (_proof) {
+      _proof->start_resolution_chain();
+      _proof->link_resolution(LIT_UNDEF, conflict);
+    }
+    vector<Tclause> premises = {conflict};
     for (unsigned j = 0; j < clause_size(conflict); j++)
       lit_mark(clause_lits(conflict)[j]);
 
@@ -487,17 +496,25 @@ void NapSAT::prove_root_conflict_with_lazy_merging()
         stuck = true;
         continue;
       }
-      _proof->link_resolution(~lit, reason);
+      if (_proof)
+        _proof->link_resolution(~lit, reason);
+      premises.push_back(reason);
       for (unsigned j = 1; j < clause_size(reason); j++)
         lit_mark(clause_lits(reason)[j]);
       lit_unmark(lit);
     }
 
     if (!stuck) {
-      _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+      if (_proof)
+        _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+      for (size_t k = 0; _dependency_tracker && k < premises.size(); k++) {
+        const set<Tclause>& deps = _dependency_tracker->get_dependencies(premises[k]);
+        _refutation_dependencies.insert(deps.begin(), deps.end());
+      }
       return;
     }
-    _proof->cancel_resolution_chain();
+    if (_proof)
+      _proof->cancel_resolution_chain();
     for (Tlit lit : _trail)
       lit_unmark(lit);
   }
@@ -1310,6 +1327,8 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
+      if (_dependency_tracker)
+        _refutation_dependencies = _dependency_tracker->get_dependencies(id);
       return;
     }
     _lit_buffer_size = 0;
@@ -1345,7 +1364,7 @@ void NapSAT::graph_repair()
   if (possibilities.empty()) {
     // we cannot repair the conflicts
     _status = status::UNSAT;
-    if (_proof && _n_assumptions == 0)
+    if ((_proof || _dependency_tracker) && _n_assumptions == 0)
       prove_root_conflict_with_lazy_merging();
     return;
   }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index e344a92..b04e1d4 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1062,6 +1062,10 @@ public:
      * @details The dependency tracker is used to compute the UNSAT cores
      */
     napsat::proof::dependency_tracker* _dependency_tracker = nullptr;
+    /**
+     * @brief Input clauses on which the conclusion that the clause set is unsatisfiable depends. Only set if _dependency_tracker is not nullptr.
+     */
+    std::set<Tclause> _refutation_dependencies;
 
     /**  SMT SYNCHRONIZATION  **/
     /**
-- 
2.43.0


From 73ff3cb024639066d2142c5ebbf882f06b38ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 49/62] fix: a conflict caused by a clause of the user is
 repaired as cheaply as possible

---
 src/solver/NapSAT-clauses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 523f33f..89c5335 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -323,13 +323,13 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   if (lit_false(lits[0])) {
     ASSERT(check_clause_falsified(id));
     _conflicts.push_back(id);
+    _just_learned_from_user = true;
     if (_status == status::SAT)
       _status = status::UNKNOWN;
     if (!_options.graph_backtracking) {
       // except in graph backtracking, there is no reason to not handle the conflict eagerly
       // in GB, we want to select the best chunks at the end of the procedure.
       _lit_buffer_size = 0;
-      _just_learned_from_user = true;
       repair_conflicts();
     }
 
-- 
2.43.0


From 0f99e9925e54779a3524f24f24cb63f740134385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 50/62] fix: a suggested polarity is used the first time the
 variable is decided

---
 src/solver/NapSAT-imply.cpp | 1 +
 src/solver/NapSAT.cpp       | 3 ++-
 src/solver/NapSAT.hpp       | 8 ++++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 5db96b2..e6017a2 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -53,6 +53,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
   svar.propagated = false;
   svar.reason = reason;
   svar.phase_cache = lit.pol();
+  svar.suggested = false;
 
   // for the logic, look at the comment in NapSAT.hpp
 
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 41bb886..dad00ad 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -537,7 +537,8 @@ bool NapSAT::decide()
   // bool value = (rand() % 2) == 0;
   // Tlit lit = literal(var, value);
   // Tlit lit = literal(var, false);
-  Tlit lit = Tlit(var, _vars[var].synced);
+  const TSvar& svar = _vars[var];
+  Tlit lit = Tlit(var, svar.suggested ? svar.phase_cache : svar.synced);
   imply_literal(lit, CLAUSE_UNDEF);
   return true;
 }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index b04e1d4..4f67f33 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -481,6 +481,7 @@ namespace napsat
       Tvar var = lit.var();
       ASSERT(var < _vars.size());
       _vars[var].phase_cache = polarity ? 1 : 0;
+      _vars[var].suggested = true;
     }
 
     void set_weight_function(std::function<double(Tlit)> func) {
@@ -538,6 +539,7 @@ public:
         propagated(false),
         state(Tval::UNDEF),
         phase_cache(0),
+        suggested(0),
         synced(0),
         constrained(0),
         locked(0)
@@ -598,6 +600,12 @@ public:
        */
       unsigned phase_cache : 1;
 
+      /**
+       * @brief True if the phase cache was suggested by the user, and the variable has not been
+       * assigned since.
+       */
+      unsigned suggested : 1;
+
       /**
        * @brief Boolean indicating the polarity of the last synchronization.
        */
-- 
2.43.0


From 08544040a4321fd496156f3a68d7e6a001a8de24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 51/62] fix: a value that is not a number is outside the range
 of an option

---
 src/utils/options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index e4cdd96..e352762 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -170,7 +170,8 @@ namespace napsat
   {
     if (!_has_range)
       return;
-    if (_storage < _min || _storage > _max) {
+    // written such that a value that is not a number is out of range
+    if (!(_storage >= _min && _storage <= _max)) {
       if (_fatal) {
         LOG_ERROR(_name << " must be between " << _min << " and " << _max << ".");
         exit(1);
-- 
2.43.0


From 416c09259c131d577262a881fbe8359b24cc3489 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 52/62] fix: the rules between options come to rest for
 numeric, text and default-on options

---
 src/utils/options.cpp | 4 ++--
 src/utils/options.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index e352762..b4f76eb 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -265,7 +265,7 @@ namespace napsat
         if (!opt->truthy())
           continue;
         for (Option* loser : opt->get_subsumed()) {
-          if (loser->truthy()) {
+          if (loser->truthy() && !loser->truthy_by_default()) {
             LOG_WARNING(opt->get_name() << " subsumes " << loser->get_name() << ".");
             LOG_WARNING("The solver will run with " << opt->get_name() << ".");
             loser->reset_to_default();
@@ -274,7 +274,7 @@ namespace napsat
         }
       }
       for (Option* opt : _index_order) {
-        if (!opt->truthy())
+        if (!opt->truthy() || opt->truthy_by_default())
           continue;
         bool ok = true;
         for (const auto& [dep, expected] : opt->get_requirements()) {
diff --git a/src/utils/options.hpp b/src/utils/options.hpp
index 5766fe3..3d4a126 100644
--- a/src/utils/options.hpp
+++ b/src/utils/options.hpp
@@ -49,6 +49,9 @@ namespace napsat
     /** @brief Whether the option is currently in a state that should trigger subsumption/requirement checks. */
     virtual bool truthy() const = 0;
 
+    /** @brief Whether the option is still truthy after reset_to_default(), i.e., whether a reset cannot resolve anything. */
+    virtual bool truthy_by_default() const { return false; }
+
     virtual std::string type_name() const = 0;
     virtual std::string default_to_string() const = 0;
     virtual std::string current_to_string() const = 0;
@@ -78,6 +81,7 @@ namespace napsat
     bool consume(const std::vector<std::string>& tokens, unsigned& i) override;
     void reset_to_default() override { _storage = _default; }
     bool truthy() const override { return _storage; }
+    bool truthy_by_default() const override { return _default; }
     std::string type_name() const override { return "bool"; }
     std::string default_to_string() const override { return _default ? "on" : "off"; }
     std::string current_to_string() const override { return _storage ? "on" : "off"; }
@@ -94,7 +98,7 @@ namespace napsat
     /** @brief Restricts accepted values to [min, max]. If fatal, an out-of-range value aborts the program. */
     DoubleOption& range(double min, double max, bool fatal);
     bool consume(const std::vector<std::string>& tokens, unsigned& i) override;
-    void reset_to_default() override { _storage = _default; }
+    void reset_to_default() override { _storage = _default; _was_set = false; }
     bool truthy() const override { return _was_set; }
     std::string type_name() const override { return "double"; }
     std::string default_to_string() const override { return std::to_string(_default); }
@@ -115,7 +119,7 @@ namespace napsat
   public:
     StringOption(std::string name, std::string& storage, std::string brief, std::string category);
     bool consume(const std::vector<std::string>& tokens, unsigned& i) override;
-    void reset_to_default() override { _storage = _default; }
+    void reset_to_default() override { _storage = _default; _was_set = false; }
     bool truthy() const override { return _was_set; }
     std::string type_name() const override { return "string"; }
     std::string default_to_string() const override { return "\"" + _default + "\""; }
-- 
2.43.0


From d8983751dc61f69beda6b24397138ded140ff2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 53/62] fix: the usage line of the help names options that do
 not exist

---
 src/solver/SAT-options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 42a491f..52fa640 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -368,7 +368,7 @@ string napsat::options::get_help_text()
     "backtracking. The solver will print \"s SATISFIABLE\" if the problem has a solution, and "
     "\"s UNSATISFIABLE\" otherwise.\n\n"
     "By default, boolean options [on/off] are set [on] if the specification is omitted.\n\n"
-    "Usage: NapSAT <input_file/-h/-hs/-hn> [options]\n\n"
+    "Usage: NapSAT <input_file/-h/--help> [options]\n\n"
     "  -h  or --help                 Print this helper\n";
 
   options dummy;
-- 
2.43.0


From c7be157da6dc80d1262122197f4a3a56eb978ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 54/62] fix: the details of an unassigned variable under -gb
 asked for the cost of a literal without polarity

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b70e8a5..30d2111 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -691,7 +691,8 @@ std::string napsat::NapSAT::var_to_gui_info_string(Tvar var) const
   if (_options.graph_backtracking) {
     s += "γ: " + var_chunks(var).to_string() + "\n";
     s += "η: " + (var_cross_chunks(var) - var_chunks(var)).to_string() + "\n";
-    s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
+    if (!var_undef(var))
+      s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
   }
 
   for (unsigned pol = 0; pol < 2; pol++) {
-- 
2.43.0


From e61e039c91d4c331210b1bfee84b6a17eb74b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 55/62] fix: PRINT watch-lists read a binary watch list that
 does not exist while there are no variables

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 30d2111..b218820 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -967,7 +967,8 @@ void NapSAT::print_clause_set() const
 
 void NapSAT::print_watch_lists(Tlit lit) const
 {
-  Tlit i = 1;
+  // the literals 0 and 1 are not used, and have no binary watch list while there are no variables
+  Tlit i = 2;
   Tlit end = _watches.size();
   if (lit != LIT_UNDEF) {
     i = lit;
-- 
2.43.0


From ea4b614f676b9e08a8b2ecb1af458f70ad751cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 56/62] fix: DELETE_CLAUSE left the clause in the watch lists
 and deleted reasons

---
 src/solver/NapSAT-utils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b218820..b6c1713 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -1172,7 +1172,17 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("The clause " << cl << " is already deleted\n");
       return false;
     }
+    if (is_protected(cl)) {
+      LOG_WARNING("The clause " << cl << " is the reason of a literal. This command is ignored.");
+      return false;
+    }
+    if (_dependency_tracker && _clauses[cl].external) {
+      LOG_WARNING("The clause " << cl << " may be part of an UNSAT core. This command is ignored.");
+      return false;
+    }
     delete_clause(cl);
+    // the identifier of the clause may be given to another one
+    repair_watch_lists();
   }
   else if (tokens[0] == "HELP") {
     // print the content of the help file
-- 
2.43.0


From c48ebbe188c93afde934b1004b392de44bd7b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 57/62] fix: solvers in different threads shared the buffers of
 the graph repair

---
 src/solver/NapSAT-backtrack.cpp | 2 +-
 src/solver/NapSAT-conflict.cpp  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index 6529b91..ebb31d6 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -178,7 +178,7 @@ void NapSAT::backtrack(Tlevel level)
   }
 }
 
-static Tvar last_backtracked_decision = 0;
+static thread_local Tvar last_backtracked_decision = 0;
 
 void NapSAT::backtrack(const bitset& backtracked_chunks)
 {
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index c23d434..52b8fce 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1344,7 +1344,7 @@ void NapSAT::try_and_learn(Tlevel level, vector<pair<Tclause, vector<Tlit>>>& le
 
 void NapSAT::graph_repair()
 {
-  static vector<bitset> possibilities;
+  static thread_local vector<bitset> possibilities;
   possibilities.clear();
   _conflicts_chunks.clear();
   _conflicts_chunks.reserve(_conflicts.size());
@@ -1370,7 +1370,7 @@ void NapSAT::graph_repair()
   }
 
   // Calculate the highest chunk involved in conflicts
-  static vector<Tweight> weights;
+  static thread_local vector<Tweight> weights;
   weights.clear();
   weights.reserve(possibilities.size());
 
@@ -1378,8 +1378,8 @@ void NapSAT::graph_repair()
 
   setup_weights(possibilities, highest_level, weights);
 
-  static vector<Tclause> implying_conflicts;
-  static vector<pair<Tclause, vector<Tlit>>> learned_clauses;
+  static thread_local vector<Tclause> implying_conflicts;
+  static thread_local vector<pair<Tclause, vector<Tlit>>> learned_clauses;
   implying_conflicts.clear();
   learned_clauses.clear();
 
-- 
2.43.0


From 37db93464d0429ff7c03a3080ae45211caded7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 58/62] fix: PRINT TRAIL shows the missed implication of the
 chunk of a decision, not of the chunk numbered like its variable

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b6c1713..46f088d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -871,7 +871,7 @@ void NapSAT::print_trail() const
       cout << " (γ = " << lit_chunks(lit).to_string() << ", ";
       cout <<   "η = " << (lit_cross_chunks(lit) - lit_chunks(lit)).to_string();
       if (lit_decision(lit) && lit_lazy_reason(lit) != CLAUSE_UNDEF) {
-        cout << ", ξ = " << _chunks[lit.var()].missed_implication.to_string();
+        cout << ", ξ = " << _chunks[*lit_chunks(lit).cbegin()].missed_implication.to_string();
       }
       cout << ")";
     }
-- 
2.43.0


From ba9d3ea173b1cf3e9bdcea3ad2cff3e4ef02be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 59/62] fix: the exporter asked for a folder forever when the
 input had ended

---
 src/exporter/implication_graph_exporter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exporter/implication_graph_exporter.cpp b/src/exporter/implication_graph_exporter.cpp
index 6b01b9f..ca49719 100644
--- a/src/exporter/implication_graph_exporter.cpp
+++ b/src/exporter/implication_graph_exporter.cpp
@@ -37,7 +37,10 @@ void implication_graph_exporter::export_implication_graph(const std::string& fol
       }
     }
     cout << "Please provide a folder name to export the implication graph to: ";
-    getline(cin, actual_folder_name);
+    if (!getline(cin, actual_folder_name)) {
+      LOG_ERROR("Error: No folder name was provided. The implication graph is not exported.");
+      return;
+    }
     if (actual_folder_name.empty()) {
       cout << "Folder name cannot be empty. Please try again." << endl;
       continue;
-- 
2.43.0


From 98e5a7539071a20a00e0f573ba6605aa3d1576ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 60/62] fix: the notes of an export to a folder named with a
 closing slash linked to no vault

---
 src/exporter/implication_graph_exporter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exporter/implication_graph_exporter.cpp b/src/exporter/implication_graph_exporter.cpp
index ca49719..bc37f5a 100644
--- a/src/exporter/implication_graph_exporter.cpp
+++ b/src/exporter/implication_graph_exporter.cpp
@@ -115,7 +115,8 @@ void implication_graph_exporter::create_file_for_literal(const std::string& fold
 
   // replace the placeholder VAULT_PLACEHOLDER in the content with the actual folder name
   std::string content_with_links = content;
-  std::string vault_name = folder_name.substr(folder_name.find_last_of("/\\") + 1);
+  std::string vault_name = folder_name.substr(0, folder_name.find_last_not_of("/\\") + 1);
+  vault_name = vault_name.substr(vault_name.find_last_of("/\\") + 1);
 
   size_t pos = content_with_links.find(VAULT_PLACEHOLDER);
   while (pos != std::string::npos) {
-- 
2.43.0


From 93e4db3f3f4a6a3782aaa3d386981f5ae00bad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 61/62] fix: synchronize skipped literals that a reimplied
 decision had moved down the trail

---
 src/solver/NapSAT-imply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index e6017a2..ceeb649 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -454,6 +454,8 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
 
   // we need to shift all literals depending on the decision and with an order lower than the last literal in the reason.
   // this needs to be stable to maintain the relative order of the literals.
+  // the literals that were not synchronized yet may move below the limit of what is synchronized
+  _sync_validity_index = min(_sync_validity_index, decision_position);
   size_t read = decision_position + 1;
   size_t write = decision_position;
   to_move.push_back(decision);
-- 
2.43.0


From 69155cf41e43357e80ef1eb9e6c86148f065ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 62/62] fix: the counters of decisions, conflicts, implications
 and other core events were registered but never counted

---
 src/solver/NapSAT-backtrack.cpp | 1 +
 src/solver/NapSAT-clauses.cpp   | 2 ++
 src/solver/NapSAT-imply.cpp     | 2 ++
 src/solver/NapSAT-utils.cpp     | 1 +
 src/solver/NapSAT.cpp           | 3 +++
 src/solver/NapSAT.hpp           | 2 ++
 6 files changed, 11 insertions(+)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index ebb31d6..7bcd88f 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -27,6 +27,7 @@ void NapSAT::var_unassign(Tvar var)
 
   TSvar& v = _vars[var];
   NOTIFY(unassign, Tlit(var, v.state));
+  NOTIFY_STAT(unassignment);
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 89c5335..b146b36 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -262,6 +262,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   NOTIFY_STAT(new_clause);
 
   if (learned) {
+    NOTIFY_STAT(_n_clause_learned);
     NOTIFY_STAT_N(_a_learned_clause_size, clause.size);
   }
 
@@ -359,6 +360,7 @@ void napsat::NapSAT::delete_clause(Tclause cl)
   clause.watched = false;
   _deleted_clauses.push_back(cl);
   NOTIFY(delete_clause, cl);
+  NOTIFY_STAT(delete_clause);
   if(_proof)
     _proof->deactivate_clause(cl);
   if (_dependency_tracker)
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index ceeb649..ff31059 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -62,6 +62,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
     _decision_index.push_back(_trail.size() - 1);
     svar.level = solver_level();
     NOTIFY(assign, lit);
+    NOTIFY_STAT(decision);
     if (_options.graph_backtracking) {
       if (_free_chunks.empty()) {
         allocate_chunks(2 * _n_allocated_chunks);
@@ -108,6 +109,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
       }
     }
     NOTIFY(assign, lit, reason);
+    NOTIFY_STAT(implication);
   }
 
   if (svar.level == LEVEL_ROOT) {
diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 46f088d..19c72aa 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -361,6 +361,7 @@ void NapSAT::var_allocate(Tvar var)
     _vars[i].chunks.resize(_n_allocated_chunks);
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
     NOTIFY(add_variable, i);
+    NOTIFY_STAT(new_variable);
   }
 
   _watches.resize(2 * var.value + 2);
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index dad00ad..9dfdd64 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -388,10 +388,12 @@ bool NapSAT::propagate()
       _vars[lit.var()].propagated = true;
       _n_propagated_lits++;
       NOTIFY(propagate, lit);
+      NOTIFY_STAT(propagation);
     }
 
     if (!_conflicts.empty()) {
       _conflict_count++;
+      NOTIFY_STAT(conflict);
       repair_conflicts();
 
       if (_status == status::UNSAT) {
@@ -424,6 +426,7 @@ bool NapSAT::propagate()
 
 status NapSAT::solve()
 {
+  NOTIFY_STAT(done);
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
     ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 4f67f33..59adfe4 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1398,6 +1398,7 @@ public:
       ASSERT(!_vars[var].locked);
       _vars[var].locked = true;
       NOTIFY(lock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(lock_assumption);
       _n_assumptions++;
     }
     inline void lit_lock(Tlit lit) { var_lock(lit.var()); }
@@ -1406,6 +1407,7 @@ public:
       ASSERT(_vars[var].locked);
       _vars[var].locked = false;
       NOTIFY(unlock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(unlock_assumption);
       _n_assumptions--;
     }
     inline void lit_unlock(Tlit lit) { var_unlock(lit.var()); }
-- 
2.43.0

