From cce3530954712ce8754388b95ac5ae0becb57184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:24 +0000
Subject: [PATCH 01/38] fix: rebuild watches after variable elimination

Propagation inside processClauseDatabase kept using removed clauses, so a
variable that had been eliminated could be assigned (and materialized as a
unit) again. Model reconstruction then assigned it a second time with the
opposite value and the reported model falsified original clauses.
---
 src/candy/core/Solver.h                       | 1 +
 src/candy/systems/propagate/Propagate.h       | 2 +-
 src/candy/systems/propagate/StaticPropagate.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..5452c8c 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -259,6 +259,7 @@ private:
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
+                propagator.reset(); // stop propagating removed clauses: they still contain the eliminated variables
                 if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
             }
 
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From 4cf1645ad04f4bc27998b4746f889648fdda037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:51 +0000
Subject: [PATCH 02/38] fix: make variables known to the solver when they are
 first used in ipasir_assume

---
 src/candy/ipasir/ipasircandy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..ac3391c 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -80,6 +80,7 @@ public:
     void assume(int lit) {
         drop_analysis();
         nomodel = true;
+        while (problem.nVars() < (size_t)abs(lit)) problem.newVar(); // might be the first use of that variable
         assumptions.push_back(import(lit));
     }
 
-- 
2.43.0


From 8e9fbbb1a7727f270ab4cc921a8d17bb59dea3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:51 +0000
Subject: [PATCH 03/38] fix: undo variable elimination transitively and only
 for known variables

---
 src/candy/simplification/VariableElimination.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..bdf6183 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,15 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // clauses of a variable can contain variables which have been eliminated later
+        for (Cl& clause : std::vector<Cl>(correction_set)) {
+            for (Lit lit : clause) {
+                if (is_eliminated(lit.var())) {
+                    std::vector<Cl> cor = undo_elimination(lit.var());
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
@@ -133,7 +142,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return (size_t)v < eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 5ffb2bbf361f924168b4dcafbac286b63e65ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:51 +0000
Subject: [PATCH 04/38] fix: do not revive removed clauses when simplification
 starts again

---
 src/candy/simplification/SubsumptionClauseDatabase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/simplification/SubsumptionClauseDatabase.h b/src/candy/simplification/SubsumptionClauseDatabase.h
index 6d2d3f3..7f996b6 100644
--- a/src/candy/simplification/SubsumptionClauseDatabase.h
+++ b/src/candy/simplification/SubsumptionClauseDatabase.h
@@ -56,6 +56,7 @@ public:
             occurrences.resize(clause_db.nVars());
         }
         for (Clause* clause : clause_db) {
+            if (clause->isDeleted()) continue;
             SubsumptionClause* subsumption_clause = new (subsumption_clauses.allocate()) SubsumptionClause(clause);
             addToOccurenceLists(subsumption_clause);
         }
-- 
2.43.0


From 6df0cbc020695a863b499589a5bf5f8bb8ce1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:54 +0000
Subject: [PATCH 05/38] fix: release the buffer of the stream reader

---
 src/candy/utils/StreamBuffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..1bde0f8 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -46,6 +46,10 @@ public:
         check_refill_buffer();
     }
 
+    ~StreamBuffer() {
+        delete[] buffer;
+    }
+
     void skipLine();
     void skipWhitespace();
     void skipString(const char* str);
-- 
2.43.0


From f503a741dcadd026598314e8260d701b8a4509a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:54 +0000
Subject: [PATCH 06/38] fix: let the proof checker handle unit conflicts, pure
 pivots, repeated literals and new variables

---
 src/candy/core/DRATChecker.cc | 26 ++++++++++++++++++++++----
 src/candy/core/DRATChecker.h  |  2 ++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..bf5b429 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
@@ -89,6 +89,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
             // std::cout << "c *** Checking Delete: " << lits << " *** " << std::endl;
+            normalize(lits);
             check_clause_remove(lits.begin(), lits.end());
         }
         else {
@@ -97,6 +98,7 @@ bool DRATChecker::check_proof(gzFile input_stream) {
                 lits.push_back(Lit(abs(plit)-1, plit < 0));
             }
             // std::cout << "c *** Checking Learned: " << lits << " *** " << std::endl;
+            normalize(lits);
             if (!check_clause_add(lits.begin(), lits.end())) {
                 return false;
             }
@@ -106,6 +108,20 @@ bool DRATChecker::check_proof(gzFile input_stream) {
     return clause_db.hasEmptyClause();
 }
 
+// proofs can contain repeated literals and variables which do not occur in the formula
+void DRATChecker::normalize(Cl& lits) {
+    std::sort(lits.begin(), lits.end());
+    lits.erase(std::unique(lits.begin(), lits.end()), lits.end());
+    if (!lits.empty() && lits.back().var() >= (Var)clause_db.nVars()) {
+        CNFProblem variables;
+        while (lits.back().var() >= (Var)variables.nVars()) variables.newVar();
+        clause_db.init(variables);
+        trail.init(clause_db.nVars());
+        propagator.reset();
+        occurences.resize(2 * clause_db.nVars());
+    }
+}
+
 template <typename Iterator>
 bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
     if (clause_db.hasEmptyClause()) return true;
@@ -125,13 +141,15 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
-    // check if clause is asymmetric tautology
+    // check if clause is asymmetric tautology (backtracking undoes everything but the facts)
+    trail.newDecisionLevel();
     bool conflict = check_asymm(begin, end, lit_Undef);
         
     // check if clause is resolution asymmetric tautology
     unsigned int level = trail.decisionLevel();
     for (auto it = begin; !conflict && it != end; it++) {
         Lit pivot = *it;
+        conflict = true;
         for (Clause* clause : occurences[~pivot]) if (!clause->isDeleted()) {
             conflict = check_asymm(clause->begin(), clause->end(), ~pivot);
             trail.backtrack(level);
@@ -161,7 +179,7 @@ bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
     if (size > 1) {
         for (Clause* clause : occurences[*begin]) {
-            if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
+            if (!clause->isDeleted() && size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
                     propagator.detachClause(clause);
diff --git a/src/candy/core/DRATChecker.h b/src/candy/core/DRATChecker.h
index 7ccde4e..bbdbe8a 100644
--- a/src/candy/core/DRATChecker.h
+++ b/src/candy/core/DRATChecker.h
@@ -53,6 +53,8 @@ public:
 private:
     bool check_proof(gzFile input_stream);
 
+    void normalize(Cl& lits);
+
     template <typename Iterator>
     bool check_clause_add(Iterator begin, Iterator end);
 
-- 
2.43.0


From bd4a1df96fd3030f2693ef94537ea7174c474c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:44 +0000
Subject: [PATCH 07/38] fix: reject malformed or unreadable input and read
 across buffer boundaries correctly

---
 src/candy/utils/StreamBuffer.cc | 18 ++++++++++++++----
 src/candy/utils/StreamBuffer.h  |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..250470d 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -54,6 +54,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // numbers might be distributed over several lines
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -62,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int>::max() || number < -std::numeric_limits<int>::max()) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
@@ -74,6 +75,7 @@ namespace Candy {
             incPos(static_cast<intptr_t>(end - str));
             return static_cast<int>(number);
         }
+        throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
     }
 
     void StreamBuffer::check_refill_buffer() {
@@ -82,15 +84,23 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int nbytes = gzread(in, buffer + offset, buffer_size - offset);
+            int error = Z_OK;
+            gzerror(in, &error);
+            if (nbytes < 0 || (error != Z_OK && error != Z_STREAM_END)) {
+                throw ParserException(std::string("PARSE ERROR! Could not read input"));
+            }
+            size = offset + nbytes;
             offset = 0;
+            buffer[size] = '\0'; // numbers end here
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) offset = 0; // no whitespace at all
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 1bde0f8..d496f29 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1];
         check_refill_buffer();
     }
 
-- 
2.43.0


From 8011b7803905da6a919cf23e482b5c24d0953561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 08/38] fix: rename variables consistently in
 normalizeVariableNames

The lookup compared against -1, but an unknown key of the map yields 0, so every variable was
renamed to 0 and the problem claimed to have no variables. Semantic gate checks therefore
judged a different formula.
---
 src/candy/core/CNFProblem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/candy/core/CNFProblem.cc b/src/candy/core/CNFProblem.cc
index 34f5b01..3a8ca8f 100644
--- a/src/candy/core/CNFProblem.cc
+++ b/src/candy/core/CNFProblem.cc
@@ -154,12 +154,12 @@ bool CNFProblem::checkResult(CandySolverResult& result) {
  * */
 void CNFProblem::normalizeVariableNames() {
     std::unordered_map<Var, Var> name;
-    //name.resize(variables, -1);
     unsigned int max = 0;
     for (Cl* clause : problem) {
         for (Lit& lit : *clause) {
-            if (name[lit.var()] == -1) name[lit.var()] = max++;
-            lit = Lit(name[lit.var()], lit.sign());
+            auto entry = name.find(lit.var());
+            if (entry == name.end()) entry = name.emplace(lit.var(), max++).first;
+            lit = Lit(entry->second, lit.sign());
         }
     }
     variables = max;
-- 
2.43.0


From fdf47b8097a8483e5235aabe38b5528ee6df6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 09/38] fix: keep empty clauses in the remainder of gate
 analysis

---
 src/candy/gates/GateAnalyzer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..df7e5a5 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -111,6 +111,9 @@ void GateAnalyzer::analyze() {
         remainder.insert(index[lit].begin(), index[lit].end());
     }
     gate_problem.remainder.insert(gate_problem.remainder.end(), remainder.begin(), remainder.end());
+    for (Cl* clause : problem) { // empty clauses are not in the index
+        if (clause->empty()) gate_problem.remainder.push_back(clause);
+    }
 
     runtime.stop();
 }
-- 
2.43.0


From 678fbbca5ffad7464bee28e0bbd04ee9be8be23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:22 +0000
Subject: [PATCH 10/38] fix: number AIG variables consistently and support
 gates used in both polarities

Variable 0 collided with the AIG constant, the maximum index in the header
was too small, gates referenced in both polarities wrote past the end of the
index table, and empty conjunctions were not represented.
---
 src/candy/gates/AIGProblem.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..3066a8b 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -67,7 +67,7 @@ public:
         if (problem.hasArtificialRoot()) {
             var_count++;
         }
-        visited.resize(2 * var_count, false);
+        visited.resize(var_count, false);
         literals.push_back(problem.getRoot());
     }
 
@@ -87,7 +87,7 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit) + 2); // variable 0 is reserved for constants
         }
     }
 
@@ -133,7 +133,7 @@ private:
                 conj.push_back(clause->front());
             } 
             else {
-                Lit out = Lit(++var_count);
+                Lit out = Lit(var_count++);
                 conj.push_back(out);
 
                 Cl inverted;
@@ -152,21 +152,22 @@ private:
             Lit lit = literals.back();
             literals.pop_back();
 
-            if (!visited[lit]) {
-                visited[lit] = true;
+            if (!visited[lit.var()]) {
+                visited[lit.var()] = true;
 
                 if (problem[lit.var()].isDefined()) { 
                     For& clauses = (For&)problem[lit.var()].fwd;
+                    Lit output = problem[lit.var()].out; // can be referenced in both polarities
 
                     // strip output-literal from clauses
                     For list;
                     for (Cl* clause : clauses) {
                         Cl* cl = new Cl(clause->size()-1);
-                        remove_copy(clause->begin(), clause->end(), cl->begin(), ~lit);
+                        remove_copy(clause->begin(), clause->end(), cl->begin(), ~output);
                         list.push_back(cl);
                     }
 
-                    createAndFromClauses(list, lit);
+                    createAndFromClauses(list, output);
 
                     for (Cl* c : list) delete c;
                 }
@@ -184,7 +185,7 @@ private:
             Cl rights { conj.begin() + pivot, conj.end() };
             Lit left = convertNaryRecursive(lefts);
             Lit right = convertNaryRecursive(rights);
-            Lit output = Lit(++var_count);
+            Lit output = Lit(var_count++);
             ands.emplace_back(output, left, right);
             return output;
         }
@@ -193,7 +194,7 @@ private:
     void convertNaryAndsToBinaryAnds() {
         for (AndGate a : pands) {
             if (a.conj.size() == 0) {
-                fprintf(stderr, "Warning: Conjunction Size is Zero at %i\n ", (int)a.output);
+                ands.emplace_back(a.output, lit_Undef, lit_Undef);
             }
             else if (a.conj.size() == 1) {
                 ands.emplace_back(a.output, a.conj.front(), lit_Undef);
-- 
2.43.0


From f5b2e2073cf488c3029bf14388e5d390653bb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:22 +0000
Subject: [PATCH 11/38] fix: encode the cardinality bound of minimum-model
 search correctly

Counter variables collided with variables of the problem, the carry input was
counted twice, the bound was not strict and assumptions of the previous round
were left behind.
---
 src/candy/minimizer/Minimizer.cc | 2 ++
 src/candy/minimizer/Minimizer.h  | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..72b9237 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -141,9 +141,11 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
             variables.push_back(Lit(v, false));
+            counter.newVar(); // keep the variables of the counter apart
         }
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        solver->getAssignment().setAssumptions(Cl()); // smaller models need not be subsets
         satisfiable = l_True;
         while (satisfiable == l_True) {
             lessthan.clear();
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..978c320 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -83,9 +83,10 @@ private:
           return outputs;
         }
 
-        Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
         Lit carry = inputs.back();
+        inputs.pop_back();
+        Cl a_inputs { inputs.begin(), inputs.begin() + (inputs.size() + 1) / 2 };
+        Cl b_inputs { inputs.begin() + (inputs.size() + 1) / 2, inputs.end() };
         
         Cl a_outputs = genParCounter(out, a_inputs);
         Cl b_outputs = genParCounter(out, b_inputs);
@@ -117,6 +118,7 @@ private:
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
         For lessthan;
+        lessthan.push_back(new Cl()); // equal is not less
         
         // comparator circuit
         for (unsigned int i = 0; i < outputs.size(); i++) {
@@ -132,7 +134,8 @@ private:
             k >>= 1;
         }
 
-        out.readClauses(lessthan);
+        if (k == 0) out.readClauses(lessthan); // otherwise any number with that many bits is less
+        for (Cl* clause : lessthan) delete clause;
     }
 
 public:
-- 
2.43.0


From d51e6ca4c06052340db5a051305981946b3ddd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:44 +0000
Subject: [PATCH 12/38] fix: simulate monotonic gates by their forward clauses,
 honour gate filters and alternate randomizations

The condition that picks the clauses was inverted, so gates without backward
clauses got a constant value; the non-recursive clause order ignored its gate
filter's outputs and thus dropped every gate; alternateRandomizations never
used its second randomization.
---
 src/candy/randomsimulation/ClauseOrder.cc   | 4 +++-
 src/candy/randomsimulation/Randomization.cc | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..15b17e5 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -165,7 +165,7 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
-        if (gate.hasNonMonotonicParent()
+        if (!gate.hasNonMonotonicParent()
             || gate.fwd.size() <= gate.bwd.size()) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
@@ -336,6 +336,8 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
+
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
diff --git a/src/candy/randomsimulation/Randomization.cc b/src/candy/randomsimulation/Randomization.cc
index 2e6e84e..a4ffefe 100644
--- a/src/candy/randomsimulation/Randomization.cc
+++ b/src/candy/randomsimulation/Randomization.cc
@@ -258,6 +258,7 @@ namespace Candy {
         else {
             m_randomizationB->randomize(simVectors, indices);
         }
+        ++m_invocations;
     }
     
     
-- 
2.43.0


From 6398e3507f050828016beb71965eb5df0b530fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 13/38] fix: visit each gate once in the recursive clause order

A gate that occurs in several root clauses was listed repeatedly, and its
conjectures repeated the literal.
---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 15b17e5..532f9c7 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -236,7 +236,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From b9721a1a3a1e236b73a33282adc1d4fd2354f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:21 +0000
Subject: [PATCH 14/38] fix: make abstraction refinement usable without a
 heuristic configuration and fall back to plain solving

---
 src/candy/Main.cc                  |  2 +-
 src/candy/frontend/SolverFactory.h | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..3f07eae 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -228,7 +228,7 @@ int main(int argc, char** argv) {
         if (RSAROptions::opt_rsar_enable) {
             solver = createRSARSolver(problem);
         }
-        else {
+        if (solver == nullptr) { // also if abstraction refinement is not applicable
             solver = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
         }
         solvers.push_back(solver); 
diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..624dea8 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -58,17 +58,17 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	}
 
 	if (initializationComleted) {
-		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
+		const std::string heuristicsConf { RSAROptions::opt_rsar_inputDepCountHeurConf };
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
-			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
-			if (limits.size() == 0) {
-				throw std::invalid_argument("invalid limits");
-			}
-			refinementHeuristics = createInputDepCountRefinementHeuristic(analyzer, limits);
+		if (heuristicsConf.empty()) {
+			return new ARSolver(std::move(conjectures)); 
 		}
 
-		return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
+		std::vector<size_t> limits = tokenizeByWhitespace<size_t>(heuristicsConf); 
+		if (limits.size() == 0) {
+			throw std::invalid_argument("invalid limits");
+		}
+		return new ARSolver(std::move(conjectures), createInputDepCountRefinementHeuristic(analyzer, limits)); 
 	}
 	else {
 		return nullptr;
-- 
2.43.0


From 3596d344ccc0843726a2cbdb728d8b33deddfb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 15/38] fix: refuse option values outside their documented
 range and malformed numbers

---
 src/candy/frontend/CLIOptions.cc |  2 +-
 src/candy/utils/Options.h        | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..7f50d93 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -150,8 +150,10 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                bool above_begin = range.begin_inclusive ? tmp >= range.begin : tmp > range.begin;
+                bool below_end = range.end_inclusive ? tmp <= range.end : tmp < range.end;
+                if (!above_begin || !below_end) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -207,10 +209,10 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            long tmp = strtol(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -279,8 +281,8 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 8f24d806340da6bde27782de7becf15086f2b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:38 +0000
Subject: [PATCH 16/38] fix: compute the number of remaining arguments from the
 loop counter

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From 7ab0abcb4a12dd3b36b2f9a981770f69cc214e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 17/38] fix: print the solver type as a comment line

---
 src/candy/frontend/CandyBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
-- 
2.43.0


From 8cb9602da48403498381c252b8bac8e6409e010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:32 +0000
Subject: [PATCH 18/38] fix: parallel mode publishes solver and result together
 and leaves running threads alone

The main thread could see the result of a solver thread before (or without)
the solver that found it and print no values for a satisfiable problem, print
INDETERMINATE and then exit with 10 or 20, or read the list of solvers while it
is extended.  Returning from main while solver threads are running ended in
std::terminate (-test-model, -test-proof).
---
 src/candy/Main.cc | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 3f07eae..c229353 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <mutex>
+#include <atomic>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -71,7 +73,7 @@ using namespace Candy;
 
 static std::vector<CandySolverInterface*> solvers;
 
-static bool interrupted = false;
+static std::atomic<bool> interrupted { false };
 static unsigned int start_time = 0;
 static int interrupted_callback(void* state) {
     if (SolverOptions::time_limit > 0) {
@@ -155,6 +157,17 @@ static void printGateStatistics(CNFProblem& problem) {
     
 CandySolverInterface* solver = nullptr;
 lbool result = l_Undef;
+static std::mutex shared_mutex; // protects solvers, solver and result while solver threads are running
+
+static bool hasResult() {
+    std::lock_guard<std::mutex> lock(shared_mutex);
+    return result != l_Undef;
+}
+
+static size_t nInitializedSolvers() {
+    std::lock_guard<std::mutex> lock(shared_mutex);
+    return solvers.size();
+}
 
 static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFProblem& problem, ClauseAllocator*& global_allocator) {
     std::cout << "c Sort Variables: " << SolverOptions::opt_sort_variables << std::endl;
@@ -169,12 +182,16 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
         global_allocator = solver_->setupGlobalAllocator();
     }
 
-    solvers.push_back(solver_);
+    {
+        std::lock_guard<std::mutex> lock(shared_mutex);
+        solvers.push_back(solver_);
+    }
     solver_->setTermCallback(solver_, interrupted_callback);
 
     lbool result_ = solver_->solve();
 
-    if (result == l_Undef) {
+    std::lock_guard<std::mutex> lock(shared_mutex);
+    if (result == l_Undef && result_ != l_Undef) {
         result = result_;
         solver = solver_;
     }
@@ -245,7 +262,7 @@ int main(int argc, char** argv) {
             std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
-        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
+        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -302,17 +319,20 @@ int main(int argc, char** argv) {
             do { 
                 // wait till solver is initialized (and wait a bit longer)
                 std::this_thread::sleep_for(std::chrono::milliseconds(ParallelOptions::opt_thread_initialization_delay)); 
-            } while (solvers.size() <= count);
+            } while (nInitializedSolvers() <= count);
         }
 
         installSignalHandlers(true);
         // problem.clear();
-        while (result == l_Undef && !interrupted) {
+        while (!hasResult() && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
         installSignalHandlers(false);
     }
 
+    // the answer is final: solver threads that finish later do not get to change it
+    std::unique_lock<std::mutex> final_answer(shared_mutex);
+
     printf(result == l_True ? "s SATISFIABLE\n" : result == l_False ? "s UNSATISFIABLE\n" : "s INDETERMINATE\n");
 
     if (solver != nullptr) {
@@ -358,12 +378,12 @@ int main(int argc, char** argv) {
             if (satisfied) {
                 std::cout << "c Result verified by model checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0); // solver threads may still be running
             }
             else {
                 std::cout << "c Result could not be verified by model checker" << std::endl;
                 assert(satisfied);
-                return 1;
+                exit(1);
             }
         }
         else if (TestingOptions::test_proof && result == l_False) {
@@ -375,12 +395,12 @@ int main(int argc, char** argv) {
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0); // solver threads may still be running
             }
             else {
                 std::cout << "c Result could not be verified by proof checker" << std::endl;
                 assert(proved);
-                return 1;
+                exit(1);
             }
         }
     }
-- 
2.43.0


From 85c0426ee7cdc189599de9ecd27f5d2f17c11a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 19/38] fix: computeLBD counts levels beyond the number of
 variables (repeated assumptions)

---
 src/candy/core/Trail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..7422a39 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -300,6 +300,7 @@ public:
     inline uint_fast16_t computeLBD(Iterator it, Iterator end) {
         // TODO: exclude selectors from lbd computation
         uint_fast16_t nblevels = 0;
+        stamp.grow(decisionLevel() + 1); // repeated assumptions: there can be more levels than variables
         stamp.clear();
 
         for (; it != end; it++) {
-- 
2.43.0


From ba2a1bd5c84a631dfe74b94d619a41d6a2a75a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 20/38] fix: extra bump iterates the literals of the current
 decision level

---
 src/candy/systems/branching/VSIDS.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..e587279 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From 3ca035cb10c3bde249c7a1f1926c89411c84dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 21/38] fix: VSIDSC handles variables added after the
 centrality was computed

---
 src/candy/systems/branching/VSIDSC.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..fe30fc4 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,8 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        size_t node = (size_t)graph.mapNode(v.id); // variables that came later have no centrality yet
+                        if (node < centrality.size()) bumpFactor = var_inc * (1 + (centrality[node] * centralityFactor));
                 }
                 varBumpActivity(v, bumpFactor);
         }
@@ -261,7 +262,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From 177fef30dadff184d75539e93745e207ede57282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 22/38] fix: clauses with 65536 and more literals

---
 src/candy/core/clauses/Clause.h                | 6 +++---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 3 ++-
 src/candy/simplification/SubsumptionClause.h   | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 0db4d43..c5437d0 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -219,7 +219,8 @@ public:
 
     inline void* allocate(size_t length) {
         if (pages.size() == 0 || !pages.back().hasMemory(length)) { 
-            pages.emplace_back(default_page_size); 
+            size_t needed = sizeof(Clause) + sizeof(Lit) * length; // a single clause might exceed the default size
+            pages.emplace_back(std::max((size_t)default_page_size, needed)); 
         }
         return pages.back().allocate(length);
     }
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From 0c38c37569474a8fb3d399e628f8b61d03d923a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 23/38] fix: string options longer than 255 characters

---
 src/candy/utils/Options.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 7f50d93..faa94d1 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -326,12 +326,14 @@ class StringOption : public Option {
     char pattern[100]; 
     unsigned int len;
     char* value;
+    size_t capacity;
 
  public:
     StringOption(const char* c, const char* n, const char* d, const char* def = "", const bool disabled_ = false) 
         : Option(n, d, c, "<string>", disabled_) {
             len = sprintf(pattern, "-%s=", name);
-            value = new char[256];
+            capacity = 256;
+            value = new char[capacity];
             set(def);
         }
 
@@ -350,8 +352,12 @@ class StringOption : public Option {
     }
 
     void set(const char* val) {
-        // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        size_t size = strlen(val) + 1;
+        if (size > capacity) { // paths can be long
+            capacity = size;
+            value = new char[capacity]; // the old value might still be referenced
+        }
+        memmove(value, val, size);
     }
 
     char* get() {
-- 
2.43.0


From c561a02377aaa42c78b1dd24eb7fb2145b7136a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 24/38] fix: Solver::clear forgets eliminated variables

---
 src/candy/core/Solver.h                        | 1 +
 src/candy/simplification/VariableElimination.h | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 5452c8c..718b2af 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -323,6 +323,7 @@ void Solver<TPropagate, TLearning, TBranching>::clear() {
     trail.clear();
     propagator.clear();
     branch.clear();
+    elimination.clear();
 }
 
 template<class TPropagate, class TLearning, class TBranching>
diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index bdf6183..e994861 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -92,6 +92,13 @@ public:
         nEliminated(0)
     { }
 
+    void clear() {
+        eliminiated_variables.clear();
+        eliminated_clauses.clear();
+        frozen.clear();
+        nEliminated = 0;
+    }
+
     std::vector<Cl> reset() {
         std::vector<Cl> correction_set;
 
-- 
2.43.0


From 10181cf01b70b583d837c2eaa425718924515386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 25/38] fix: a termination callback can be removed again

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 718b2af..5b6c228 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From 57565b34753cc0f4a91f6bab07a019e3aacd9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:14 +0000
Subject: [PATCH 26/38] fix: equivalence conjectures no longer built on
 systematic hash collisions

---
 src/candy/randomsimulation/Partition.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..9064afa 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -32,7 +32,6 @@
 #include <unordered_map>
 #include <cstdint>
 
-#include <candy/utils/FastRand.h>
 #include <candy/utils/MemUtils.h>
 
 #include "SimulationVector.h"
@@ -42,6 +41,16 @@
 #define FASTVARIABLEPARTITIONING_VARID_SIZE_BITS 28
 
 namespace Candy {
+    /* Hash step for the group ids. This must not be fastNextRand: the simulation vectors of the
+     input variables consist of successive outputs of fastNextRand, so that hashing them with
+     fastNextRand systematically yields collisions (e.g. fastNextRand(x_0) ^ x_1 == 0). */
+    static inline std::uint64_t nextGroupId(std::uint64_t groupId, std::uint64_t simVecItem) {
+        std::uint64_t result = (groupId ^ simVecItem) + 0x9e3779b97f4a7c15ull;
+        result = (result ^ (result >> 30)) * 0xbf58476d1ce4e5b9ull;
+        result = (result ^ (result >> 27)) * 0x94d049bb133111ebull;
+        return result ^ (result >> 31);
+    }
+
     Partition::Partition() {
         
     }
@@ -235,7 +244,7 @@ namespace Candy {
     void DefaultPartition::initializePartitionEntry(size_t index, const SimulationVectors &varAssignments) {
         
         PartitionEntry partitionEntry;
-        partitionEntry.groupId = fastNextRand(varAssignments.getConst(index).vars[0]);
+        partitionEntry.groupId = nextGroupId(0, varAssignments.getConst(index).vars[0]);
         partitionEntry.varId = index;
         partitionEntry.backbone = 1;
         partitionEntry.polarity = 1;
@@ -246,7 +255,7 @@ namespace Candy {
         partitionEntry.backbone = 0;
         partitionEntry.polarity = 0;
         partitionEntry.groupId =
-          fastNextRand(~(varAssignments.getConst(index).vars[0]));
+          nextGroupId(0, ~(varAssignments.getConst(index).vars[0]));
         m_partitioningNeg.push_back(partitionEntry);
     }
     
@@ -260,7 +269,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                  nextGroupId(partitionEntry.groupId, simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -284,7 +293,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                  nextGroupId(partitionEntry.groupId, ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From 298fdb650bae5f3787de5f148b9541c68fb8f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 27/38] fix: a cleared solver forgets the conjectures of the
 previous formula

---
 src/candy/systems/branching/rsil/BranchingHeuristics.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/candy/systems/branching/rsil/BranchingHeuristics.h b/src/candy/systems/branching/rsil/BranchingHeuristics.h
index 655a2bb..40aaf87 100644
--- a/src/candy/systems/branching/rsil/BranchingHeuristics.h
+++ b/src/candy/systems/branching/rsil/BranchingHeuristics.h
@@ -93,6 +93,11 @@ namespace Candy {
 
         void clear() {
             defaultBranchingHeuristic.clear();
+            // the conjectures are about the variables of the problem that is left behind
+            conjectures.reset();
+            m_advice = ImplicitLearningAdvice<AdviceType>();
+            initializationCompleted = false;
+            blockInitialization = false;
         }
 
     	virtual void init(const CNFProblem& problem) {
-- 
2.43.0


From ec89c1392ff3d4e81acadb7eba60053bd975b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 28/38] fix: solver threads share the start time of the time
 limit safely

---
 src/candy/Main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index c229353..44dda34 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -74,7 +74,7 @@ using namespace Candy;
 static std::vector<CandySolverInterface*> solvers;
 
 static std::atomic<bool> interrupted { false };
-static unsigned int start_time = 0;
+static std::atomic<unsigned int> start_time { 0 };
 static int interrupted_callback(void* state) {
     if (SolverOptions::time_limit > 0) {
         if (start_time == 0) {
-- 
2.43.0


From 080bdb5ff0a8e92d88ebab69b0fc0bcbbb18be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 29/38] fix: gate analysis and minimisation leave the global
 solver options alone

---
 src/candy/core/CandySolverInterface.h | 3 +++
 src/candy/core/Solver.h               | 5 +++++
 src/candy/gates/GateAnalyzer.cc       | 3 +--
 src/candy/minimizer/Minimizer.cc      | 4 +---
 src/candy/rsar/ARSolver.h             | 4 ++++
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/CandySolverInterface.h b/src/candy/core/CandySolverInterface.h
index 08b95ab..b61cb9b 100644
--- a/src/candy/core/CandySolverInterface.h
+++ b/src/candy/core/CandySolverInterface.h
@@ -55,6 +55,9 @@ public:
 
 	virtual CandySolverResult& getCandySolverResult() = 0;
 
+	// this solver neither pre- nor inprocesses, whatever the options say
+	virtual void disableSimplification() { }
+
 	virtual void setTermCallback(void* state, int (*termCallback)(void* state)) = 0;
 	virtual void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) = 0;
 
diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 5b6c228..b43eb97 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -141,6 +141,11 @@ public:
 
     void printStats();
 
+    void disableSimplification() override {
+        this->preprocessing_enabled = false;
+        this->inprocessingFrequency = 0;
+    }
+
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index df7e5a5..62a83ef 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -45,9 +45,8 @@ GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod met
     }
 
     if (useSemantic || useHolistic) {
-        SolverOptions::opt_sort_variables = false;
-        SolverOptions::opt_preprocessing = false;
         solver = createSolver(); 
+        solver->disableSimplification();
     }
 }
 
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index 72b9237..09d85de 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -34,10 +34,8 @@ namespace Candy {
  * Maximize the number of don't cares in the given model relative to the given projection
  */
 Minimizer::Minimizer(CNFProblem& _problem, CandySolverResult& _model) : problem(_problem), model(_model) { 
-    SolverOptions::opt_preprocessing = false;
-    SolverOptions::opt_inprocessing = 0;
-    SolverOptions::opt_sort_variables = false;
     solver = createSolver();
+    solver->disableSimplification();
  }
 
 Minimizer::~Minimizer() { 
diff --git a/src/candy/rsar/ARSolver.h b/src/candy/rsar/ARSolver.h
index 56fdaa0..8f42463 100644
--- a/src/candy/rsar/ARSolver.h
+++ b/src/candy/rsar/ARSolver.h
@@ -80,6 +80,10 @@ namespace Candy {
             m_solver->setLearntCallback(state, max_length, learntCallback);
         }
 
+        void disableSimplification() override {
+            m_solver->disableSimplification();
+        }
+
         virtual void setTermCallback(void* state, int (*termCallback)(void*)) override {
             m_solver->setTermCallback(state, termCallback);
         }
-- 
2.43.0


From d06b0282d23ff14c244041e0134723f3e4e2dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 30/38] fix: each solver thread writes its own proof, the one
 of the answer is kept

---
 src/candy/Main.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 44dda34..119e410 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -157,7 +157,8 @@ static void printGateStatistics(CNFProblem& problem) {
     
 CandySolverInterface* solver = nullptr;
 lbool result = l_Undef;
-static std::mutex shared_mutex; // protects solvers, solver and result while solver threads are running
+static std::string certified_file; // proof written by the solver that gave the result
+static std::mutex shared_mutex; // protects solvers, solver, result and certified_file while solver threads are running
 
 static bool hasResult() {
     std::lock_guard<std::mutex> lock(shared_mutex);
@@ -174,6 +175,7 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
     std::cout << "c Preprocessing: " << SolverOptions::opt_preprocessing << std::endl;
     std::cout << "c Inprocessing: " << SolverOptions::opt_inprocessing << std::endl;
 
+    std::string certified_file_ { SolverOptions::opt_certified_file };
     CandySolverInterface* solver_ = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable);
 
     solver_->init(problem, global_allocator);
@@ -194,6 +196,7 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
     if (result == l_Undef && result_ != l_Undef) {
         result = result_;
         solver = solver_;
+        certified_file = certified_file_;
     }
 }
 
@@ -240,6 +243,8 @@ int main(int argc, char** argv) {
 
     ClauseAllocator* global_allocator = nullptr;
     std::vector<std::thread> threads;
+    std::string proof_file { SolverOptions::opt_certified_file };
+    std::vector<std::string> thread_proof_files;
 
     if (ParallelOptions::opt_threads == 1) {
         if (RSAROptions::opt_rsar_enable) {
@@ -263,6 +268,10 @@ int main(int argc, char** argv) {
             exit(0);
         }
         for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
+            if (!proof_file.empty()) { // each solver writes its own proof
+                thread_proof_files.push_back(proof_file + "." + std::to_string(count));
+                SolverOptions::opt_certified_file = thread_proof_files.back().c_str();
+            }
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -333,6 +342,16 @@ int main(int argc, char** argv) {
     // the answer is final: solver threads that finish later do not get to change it
     std::unique_lock<std::mutex> final_answer(shared_mutex);
 
+    if (!thread_proof_files.empty()) { // keep the proof that belongs to the answer
+        if (!certified_file.empty()) {
+            std::rename(certified_file.c_str(), proof_file.c_str());
+        }
+        for (std::string& file : thread_proof_files) {
+            std::remove(file.c_str());
+        }
+        SolverOptions::opt_certified_file = proof_file.c_str();
+    }
+
     printf(result == l_True ? "s SATISFIABLE\n" : result == l_False ? "s UNSATISFIABLE\n" : "s INDETERMINATE\n");
 
     if (solver != nullptr) {
-- 
2.43.0


From 9ecba6a05d5fbed4e8ca18772174ab9a14434832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 31/38] fix: build the implicit learning heuristic that
 rsil-mode names

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From 7f48d6856aed9629ea41a28df64be10185f6e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 32/38] fix: refuse malformed values of rsil-mode and
 rsar-heur-idc instead of aborting

---
 src/candy/Main.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 119e410..6fe3f4b 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -52,6 +52,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
+#include "candy/utils/StringUtils.h"
 
 #include "candy/core/CNFProblem.h"
 #include "candy/core/CandySolverInterface.h"
@@ -118,6 +119,23 @@ static void installSignalHandlers(bool handleInterruptsBySolver) {
 #endif
 }
 
+// options whose values are not restricted by their type
+static void checkStringOptions() {
+    std::string mode { RSILOptions::opt_rsil_mode };
+    if (mode != "unrestricted" && mode != "vanishing" && mode != "implicationbudgeted") {
+        fprintf(stderr, "ERROR! value <%s> is out of range for option \"rsil-mode\".\n", mode.c_str());
+        exit(1);
+    }
+    std::string limits { RSAROptions::opt_rsar_inputDepCountHeurConf };
+    if (!limits.empty()) {
+        size_t nLimits = tokenizeByWhitespace<size_t>(limits).size();
+        if (limits.find_first_not_of("0123456789 ") != std::string::npos || nLimits == 0 || nLimits != tokenizeByWhitespace<std::string>(limits).size()) {
+            fprintf(stderr, "ERROR! value <%s> is out of range for option \"rsar-heur-idc\".\n", limits.c_str());
+            exit(1);
+        }
+    }
+}
+
 static void printProblemStatistics(CNFProblem& problem) {
     std::cout << "c Variables: " << problem.nVars() << std::endl;
     std::cout << "c Clauses: " << problem.nClauses() << std::endl;
@@ -205,6 +223,7 @@ int main(int argc, char** argv) {
 
     setUsageHelp("c USAGE: %s [options] <input-file>\n\nc where input may be either in plain or gzipped DIMACS.\n");
     parseOptions(argc, argv, true);
+    checkStringOptions();
 
     CNFProblem problem{};
     const char* inputFilename = nullptr;
-- 
2.43.0


From da7553562e8f418e52c03f4d1b46f3a2cb940e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 33/38] fix: keep iterators of paged memory valid when pages
 are added

---
 src/candy/mtl/Memory.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/candy/mtl/Memory.h b/src/candy/mtl/Memory.h
index dac9f4e..3be7bba 100644
--- a/src/candy/mtl/Memory.h
+++ b/src/candy/mtl/Memory.h
@@ -24,6 +24,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <cstring> 
 #include <assert.h>
 #include <memory.h>
+#include <list>
 #include <vector>
 #include <algorithm>
 
@@ -145,8 +146,8 @@ public:
     class const_iterator {
     public:
         const_iterator(
-            typename std::vector<MemoryPage<T>>::const_iterator page_,
-            typename std::vector<MemoryPage<T>>::const_iterator end_page_,
+            typename std::list<MemoryPage<T>>::const_iterator page_,
+            typename std::list<MemoryPage<T>>::const_iterator end_page_,
             typename MemoryPage<T>::const_iterator position_,
             typename MemoryPage<T>::const_iterator end_position_)
          : page(page_), end_page(end_page_), position(position_), end_position(end_position_) 
@@ -191,13 +192,9 @@ public:
             return page != other.page || position != other.position;
         }
 
-        inline bool operator < (const const_iterator& other) const {
-            return page < other.page || position < other.position;
-        }
-
     private:
-        typename std::vector<MemoryPage<T>>::const_iterator page;
-        typename std::vector<MemoryPage<T>>::const_iterator end_page;
+        typename std::list<MemoryPage<T>>::const_iterator page;
+        typename std::list<MemoryPage<T>>::const_iterator end_page;
         typename MemoryPage<T>::const_iterator position;
         typename MemoryPage<T>::const_iterator end_position;
 
@@ -219,7 +216,7 @@ public:
 private:
     const unsigned int default_page_size;
 
-    std::vector<MemoryPage<T>> pages;
+    std::list<MemoryPage<T>> pages; // iterators must stay valid if pages are added
 
 public:
     Memory(unsigned int page_size_mb = 32)
@@ -258,7 +255,7 @@ public:
     inline void sort(Compare comp) {
         if (pages.size() > 0) {
             if (pages.size() > 1) {
-                std::vector<MemoryPage<T>> new_pages;
+                std::list<MemoryPage<T>> new_pages;
                 new_pages.emplace_back(this->used());
                 MemoryPage<T>& page = new_pages.back();
                 for (const T* element : *this) {
-- 
2.43.0


From 587a92aad0c3c7b7792c60a9319b9f3faed3c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 34/38] fix: weigh and order the variables of LRB by their
 participation rate

The rate was an integer division, hence 0 unless the variable took part in
every conflict, and a variable was queued with its old weight.
---
 src/candy/systems/branching/LRB.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index c56bb36..3beeffe 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -145,13 +145,14 @@ public:
         for (auto it = trail.begin(backtrack_level); it != trail.end(); it++) {
             Var v = it->var();
             polarity[v] = it->sign();
-            if (!order_heap.inHeap(v) && trail.isDecisionVar(v)) order_heap.insert(v);
 
             if (interval_assigned[v] > 0) {
-                weight[v] = inv_step_size * weight[v] + step_size * (participated[v] / interval_assigned[v]);
+                weight[v] = inv_step_size * weight[v] + step_size * ((double)participated[v] / interval_assigned[v]);
                 interval_assigned[v] = 0;
                 participated[v] = 0;
             }
+
+            if (order_heap.inHeap(v) || trail.isDecisionVar(v)) order_heap.update(v); // the weight changed
         }
     }
 
-- 
2.43.0


From 859ba9b0c08bde9771e04425c7565695501e3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 35/38] fix: betweenness centrality of a component, and where
 no node is between others

With the largest component as scope the first nodes were taken as sources
whether or not they belong to it. If all values are 0 they became NaN, and
with them the scores of all variables.
---
 src/candy/teexgraph/CenGraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/candy/teexgraph/CenGraph.cpp b/src/candy/teexgraph/CenGraph.cpp
index 9de4e38..1442b28 100644
--- a/src/candy/teexgraph/CenGraph.cpp
+++ b/src/candy/teexgraph/CenGraph.cpp
@@ -171,7 +171,7 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
     }
 
     vector<long double> doublelongarray(vector<long double>(nodes(FULL), 0));
-    int until = nodes(scope);
+    int until = nodes(FULL);
     if(samplesize < 1.0)
         until = (double) nodes(FULL) * samplesize;
     int prevs = -1;
@@ -188,6 +188,9 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
         stack<int> S;
         int v, w;
 
+        if(samplesize >= 1.0 && !inScope(s, scope))
+            continue;
+
         // if(s % max(1, until / 20) == 0) // show status % without div by 0 errors
         //      clog << " " << s / max(1, until / 100) << "%";
 
@@ -253,7 +256,8 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
 
     vector<double> centralities(nodes(FULL), 0);
     for(int i = 0; i < nodes(FULL); i++) {
-        centralities[i] = totals[i] / maxval;
+        if(maxval > 0) // otherwise no node is on a shortest path between two others
+            centralities[i] = totals[i] / maxval;
     }
 
     return centralities;
-- 
2.43.0


From fa3f69dd9fe2e2907bc41600cf99ed13b429cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 36/38] fix: no value for variables beyond the model

CNFProblem::checkResult prints the values of a clause that is not satisfied
and read beyond the end of a model that does not cover all variables.
---
 src/candy/core/CandySolverResult.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..850cd9e 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -79,7 +79,10 @@ public:
 
     // return satisfied literal for given variable
     Lit value(Var x) const {
-        if (model[x] == l_False) {
+        if (x >= (Var)model.size()) {
+            return lit_Undef;
+        }
+        else if (model[x] == l_False) {
             return Lit(x, true);
         } 
         else if (model[x] == l_True) {
-- 
2.43.0


From 146308a2565cf58995c922f145875f76e857ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 37/38] fix: a minimisation does not depend on earlier ones

The minimised model of a result kept literals of earlier minimisations, and a
minimizer that was used again still had their constraints.
---
 src/candy/core/CandySolverResult.h | 5 +++++
 src/candy/minimizer/Minimizer.cc   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 850cd9e..c94b9da 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -49,6 +49,7 @@ public:
     void clear() {
         status = l_Undef;
         model.clear();
+        minimizedModel.clear();
         conflict.clear();
     }
 
@@ -111,6 +112,10 @@ public:
     }
 
     /** support for minimized models */
+    void clearMinimizedModel() {
+        minimizedModel.clear();
+    }
+
     void setMinimizedModelValue(Lit lit) {
         if (lit.var() >= (Var)minimizedModel.size()) {
             minimizedModel.resize(lit.var()+1, l_Undef);
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index 09d85de..4cbce43 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -91,6 +91,7 @@ void Minimizer::mimimizeModel(bool pruningActivated, bool computeMinimalModel, b
     }
 
     // translate back to original polarity
+    model.clearMinimizedModel(); // of an earlier minimisation
     for (Lit lit : minimizedModel) {
         if (model.satisfies(lit)) {
             model.setMinimizedModelValue(lit);
@@ -105,6 +106,7 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
     Cl cardinality;
     Cl assumptions;
 
+    solver->clear(); // forget an earlier minimisation
     solver->init(CNFProblem { hittingSetProblem });
 
     for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
-- 
2.43.0


From 373af387836b85f135517f26f34b1cf38457376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 38/38] fix: bounded queue keeps its oldest element when it
 wraps after pop

---
 src/candy/mtl/BoundedQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/mtl/BoundedQueue.h b/src/candy/mtl/BoundedQueue.h
index 209d338..65cc6a7 100644
--- a/src/candy/mtl/BoundedQueue.h
+++ b/src/candy/mtl/BoundedQueue.h
@@ -66,7 +66,7 @@ public:
         }
         sumofqueue += x;
         elems[first] = x;
-        if ((++first) == elems.size()) { first = 0; last = 0; }
+        if ((++first) == elems.size()) first = 0;
     }
 
     T peek() {
-- 
2.43.0

