From c444a336b097880f905323dbf4f460c202dba06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/20] fix: bm_solve_upper_triangular returns false on a
 singular matrix instead of aborting

---
 lib/hnco/bit-matrix.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/bit-matrix.cc b/lib/hnco/bit-matrix.cc
index 2f5155f..169f6bc 100644
--- a/lib/hnco/bit-matrix.cc
+++ b/lib/hnco/bit-matrix.cc
@@ -302,6 +302,8 @@ bool hnco::bm_solve_upper_triangular(bit_matrix_t& A, bit_vector_t& b)
 
   for (int k = 0; k < nrows; k++) {
     int i = nrows - 1 - k;
+    if (!A[i][i])
+      return false;
     for (int j = 0; j < i; j++)
       if (A[j][i]) {
         bm_add_rows(A, j, i);
-- 
2.43.0


From 8377b4ccedb381608c7c30658a23da69bd07bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:29 +0000
Subject: [PATCH 02/20] fix: random transvection sequences discard the previous
 content of the sequence

---
 lib/hnco/maps/transvection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..4258825 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,7 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -246,6 +247,7 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -279,6 +281,7 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -312,6 +315,7 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -342,6 +346,7 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
-- 
2.43.0


From 09990f1ee0c0baf0ea1ebdd20843da35842bd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:40 +0000
Subject: [PATCH 03/20] fix: StandardBitMutation honours allow_no_mutation with
 the Bernoulli process too

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..2d77e42 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -93,7 +93,7 @@ StandardBitMutation::bernoulli_process()
         _flipped_bits.push_back(i);
         again = false;
       }
-  } while (again);
+  } while (again && !_allow_no_mutation);
 }
 
 
-- 
2.43.0


From 94c634462bf75d02d490cdf8a3cca44ad5e8af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:43 +0000
Subject: [PATCH 04/20] fix: NkLandscape::random_structure gives every row the
 requested number of neighbors when an instance is regenerated

---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From 6772112c20724f4f19fdfa2e8b583d8e00ce849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:43 +0000
Subject: [PATCH 05/20] fix: Sudoku::random sets the number of variables and
 the given digits of the candidate

---
 lib/hnco/functions/collection/sudoku.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..d570496 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,10 +115,14 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = 0;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
-      if (erase[i + 9 * j])
+      if (erase[i + 9 * j]) {
         _problem_instance[i][j] = '.';
+        _num_variables++;
+      } else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
-- 
2.43.0


From f18b4eb110bd1d927a1f54e719fb56cd4956251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:15 +0000
Subject: [PATCH 06/20] fix: FourPeaks and SixPeaks declare the attained
 maximum for thresholds below -1

---
 lib/hnco/functions/collection/four-peaks.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/four-peaks.cc b/lib/hnco/functions/collection/four-peaks.cc
index b42bb61..1cc6b79 100644
--- a/lib/hnco/functions/collection/four-peaks.cc
+++ b/lib/hnco/functions/collection/four-peaks.cc
@@ -57,7 +57,7 @@ inline int tail(const bit_vector_t& x, bit_t b)
 FourPeaks::FourPeaks(int bv_size, int threshold):
   _bv_size(bv_size),
   _threshold(threshold),
-  _maximum(2 * bv_size - threshold - 1)
+  _maximum(2 * bv_size - std::max(threshold, -1) - 1)
 {
   if (threshold > bv_size / 2 - 1) {
     std::ostringstream stream;
@@ -81,7 +81,7 @@ double FourPeaks::evaluate(const bit_vector_t& x)
 SixPeaks::SixPeaks(int bv_size, int threshold):
   _bv_size(bv_size),
   _threshold(threshold),
-  _maximum(2 * bv_size - threshold - 1)
+  _maximum(2 * bv_size - std::max(threshold, -1) - 1)
 {
   if (threshold > bv_size / 2 - 1) {
     std::ostringstream stream;
-- 
2.43.0


From a01bea22835558cefe949af48c5e89311d5ed88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 07/20] fix: StopOnTarget and ProgressTracker record the
 flipped bit vector after an incremental evaluation

---
 lib/hnco/functions/controllers/controller.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..c349689 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
@@ -128,7 +129,13 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    bit_vector_t flipped(bv);
+    bv_flip(flipped, flipped_bits);
+    update_last_improvement(flipped, result);
+  } else {
+    update_last_improvement(bv, result);
+  }
   return result;
 }
 
-- 
2.43.0


From 891ea88cb45447787fb94cf907f137ab2e314454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 08/20] fix: OppositeFunction advertises incremental evaluation
 only when its function provides it

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From 20d3515aa5dfb44391384935bf29858c8bfd7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 09/20] fix: (1+(lambda,lambda)) GA tests the index before
 reading the population

---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 0ad4b07f7f1aa737dca8d8e28db6620b06d0f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 10/20] fix: NpsPbil averages the worst individuals, not the
 best ones, into the mean it moves away from

---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From 23aa08f06b9da081ce16040c8c60abb7730ec00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 11/20] fix: RandomWalk starts incremental evaluation from the
 value of the starting point

---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..4a58f36 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From 5f076ba862a527e8f4888f21b74c13ce9961cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:35 +0000
Subject: [PATCH 12/20] fix: tournament selection returns the winner when the
 permutation is reshuffled

---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..3f51eec 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -105,12 +105,15 @@ public:
       }
     }
 
+    // init might shuffle the permutation
+    const int index = _permutation[winner];
+
     _start = _stop;
     _stop += _tournament_size;
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return _bvs[index];
   }
 
   /** @name Setters
-- 
2.43.0


From e21bb4b4c9fe62411d8b270260ee760d25b73291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:35 +0000
Subject: [PATCH 13/20] fix: RamUmda2 averages the selected individuals in the
 solution space

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From 8ee7024e7a980c79efacfadb2d03ce7f144f1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:35 +0000
Subject: [PATCH 14/20] fix: synchronous Gibbs sampling reads only the lower
 triangle of a triangular moment

---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..a2561ed 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -70,14 +70,18 @@ TriangularMomentGibbsSampler::update_sync()
   for (size_t i = 0; i < _pv.size(); i++) {
     double delta = _model_parameters.first_moment[i];
     const std::vector<double>& row = _model_parameters.second_moment[i];
-    for (size_t j = 0; j < _state.size(); j++) {
-      if (j == i)
-        continue;
+    for (size_t j = 0; j < i; j++) {
       if (_state[j])
         delta -= row[j];
       else
         delta += row[j];
     }
+    for (size_t j = i + 1; j < _state.size(); j++) {
+      if (_state[j])
+        delta -= _model_parameters.second_moment[j][i];
+      else
+        delta += _model_parameters.second_moment[j][i];
+    }
     delta *= -2;
 
     _pv[i] = logistic(delta);
-- 
2.43.0


From 88ef30db86f55760dd7fc8f582f098451a533cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:35 +0000
Subject: [PATCH 15/20] fix: infinite norm of a Walsh moment takes absolute
 values

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From f578812e58f0b65a8c59a75f960efa6d461c85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:31 +0000
Subject: [PATCH 16/20] fix: finalize() of P3, LTGA, HBOA and GOMEA before the
 first evaluation

If the first evaluation is interrupted by LastEvaluation then finalize()
used to read an empty best solution out of bounds.
---
 lib/hnco/algorithms/fast-efficient-p3/hboa.cc | 4 ++++
 lib/hnco/algorithms/fast-efficient-p3/ltga.cc | 4 ++++
 lib/hnco/algorithms/fast-efficient-p3/p3.cc   | 4 ++++
 lib/hnco/algorithms/gomea/gomea.cc            | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
index 022a8da..068be2c 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
@@ -71,6 +71,10 @@ Hboa::maximize(const std::vector<function::Function *>& functions)
 void
 Hboa::finalize()
 {
+  // Nothing has been evaluated yet
+  if (_implementation->middle_layer->best_solution.empty())
+    return;
+
   bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
   _solution.second = _implementation->middle_layer->best_fitness;
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
index c606691..70fce43 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
@@ -78,6 +78,10 @@ Ltga::maximize(const std::vector<function::Function *>& functions)
 void
 Ltga::finalize()
 {
+  // Nothing has been evaluated yet
+  if (_implementation->middle_layer->best_solution.empty())
+    return;
+
   bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
   _solution.second = _implementation->middle_layer->best_fitness;
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/p3.cc b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
index 24f76b4..9c9a3d0 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/p3.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
@@ -80,6 +80,10 @@ ParameterLessPopulationPyramid::maximize(const std::vector<function::Function *>
 void
 ParameterLessPopulationPyramid::finalize()
 {
+  // Nothing has been evaluated yet
+  if (_implementation->middle_layer->best_solution.empty())
+    return;
+
   bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
   _solution.second = _implementation->middle_layer->best_fitness;
 }
diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..da935a6 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -64,5 +64,9 @@ void
 Gomea::finalize()
 {
   ProgressTracker::Event last_improvement = _tracker->get_last_improvement();
+  // Nothing has been evaluated yet
+  if (last_improvement.num_evaluations == 0)
+    return;
+
   _solution = last_improvement.solution;
 }
-- 
2.43.0


From 3512279a2c036222cebcd8fcb71ed254aef607a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 17/20] fix: restart takes the interrupted run into account

If the first run was interrupted by LastEvaluation then the solution of
Restart was left in its initial state, which is neither the best
evaluated point nor consistent with the function; the improvements of
any later interrupted run were lost as well.
---
 lib/hnco/algorithms/decorators/restart.cc | 16 ++++++++++++----
 lib/hnco/algorithms/decorators/restart.hh | 20 +++++++++++++-------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..228cb94 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -26,11 +26,18 @@ using namespace hnco::exception;
 
 
 void
-Restart::iterate(bool first_iteration)
+Restart::iterate()
 {
   _algorithm->maximize(_functions);
+  finalize();
+  _first_iteration = false;
+}
+
+void
+Restart::finalize()
+{
   _algorithm->finalize();
-  if (first_iteration)
+  if (_first_iteration)
     _solution = _algorithm->get_solution();
   else
     update_solution(_algorithm->get_solution());
@@ -40,13 +47,14 @@ void
 Restart::maximize(const std::vector<function::Function *>& functions)
 {
   set_functions(functions);
+  _first_iteration = true;
   if (_num_iterations > 0) {
     for (int i = 0; i < _num_iterations; i++) {
-      iterate(i == 0);
+      iterate();
     }
   } else {
     for (int i = 0;; i++) {
-      iterate(i == 0);
+      iterate();
     }
   }
 }
diff --git a/lib/hnco/algorithms/decorators/restart.hh b/lib/hnco/algorithms/decorators/restart.hh
index 842a0d6..48c65a0 100644
--- a/lib/hnco/algorithms/decorators/restart.hh
+++ b/lib/hnco/algorithms/decorators/restart.hh
@@ -40,13 +40,11 @@ class Restart: public Decorator {
   /// Number of iterations
   int _num_iterations = 0;
 
-  /**
-   * Iterate.
-   *
-   * @param first_iteration Boolean which is true if this is the first
-   * iteration.
-   */
-  void iterate(bool first_iteration);
+  /// First iteration
+  bool _first_iteration = true;
+
+  /// Iterate
+  void iterate();
 
 public:
 
@@ -63,6 +61,14 @@ public:
   /// Maximize
   void maximize(const std::vector<function::Function *>& functions) override;
 
+  /**
+   * Finalize.
+   *
+   * Takes into account the solution of the last run, which might have
+   * been interrupted.
+   */
+  void finalize() override;
+
   ///@}
 
   /**
-- 
2.43.0


From c3eaf527d5d59556529a5cde5ecb24bc7c9d74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 18/20] fix: NSGA-II makes room for its solutions again after a
 previous run has shrunk them

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..54a4d57 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -150,6 +150,10 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  // A previous run might have shrunk _solutions
+  _solutions.bvs.resize(_parents.get_size());
+  _solutions.values.resize(_parents.get_size());
+
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From 7cc07e12d1e61c8a3fcecf80b3300551b81e0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 19/20] fix: NSGA-II uses the configured crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index 54a4d57..2af6a21 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -40,6 +40,8 @@ Nsga2::init()
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _parents.random();
   _parents.evaluate(_function);
 
-- 
2.43.0


From a4107961bb4e34d65f024ea01559cc6a269f05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:00 +0000
Subject: [PATCH 20/20] fix: the integer representation counts bits exactly, so
 that wide intervals are covered

---
 lib/hnco/representations/integer.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/representations/integer.hh b/lib/hnco/representations/integer.hh
index 3fa243a..3dd4ea6 100644
--- a/lib/hnco/representations/integer.hh
+++ b/lib/hnco/representations/integer.hh
@@ -89,7 +89,9 @@ class DyadicIntegerRepresentation {
     assert(lower_bound < upper_bound);
     assert(difference_is_safe(lower_bound, upper_bound));
 
-    _exact_size = std::ceil(std::log(upper_bound - lower_bound + 1) / std::log(2));
+    _exact_size = 0;
+    for (T difference = upper_bound - lower_bound; difference > 0; difference /= 2)
+      _exact_size++;
     assert(_exact_size > 0);
     assert(_exact_size < int(sizeof(T) * 8));
   }
-- 
2.43.0

