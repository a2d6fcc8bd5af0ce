From f0322e1dfeb390c68f1477cdcb981e799e3a4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:36 +0000
Subject: [PATCH 01/58] fix: bm_solve_upper_triangular returns false on
 singular matrices

---
 lib/hnco/bit-matrix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/hnco/bit-matrix.cc b/lib/hnco/bit-matrix.cc
index 2f5155f..74c17c7 100644
--- a/lib/hnco/bit-matrix.cc
+++ b/lib/hnco/bit-matrix.cc
@@ -300,6 +300,10 @@ bool hnco::bm_solve_upper_triangular(bit_matrix_t& A, bit_vector_t& b)
 
   const int nrows = bm_num_rows(A);
 
+  for (int i = 0; i < nrows; i++)
+    if (!A[i][i])
+      return false;
+
   for (int k = 0; k < nrows; k++) {
     int i = nrows - 1 - k;
     for (int j = 0; j < i; j++)
-- 
2.43.0


From a7b78d7a21201df135c96ccd3c0d913ace952c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:10 +0000
Subject: [PATCH 02/58] fix: ts_random_* functions clear their output sequence
 first

---
 lib/hnco/maps/transvection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..7592674 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,8 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -246,6 +248,8 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -279,6 +283,8 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -312,6 +318,8 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -342,6 +350,8 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
-- 
2.43.0


From fcdbff94f88260e910d5bada0ed14affecf376e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:56 +0000
Subject: [PATCH 03/58] fix: AbstractMaxSat::load on blank lines, extreme
 literals and missing p line

---
 lib/hnco/functions/collection/max-sat.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 7db546a..cd12695 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -70,7 +70,7 @@ AbstractMaxSat::load_(std::istream& stream)
     std::string line;
     getline(stream, line);
 
-    if (line.empty())
+    if (line.find_first_not_of(" \t\r") == std::string::npos)
       continue;
 
     // Comment
@@ -115,7 +115,7 @@ AbstractMaxSat::load_(std::istream& stream)
         throw std::runtime_error("AbstractMaxSat::load: No p line");
 
       std::istringstream iss(line);
-      int n;
+      int n = -1;
       std::vector<int> clause;
 
       while (has_next_variable(iss)) {
@@ -127,8 +127,7 @@ AbstractMaxSat::load_(std::istream& stream)
         if (n == 0)
           break;
 
-        int v = (n > 0) ? n : -n;
-        if (v > _num_variables)
+        if (n > _num_variables || n < -_num_variables)
           throw std::runtime_error("AbstractMaxSat::load: Variable index overflow");
 
         clause.push_back(n);
@@ -142,6 +141,9 @@ AbstractMaxSat::load_(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("AbstractMaxSat::load: No p line");
+
   if (int(_expression.size()) != num_clauses)
     throw std::runtime_error("AbstractMaxSat::load: Incoherent number of clauses");
 
-- 
2.43.0


From ea24b12f74a148baa15e85d1923f8ec8668da431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:56 +0000
Subject: [PATCH 04/58] fix: NkLandscape structure is resized when an instance
 is generated again

---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From eae92515b7a3f93df515ed54524be0d089daef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:56 +0000
Subject: [PATCH 05/58] fix: Partition::evaluate no longer overflows int sums

---
 lib/hnco/functions/collection/partition.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/partition.cc b/lib/hnco/functions/collection/partition.cc
index 92eaea6..953c26c 100644
--- a/lib/hnco/functions/collection/partition.cc
+++ b/lib/hnco/functions/collection/partition.cc
@@ -33,8 +33,8 @@ Partition::evaluate(const bit_vector_t& s)
 {
   assert(s.size() == _numbers.size());
 
-  int sum0 = 0;
-  int sum1 = 0;
+  long long sum0 = 0;
+  long long sum1 = 0;
   for (size_t i = 0; i < s.size(); i++)
     if (s[i])
       sum1 += _numbers[i];
-- 
2.43.0


From cdcb12cedd0d8c3d8e9eaf4c4e339281fb31116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:56 +0000
Subject: [PATCH 06/58] fix: Qubo::load reads double values, skips blank lines,
 and requires a p line

---
 lib/hnco/functions/collection/qubo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 42bd5e4..6972356 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -48,7 +48,7 @@ Qubo::load(std::istream& stream)
     std::string line;
     getline(stream, line);
 
-    if (line.empty())
+    if (line.find_first_not_of(" \t\r") == std::string::npos)
       continue;
 
     // Comment
@@ -103,7 +103,7 @@ Qubo::load(std::istream& stream)
 
       std::istringstream iss(line);
       int i, j;
-      float value;
+      double value;
 
       iss >> i;
       if (iss.fail() || i < 0 || !(i < dimension))
@@ -129,6 +129,9 @@ Qubo::load(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("Qubo::load: No p line");
+
   if (count_other_elements != num_other_elements)
     throw std::runtime_error("Qubo::load: Not enough off diagonal elements");
   if (count_diagonal_elements != num_diagonal_elements)
-- 
2.43.0


From 5ae6e46d41c3cf559081932355ff310081aed407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:14 +0000
Subject: [PATCH 07/58] fix: Tsp::load rejects malformed files instead of
 aborting and skips blank lines

---
 lib/hnco/functions/collection/tsp.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..66fd8a8 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -39,6 +39,8 @@ Tsp::load_(std::istream& stream)
 {
   std::string line;
   std::string key, value;
+  bool has_coordinates = false;
+  _num_cities = 0;
 
   while(!stream.eof()) {
     getline(stream, line);
@@ -48,7 +50,8 @@ Tsp::load_(std::istream& stream)
     auto pos = line.find(":");
     std::string before = line.substr(0, pos);
     std::istringstream before_stream(before);
-    before_stream >> key;
+    if (!(before_stream >> key))
+      continue;
 
     std::string after = line.substr(pos + 1);
     std::istringstream after_stream(after);
@@ -75,25 +78,32 @@ Tsp::load_(std::istream& stream)
     } else if (key == "NODE_COORD_SECTION") {
       load_coordinates(stream);
       compute_distances();
+      has_coordinates = true;
       break;
     }
   }
+  if (!has_coordinates)
+    throw std::runtime_error("Tsp::load_: No NODE_COORD_SECTION");
 }
 
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
-  _xs.resize(_num_cities);
-  _ys.resize(_num_cities);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: Missing or bad DIMENSION");
+  _xs.assign(_num_cities, 0);
+  _ys.assign(_num_cities, 0);
   while (!stream.eof()) {
     int index;
     stream >> index;
     if (stream.fail())
       break;
-    assert((index >= 1) && (index <= _num_cities));
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: City index out of range");
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates");
   }
 }
 
-- 
2.43.0


From fb79326d954b919696b42ecc5309c15a529a33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:14 +0000
Subject: [PATCH 08/58] fix: Tsp::generate sets the number of cities shown by
 display

---
 lib/hnco/functions/collection/tsp.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 60df31c..0e0294b 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -45,7 +45,7 @@ private:
   /// Comment
   std::string _comment;
   /// Number of cities
-  int _num_cities;
+  int _num_cities = 0;
   /// Abscissas of cities
   std::vector<float> _xs;
   /// Ordinates of cities
@@ -97,6 +97,7 @@ public:
   template<class Generator>
   void generate(int n, Generator generator) {
     assert(n > 0);
+    _num_cities = n;
     _distances.resize(n);
     for (int i = 0; i < n; i++)
       _distances[i].resize(n);
-- 
2.43.0


From e4b81215dbbf775ee5d2a33fa76565df7e911fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:14 +0000
Subject: [PATCH 09/58] fix: Sudoku::random leaves an instance which can be
 evaluated

---
 lib/hnco/functions/collection/sudoku.cc | 3 +++
 lib/hnco/functions/collection/sudoku.hh | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..d647073 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,10 +115,13 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = c;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
       if (erase[i + 9 * j])
         _problem_instance[i][j] = '.';
+      else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index dbcc8e0..37d7410 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -53,7 +53,7 @@ private:
   std::vector<int> _counts;
 
   /// Number of variables
-  int _num_variables;
+  int _num_variables = 0;
 
   /// Write variables
   void write_variables(const std::vector<domain_type>& x);
-- 
2.43.0


From 208c3ca4980a9a475c3ee64614057c63a9b26326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:44 +0000
Subject: [PATCH 10/58] fix: OppositeFunction only claims incremental
 evaluation if its function provides it

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From ec51da502d365040cc7711ace845fd63909282a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:44 +0000
Subject: [PATCH 11/58] fix: StopOnTarget and ProgressTracker record the
 flipped bit vector on incremental evaluation

---
 lib/hnco/functions/controllers/controller.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..f7e56a0 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
@@ -128,7 +129,12 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    bit_vector_t candidate(bv);
+    bv_flip(candidate, flipped_bits);
+    update_last_improvement(candidate, result);
+  } else
+    update_last_improvement(bv, result);
   return result;
 }
 
-- 
2.43.0


From 2ba4a328113215764116e7438bd8118f5a2e80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:44 +0000
Subject: [PATCH 12/58] fix: Cache forwards updates after parallel evaluation
 to the function it decorates

---
 lib/hnco/functions/controllers/controller.cc | 16 ++++++++++++++++
 lib/hnco/functions/controllers/controller.hh |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index f7e56a0..e6e83ff 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -195,3 +195,19 @@ Cache::evaluate(const bit_vector_t& bv)
     return iter->second;
   }
 }
+
+void
+Cache::update(const bit_vector_t& bv, double value)
+{
+  assert(bv.size() == _key.size());
+
+  _num_evaluations++;
+
+  bv_to_vector_bool(_key, bv);
+
+  if (_cache.find(_key) == _cache.end()) {
+    _function->update(bv, value);
+    _cache.insert(std::pair<std::vector<bool>, double>(_key, value));
+  } else
+    _num_lookups++;
+}
diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..a619b61 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -406,6 +406,9 @@ public:
   /// Evaluate a bit vector
   double evaluate(const bit_vector_t&);
 
+  /// Update after a safe evaluation
+  void update(const bit_vector_t& bv, double value);
+
   ///@}
 
   /// Get lookup ratio
-- 
2.43.0


From 7038fafe95117e46ade5e6495d3bef5e468dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:44 +0000
Subject: [PATCH 13/58] fix: prior noise neighborhood has the size of the
 function after composition with a map

---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From 87cad7f2fd548ba3dfda4224c166cdf0b3557c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:49 +0000
Subject: [PATCH 14/58] fix: StandardBitMutation honours allow_no_mutation
 without rejection sampling

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..195e62b 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -86,7 +86,7 @@ void
 StandardBitMutation::bernoulli_process()
 {
   _flipped_bits.clear();
-  bool again = true;
+  bool again = !_allow_no_mutation;
   do {
     for (size_t i = 0; i < _candidate.size(); i++)
       if (_bernoulli_dist(Generator::engine)) {
-- 
2.43.0


From 5e4614f35408781057e9b357207d974d336444ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:39 +0000
Subject: [PATCH 15/58] fix: Gomea draws its seed from the HNCO random number
 generator

---
 lib/hnco/algorithms/gomea/gomea.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..e03fdda 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -18,6 +18,8 @@
 
 */
 
+#include "hnco/random.hh"       // hnco::random::Generator::engine
+
 #include "gomea/src/discrete/Config.hpp"
 #include "gomea/src/discrete/gomeaIMS.hpp"
 
@@ -52,8 +54,8 @@ Gomea::maximize(const std::vector<function::Function *>& functions)
   // _config.maximumNumberOfEvaluations = max_number_of_evaluations;
   // _config.maximumNumberOfGenerations = max_number_of_generations;
   // _config.maximumNumberOfSeconds     = max_number_of_seconds;
-  // _config.randomSeed                 = random_seed;
-  // _config.fix_seed                   = true;
+  _config.randomSeed                 = hnco::random::Generator::engine();
+  _config.fix_seed                   = true;
 
   ::gomea::discrete::gomeaIMS gomea(&_config);
   gomea.run();
-- 
2.43.0


From 4bbb0cc1992a0d39cf92874a7633268dcd7efeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:44 +0000
Subject: [PATCH 16/58] fix: hnco prints and saves the solution whose value it
 reports

---
 lib/hnco/app/application.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..e35a835 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -272,6 +272,12 @@ CommandLineApplication::maximize()
   if (_options.with_print_parameters())
     std::cout << _options;
 
+  // The tracker records the best solution, hence the solution is
+  // consistent with the results even if the algorithm is interrupted
+  // before it has updated its own solution.
+  auto tracker = _decorated_function_factory.get_tracker();
+  tracker->set_record_bit_vector(true);
+
   solution_t solution;
 
   bool target_reached = false;
@@ -298,6 +304,10 @@ CommandLineApplication::maximize()
 
   stop_watch.stop();
 
+  auto last_improvement = tracker->get_last_improvement();
+  if (!target_reached && last_improvement.num_evaluations > 0)
+    solution = last_improvement.solution;
+
   if (_options.with_record_total_time())
     print_results(stop_watch.get_total_time(), target_reached);
   else
-- 
2.43.0


From 88b596e30e04897d35dd199c16bd923c2cb5d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:44 +0000
Subject: [PATCH 17/58] fix: Restart takes an interrupted run into account in
 finalize

---
 lib/hnco/algorithms/decorators/restart.cc | 12 ++++++++++++
 lib/hnco/algorithms/decorators/restart.hh | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..33bee9c 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -34,12 +34,24 @@ Restart::iterate(bool first_iteration)
     _solution = _algorithm->get_solution();
   else
     update_solution(_algorithm->get_solution());
+  _first_run = false;
+}
+
+void
+Restart::finalize()
+{
+  _algorithm->finalize();
+  if (_first_run)
+    _solution = _algorithm->get_solution();
+  else
+    update_solution(_algorithm->get_solution());
 }
 
 void
 Restart::maximize(const std::vector<function::Function *>& functions)
 {
   set_functions(functions);
+  _first_run = true;
   if (_num_iterations > 0) {
     for (int i = 0; i < _num_iterations; i++) {
       iterate(i == 0);
diff --git a/lib/hnco/algorithms/decorators/restart.hh b/lib/hnco/algorithms/decorators/restart.hh
index 842a0d6..c6222f9 100644
--- a/lib/hnco/algorithms/decorators/restart.hh
+++ b/lib/hnco/algorithms/decorators/restart.hh
@@ -40,6 +40,9 @@ class Restart: public Decorator {
   /// Number of iterations
   int _num_iterations = 0;
 
+  /// Solution of the first run still unknown
+  bool _first_run = true;
+
   /**
    * Iterate.
    *
@@ -63,6 +66,13 @@ public:
   /// Maximize
   void maximize(const std::vector<function::Function *>& functions) override;
 
+  /**
+   * Finalize.
+   *
+   * Take into account the run which might have been interrupted.
+   */
+  void finalize() override;
+
   ///@}
 
   /**
-- 
2.43.0


From 63f9653793977cd41791f6ed366b2d8db1faa776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:46 +0000
Subject: [PATCH 18/58] fix: (1+(lambda,lambda)) GA does not read past the end
 of its population

---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 53f9c78da4244329aacbf0bd448f6df026929ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:46 +0000
Subject: [PATCH 19/58] fix: RandomWalk initializes the value used by
 incremental evaluation

---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..4a58f36 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From 75b4e0fc61c4d2081cfa2e0ee6432249dde50943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:09 +0000
Subject: [PATCH 20/58] fix: mutation rates of TwoRateOnePlusLambdaEa are valid
 for small bit vectors

---
 .../evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh b/lib/hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh
index d7d2c16..dc57058 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh
+++ b/lib/hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh
@@ -21,6 +21,8 @@
 #ifndef HNCO_ALGORITHMS_EA_TWO_RATE_ONE_PLUS_LAMBDA_EA
 #define HNCO_ALGORITHMS_EA_TWO_RATE_ONE_PLUS_LAMBDA_EA
 
+#include <algorithm>            // std::min
+
 #include "hnco/algorithms/iterative-algorithm.hh"
 #include "hnco/algorithms/population.hh"
 #include "hnco/neighborhoods/neighborhood.hh"
@@ -47,8 +49,8 @@ public:
     : IterativeAlgorithm(n)
     , _population(population_size, n)
     , _mutation_operator(n)
-    , _mutation_rate_init(2 / double(n))
-    , _mutation_rate_min(2 / double(n))
+    , _mutation_rate_init(std::min(2 / double(n), 0.25))
+    , _mutation_rate_min(std::min(2 / double(n), 0.25))
   {}
 
   /**
-- 
2.43.0


From 33b4e851775aa3de93ee7f68f5667e453c88a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 21/58] fix: TriangularMomentGibbsSampler::update_sync stays
 inside the triangular matrix

---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..a2561ed 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -70,14 +70,18 @@ TriangularMomentGibbsSampler::update_sync()
   for (size_t i = 0; i < _pv.size(); i++) {
     double delta = _model_parameters.first_moment[i];
     const std::vector<double>& row = _model_parameters.second_moment[i];
-    for (size_t j = 0; j < _state.size(); j++) {
-      if (j == i)
-        continue;
+    for (size_t j = 0; j < i; j++) {
       if (_state[j])
         delta -= row[j];
       else
         delta += row[j];
     }
+    for (size_t j = i + 1; j < _state.size(); j++) {
+      if (_state[j])
+        delta -= _model_parameters.second_moment[j][i];
+      else
+        delta += _model_parameters.second_moment[j][i];
+    }
     delta *= -2;
 
     _pv[i] = logistic(delta);
-- 
2.43.0


From df6e769a3bcad19a09426d218df208035d06638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 22/58] fix: infinite norms of Walsh moments take absolute
 values

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From 5273e42cb3b0eb0b360cbf0233203b7a3eb5d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 23/58] fix: NpsPbil learns from the worst individuals

---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From b66d5ade0aa3f08ff8ef2448ada2d8b76881f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 24/58] fix: RamUmda2 updates its probability vector with
 selected individuals

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From 0b91d3bc7f07341aade1aaf6c16e41ad8ce82cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 25/58] fix: CompactGa evaluates its candidates once per
 iteration

---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..4b5b476 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -43,8 +43,8 @@ CompactGa::iterate()
   pv_sample(_pv, _candidates[0]);
   pv_sample(_pv, _candidates[1]);
 
-  double v0 = _function->evaluate(_candidates[0]);
-  double v1 = _function->evaluate(_candidates[1]);
+  const double v0 = _function->evaluate(_candidates[0]);
+  const double v1 = _function->evaluate(_candidates[1]);
 
   int best = 0;
   int worst = 1;
@@ -55,8 +55,6 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
-
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
     if (_candidates[best][i] != _candidates[worst][i]) {
-- 
2.43.0


From 311a48adf5a353ac1811da2a7a8d15c158150845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:10 +0000
Subject: [PATCH 26/58] fix: RamUmda restores the transvection sequence length
 at the start of a run

---
 .../algorithms/probability-vector/ram-umda.cc | 24 ++++++++++---------
 .../algorithms/probability-vector/ram-umda.hh |  2 ++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index 2811c7c..b500f16 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -37,6 +37,7 @@ RamUmda::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _current_ts_length = _ts_length;
 }
 
 void
@@ -52,7 +53,7 @@ RamUmda::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
@@ -84,33 +85,33 @@ RamUmda::compute_ts_length()
 
   case TsLengthMode::increasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length++;
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+      _current_ts_length++;
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
 
   case TsLengthMode::decreasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length--;
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+      _current_ts_length--;
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
 
   case TsLengthMode::uniform: {
     std::uniform_int_distribution dist(_ts_length_lower_bound, _ts_length_upper_bound);
-    _ts_length = dist(Generator::engine);
+    _current_ts_length = dist(Generator::engine);
     break;
   }
 
   case TsLengthMode::geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = dist(Generator::engine);
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+    _current_ts_length = dist(Generator::engine);
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
   }
 
   case TsLengthMode::reverse_geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = _ts_length_upper_bound - dist(Generator::engine);
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+    _current_ts_length = _ts_length_upper_bound - dist(Generator::engine);
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
   }
 
@@ -128,6 +129,7 @@ RamUmda2::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _current_ts_length = _ts_length;
 }
 
 void
@@ -150,7 +152,7 @@ RamUmda2::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.hh b/lib/hnco/algorithms/probability-vector/ram-umda.hh
index a250ec2..90421c4 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.hh
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.hh
@@ -96,6 +96,8 @@ protected:
   bit_vector_t _b;
   /// Temporary bit vector
   bit_vector_t _c;
+  /// Current transvection sequence length
+  int _current_ts_length;
   /**
    * @name Parameters
    */
-- 
2.43.0


From 557580abd35e7f8cd3ce48d569d6135a64077bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:57 +0000
Subject: [PATCH 27/58] fix: Gomea terminates on bit vectors of two or fewer
 bits

---
 lib/gomea/src/common/linkage_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gomea/src/common/linkage_model.cpp b/lib/gomea/src/common/linkage_model.cpp
index 25de386..d7abe90 100644
--- a/lib/gomea/src/common/linkage_model.cpp
+++ b/lib/gomea/src/common/linkage_model.cpp
@@ -533,7 +533,7 @@ void linkage_model_t::learnLinkageTreeFOS( vec_t<vec_t<double>> similarity_matri
     vec_t<size_t> NN_chain;
     NN_chain.resize(numberOfVariables+2);
     size_t NN_chain_length = 0;
-    bool done = false;
+    bool done = mpm.size() <= (include_full_fos_element ? 1 : 2);
     while (!done)
 	{
 		if (NN_chain_length == 0)
-- 
2.43.0


From a37c3f9bbbee20c8ba88709f75f0fae5d2a5c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:57 +0000
Subject: [PATCH 28/58] fix: LTGA and P3 can be run on problems of different
 sizes in one process

---
 lib/fast-efficient-p3/Population.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/Population.cpp b/lib/fast-efficient-p3/Population.cpp
index 1356bbb..64b9353 100644
--- a/lib/fast-efficient-p3/Population.cpp
+++ b/lib/fast-efficient-p3/Population.cpp
@@ -24,7 +24,9 @@ Population::Population(Configuration& config, size_t _level) {
   }
 
   // Set up the storage tables needed for model building
-  distances.resize(clusters.size(), vector<float>(clusters.size(), -1));
+  if (distances.size() < clusters.size()) {
+    distances.assign(clusters.size(), vector<float>(clusters.size(), -1));
+  }
   occurrences.resize(length, vector<array<int, 4>>());
   for (size_t i = 1; i < length; i++) {
     occurrences[i].resize(i);
-- 
2.43.0


From 63986544195f7cb46a0de1218eb4dd6f4433b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:38 +0000
Subject: [PATCH 29/58] fix: TournamentSelection returns the winner of the last
 tournament of a round

---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..7eaaecb 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -95,12 +95,12 @@ public:
   const bit_vector_t& select() {
     assert(is_in_range(_stop, 2, _bvs.size() + 1));
 
-    int winner = _start;
-    T best_value = _values[_permutation[_start]];
+    int winner = _permutation[_start];
+    T best_value = _values[winner];
     for (int challenger = _start + 1; challenger < _stop; challenger++) {
       T value = _values[_permutation[challenger]];
       if (_compare(value, best_value)) {
-        winner = challenger;
+        winner = _permutation[challenger];
         best_value = value;
       }
     }
@@ -110,7 +110,7 @@ public:
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return _bvs[winner];
   }
 
   /** @name Setters
-- 
2.43.0


From ab46ecd275edfe282ab834592012a817d8aaa000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:38 +0000
Subject: [PATCH 30/58] fix: Nsga2 applies its crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..ba59dd5 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -37,6 +37,8 @@ Nsga2::init()
 
   _selection_by_front_distance_pair.set_tournament_size(_tournament_size);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
-- 
2.43.0


From b9ac47b27accc40454eb6a58edbf02f12af2d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:38 +0000
Subject: [PATCH 31/58] fix: Nsga2 can be run again after its solutions have
 been shrunk

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index ba59dd5..6c48a8d 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -152,6 +152,7 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  _solutions.resize(_parents.get_size(), _parents.bvs[0].size(), _parents.values[0].size());
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From bc6c536115e88929bb7270b1850bed705fdd1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:52 +0000
Subject: [PATCH 32/58] fix: StandardBitMutation turns rejection sampling off
 when its mutation rate is raised

---
 lib/hnco/neighborhoods/neighborhood.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.hh b/lib/hnco/neighborhoods/neighborhood.hh
index 8dfbe8e..7ee3feb 100644
--- a/lib/hnco/neighborhoods/neighborhood.hh
+++ b/lib/hnco/neighborhoods/neighborhood.hh
@@ -282,8 +282,7 @@ public:
   void set_mutation_rate(double p) {
     _bernoulli_dist = std::bernoulli_distribution(p);
     _binomial_dist = std::binomial_distribution<int>(_origin.size(), p);
-    if (p < 1 / std::sqrt(_origin.size()))
-      _rejection_sampling = true;
+    _rejection_sampling = (p < 1 / std::sqrt(_origin.size()));
   }
 
   /// Set the flag _allow_no_mutation
-- 
2.43.0


From ff6e8a783d2e39268d6a0b4e3676301633f2c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:52 +0000
Subject: [PATCH 33/58] fix: HBOA breaks ties between splits randomly instead
 of by memory address

---
 lib/fast-efficient-p3/HBOA.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/HBOA.cpp b/lib/fast-efficient-p3/HBOA.cpp
index 299a921..6c74b23 100644
--- a/lib/fast-efficient-p3/HBOA.cpp
+++ b/lib/fast-efficient-p3/HBOA.cpp
@@ -369,7 +369,12 @@ void Bayesian_Forest::build_forest(Random & rand) {
   // while there are still worthwhile splits
   while (options.size()) {
     // get the best split
-    auto best = *min_element(options.begin(), options.end());
+    // (ties are broken by the shuffle, not by the addresses of the trees)
+    auto best = *min_element(options.begin(), options.end(),
+        [](const tuple<double, Bayesian_Tree*, size_t>& a,
+           const tuple<double, Bayesian_Tree*, size_t>& b) {
+          return get<0>(a) < get<0>(b);
+        });
     Bayesian_Tree& splitting = *get<1>(best);
     size_t new_index = get<2>(best);
     // update dependency information to prevent cycles
-- 
2.43.0


From aae64a4e4b1a754769e671e4fe1030164792d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 34/58] fix: DyadicIntegerRepresentation computes its size
 exactly and accepts a single value

The size was computed with floating point logarithms, which yields one bit
too many for some powers of two, too few bits for large long intervals so
that the upper bound could not be reached, and overflows for intervals of
length numeric_limits::max(). An interval with a single value, e.g. a value
set with one element, failed an assertion. difference_is_safe overflowed for
the smallest value of the type.
---
 lib/hnco/representations/integer.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/hnco/representations/integer.hh b/lib/hnco/representations/integer.hh
index 3fa243a..7f27132 100644
--- a/lib/hnco/representations/integer.hh
+++ b/lib/hnco/representations/integer.hh
@@ -61,7 +61,7 @@ bool difference_is_safe(T a, T b)
   assert(a < 0);
   assert(b >= 0);
 
-  if (-a <= std::numeric_limits<T>::max() - b)
+  if (b <= std::numeric_limits<T>::max() + a)
     return true;
 
   return false;
@@ -86,11 +86,14 @@ class DyadicIntegerRepresentation {
 
   /// Set the exact size for a given interval
   void set_exact_size(T lower_bound, T upper_bound) {
-    assert(lower_bound < upper_bound);
-    assert(difference_is_safe(lower_bound, upper_bound));
+    assert(lower_bound <= upper_bound);
+    assert(lower_bound == upper_bound || difference_is_safe(lower_bound, upper_bound));
+
+    // Number of bits of the largest offset, at least 1
+    _exact_size = 1;
+    for (std::size_t u = std::size_t(upper_bound - lower_bound) >> 1; u > 0; u >>= 1)
+      _exact_size++;
 
-    _exact_size = std::ceil(std::log(upper_bound - lower_bound + 1) / std::log(2));
-    assert(_exact_size > 0);
     assert(_exact_size < int(sizeof(T) * 8));
   }
 
-- 
2.43.0


From ab53436a9bddc801e8669a26f65f7bb20fb037ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 35/58] fix: DyadicFloatRepresentation has at least one bit
 whatever the precision

---
 lib/hnco/representations/float.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/representations/float.hh b/lib/hnco/representations/float.hh
index a55bd0f..aabd912 100644
--- a/lib/hnco/representations/float.hh
+++ b/lib/hnco/representations/float.hh
@@ -21,6 +21,7 @@
 #ifndef HNCO_REPRESENTATIONS_FLOAT_H
 #define HNCO_REPRESENTATIONS_FLOAT_H
 
+#include <algorithm>            // std::max
 #include <assert.h>
 
 #include <vector>
@@ -113,7 +114,7 @@ public:
     assert(precision > 0);
 
     int size = std::ceil(std::log(_length / precision) / std::log(2));
-    compute_lengths(size);
+    compute_lengths(std::max(size, 1));
   }
 
   /// Size of the representation
-- 
2.43.0


From d91e4867a4ac3e0d05a205ca4984b99bbd9d40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 36/58] fix: PermutationRepresentation does not truncate its
 keys to int

---
 lib/hnco/representations/permutation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/representations/permutation.hh b/lib/hnco/representations/permutation.hh
index 5bcdc66..2f4b2cf 100644
--- a/lib/hnco/representations/permutation.hh
+++ b/lib/hnco/representations/permutation.hh
@@ -39,7 +39,7 @@ namespace representation {
 class PermutationRepresentation {
 
   /// Values to be sorted
-  std::vector<int> _values;
+  std::vector<std::size_t> _values;
 
   /// Element size in bits
   int _element_size;
-- 
2.43.0


From 205e8f5656da9f9117c2b4555984138d64937568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 37/58] fix: report ill-formed representation specifications as
 errors

Non-numeric or out of range numbers threw std::invalid_argument or
std::out_of_range, which the applications do not catch, and empty
intervals, non positive sizes or precisions reached assertions.
---
 lib/hnco/app/parser.cc            | 75 ++++++++++++++++++++++++++++---
 lib/hnco/app/parser.hh            | 39 +++++++++++++---
 lib/hnco/representations/float.hh |  2 +-
 3 files changed, 103 insertions(+), 13 deletions(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index 15c12f6..3afb83b 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -18,9 +18,11 @@
 
 */
 
+#include <cmath>                // std::isfinite, std::isnan
 #include <iostream>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 
 #include "hnco/functions/function.hh"
 
@@ -57,14 +59,70 @@ hnco::app::split_string(std::string str, std::string delimiter)
   return items;
 }
 
+int
+hnco::app::string_to_int(std::string str)
+{
+  try { return std::stoi(str); }
+  catch (std::logic_error&) {
+    throw std::runtime_error("string_to_int: Invalid or out of range int: " + str);
+  }
+}
+
+long
+hnco::app::string_to_long(std::string str)
+{
+  try { return std::stol(str); }
+  catch (std::logic_error&) {
+    throw std::runtime_error("string_to_long: Invalid or out of range long: " + str);
+  }
+}
+
+double
+hnco::app::string_to_double(std::string str)
+{
+  try { return std::stod(str); }
+  catch (std::logic_error&) {
+    throw std::runtime_error("string_to_double: Invalid or out of range double: " + str);
+  }
+}
+
+/// Check the bounds of an integer interval
+template<class T>
+static void
+check_integer_bounds(T a, T b)
+{
+  if (a > b)
+    throw std::runtime_error("check_integer_bounds: Lower bound greater than upper bound");
+  if (a < b && !representation::difference_is_safe(a, b))
+    throw std::runtime_error("check_integer_bounds: Interval too large");
+}
+
+DoubleRepParams
+hnco::app::check_double_rep(DoubleRepParams params)
+{
+  double length = params.upper_bound - params.lower_bound;
+  if (!(length > 0) || !std::isfinite(length))
+    throw std::runtime_error("check_double_rep: Invalid bounds");
+  if (params.mode == 1) {
+    if (!(params.precision > 0) || !std::isfinite(params.precision) ||
+        !std::isfinite(length / params.precision))
+      throw std::runtime_error("check_double_rep: Invalid precision");
+  } else {
+    if (params.size <= 0)
+      throw std::runtime_error("check_double_rep: Invalid size");
+  }
+  return params;
+}
+
 IntRepParams
 hnco::app::parse_int_rep(std::string expression)
 {
   auto parameters = split_string(expression, ",");
   if (parameters.size() != 2)
     throw std::runtime_error("parse_int_rep: Requires 2 parameters");
-  int a = std::stoi(parameters[0]);
-  int b = std::stoi(parameters[1]);
+  int a = string_to_int(parameters[0]);
+  int b = string_to_int(parameters[1]);
+  check_integer_bounds(a, b);
   return IntRepParams(a, b);
 }
 
@@ -74,8 +132,9 @@ hnco::app::parse_long_rep(std::string expression)
   auto parameters = split_string(expression, ",");
   if (parameters.size() != 2)
     throw std::runtime_error("parse_long_rep: Requires 2 parameters");
-  long a = std::stol(parameters[0]);
-  long b = std::stol(parameters[1]);
+  long a = string_to_long(parameters[0]);
+  long b = string_to_long(parameters[1]);
+  check_integer_bounds(a, b);
   return LongRepParams(a, b);
 }
 
@@ -84,7 +143,11 @@ hnco::app::parse_value_set_rep(std::string expression)
 {
   auto parameters = split_string(expression, ",");
   std::vector<double> values;
-  for (auto s : parameters)
-    values.push_back(std::stod(s));
+  for (auto s : parameters) {
+    double x = string_to_double(s);
+    if (std::isnan(x))
+      throw std::runtime_error("parse_value_set_rep: Invalid value: " + s);
+    values.push_back(x);
+  }
   return ValueSetRepParams(values);
 }
diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 34af4f2..f73ea75 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -23,6 +23,9 @@
 
 #include <cassert>
 
+#include <sstream>              // std::istringstream
+#include <stdexcept>            // std::runtime_error
+#include <string>
 #include <unordered_map>
 #include <type_traits>          // std::is_same_v
 #include <variant>              // std::variant, std::get, std::holds_alternative
@@ -134,6 +137,30 @@ std::string get_representations(const Options& options)
     return read_file_content(options.get_fp_representations_path());
 }
 
+/**
+ * Convert a string to an int
+ * @throw std::runtime_error
+ */
+int string_to_int(std::string str);
+
+/**
+ * Convert a string to a long
+ * @throw std::runtime_error
+ */
+long string_to_long(std::string str);
+
+/**
+ * Convert a string to a double
+ * @throw std::runtime_error
+ */
+double string_to_double(std::string str);
+
+/**
+ * Check the parameters of a double representation
+ * @throw std::runtime_error
+ */
+DoubleRepParams check_double_rep(DoubleRepParams params);
+
 IntRepParams
 parse_int_rep(std::string expression);
 
@@ -149,13 +176,13 @@ parse_double_rep(std::string expression, const Options& options)
     throw std::runtime_error("parse_double_rep: Not enough parameters");
   if (parameters.size() > 3)
     throw std::runtime_error("parse_double_rep: Too many parameters");
-  double a = std::stod(parameters[0]);
-  double b = std::stod(parameters[1]);
+  double a = string_to_double(parameters[0]);
+  double b = string_to_double(parameters[1]);
   if (parameters.size() == 2) {
     if (options.with_fp_default_double_precision())
-      return DoubleRepParams(a, b, options.get_fp_default_double_precision());
+      return check_double_rep(DoubleRepParams(a, b, options.get_fp_default_double_precision()));
     else if (options.with_fp_default_double_size())
-      return DoubleRepParams(a, b, options.get_fp_default_double_size());
+      return check_double_rep(DoubleRepParams(a, b, options.get_fp_default_double_size()));
     else
       throw std::runtime_error("parse_double_rep: Missing precision or size parameter");
   }
@@ -169,9 +196,9 @@ parse_double_rep(std::string expression, const Options& options)
   if (!stream)
     throw std::runtime_error("parse_double_rep: Missing or invalid key");
   if (key == "precision")
-    return DoubleRepParams(a, b, std::stod(terms[1]));
+    return check_double_rep(DoubleRepParams(a, b, string_to_double(terms[1])));
   else if (key == "size")
-    return DoubleRepParams(a, b, std::stoi(terms[1]));
+    return check_double_rep(DoubleRepParams(a, b, string_to_int(terms[1])));
   else
     throw std::runtime_error("parse_double_rep: Unknown key");
 }
diff --git a/lib/hnco/representations/float.hh b/lib/hnco/representations/float.hh
index aabd912..d2a6205 100644
--- a/lib/hnco/representations/float.hh
+++ b/lib/hnco/representations/float.hh
@@ -113,7 +113,7 @@ public:
     assert(lower_bound < upper_bound);
     assert(precision > 0);
 
-    int size = std::ceil(std::log(_length / precision) / std::log(2));
+    int size = std::ceil(std::log(std::max(_length / precision, T(1))) / std::log(2));
     compute_lengths(std::max(size, 1));
   }
 
-- 
2.43.0


From a06996d840c9c7c61b74a751dfd11386d43ee527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 38/58] fix: sin(x) and cos(x) of the same argument in parsed
 expressions

GCC expands sincos(a, &sin, &cos) so that a, which overlaps sin, is
read again after sin has been written: cos(x)+sin(x) evaluated to
cos(sin(x))+sin(x).
---
 lib/fparser/extrasrc/fpaux.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fparser/extrasrc/fpaux.hh b/lib/fparser/extrasrc/fpaux.hh
index f035c33..fd47f1b 100644
--- a/lib/fparser/extrasrc/fpaux.hh
+++ b/lib/fparser/extrasrc/fpaux.hh
@@ -337,16 +337,19 @@ namespace FUNCTIONPARSERTYPES
 #ifdef _GNU_SOURCE
     inline void fp_sinCos(double& sin, double& cos, const double& a)
     {
-        sincos(a, &sin, &cos);
+        const double param = a; // "sin" and "a" may overlap
+        sincos(param, &sin, &cos);
     }
     inline void fp_sinCos(float& sin, float& cos, const float& a)
     {
-        sincosf(a, &sin, &cos);
+        const float param = a; // "sin" and "a" may overlap
+        sincosf(param, &sin, &cos);
     }
     inline void fp_sinCos(long double& sin, long double& cos,
                           const long double& a)
     {
-        sincosl(a, &sin, &cos);
+        const long double param = a; // "sin" and "a" may overlap
+        sincosl(param, &sin, &cos);
     }
 #endif
 
-- 
2.43.0


From 1c55d8c72b183e52c7b28b3500066a44457bc76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 39/58] fix: wrong peephole rules of the expression parser

- 1-x+(-y) was compiled to y-1-x, with a stack overflow
- c/x*(-y) used one more stack slot than allocated
- abs(x)<c and abs(x)>=c were wrong for negative c
---
 lib/fparser/extrasrc/fp_opcode_add.inc | 86 ++++++++++++--------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/lib/fparser/extrasrc/fp_opcode_add.inc b/lib/fparser/extrasrc/fp_opcode_add.inc
index 331ef49..214a593 100644
--- a/lib/fparser/extrasrc/fp_opcode_add.inc
+++ b/lib/fparser/extrasrc/fp_opcode_add.inc
@@ -401,8 +401,7 @@ Lai;qT
 hI
 wB(299,m0
 a6
-mD,"[-x]"
-aZ
+mD,"cAdd [x]"
 mE,wN);q4
 Laj
 qU
@@ -1261,11 +1260,11 @@ oR
 Lfp:qE
 hS);Lfq:w5=cRSub;g0
 wE(cRSub);q4
-TailCall_cRSub;Laj:o9;qL
-2
-gK
-q4
-Lfp;Lak:hW
+TailCall_cRSub;Laj:q8
+oR
+qE
+hS);mData->mImmed.push_back(x);mData->mByteCode.push_back(cImmed);q4
+Lfq;Lak:hW
 2
 gH
 q4
@@ -1587,8 +1586,7 @@ Lai;qT
 hI
 wB(299,m0
 a6
-mD,"[-x]"
-aZ
+mD,"cAdd [x]"
 mE,wN);q4
 Laj
 qU
@@ -2381,11 +2379,11 @@ oR
 Lfm:qE
 hS);Lfn:w5=cRSub;g0
 wE(cRSub);q4
-TailCall_cRSub;Laj:o9;qL
-2
-gK
-q4
-Lfm;Lak:hW
+TailCall_cRSub;Laj:q8
+oR
+qE
+hS);mData->mImmed.push_back(x);mData->mByteCode.push_back(cImmed);q4
+Lfn;Lak:hW
 2
 gH
 q4
@@ -2721,8 +2719,7 @@ Lak;qT
 hI
 wB(299,m0
 a6
-mD,"[-x]"
-aZ
+mD,"cAdd [x]"
 mE,wN);q4
 Lal
 qU
@@ -3169,8 +3166,8 @@ aS,wN);q4
 Lee;qG
 TailCall_cGreaterOrEq:g5
 dK:qY
-dB
-cAbs){wB(427,mV" x[x!=Value_t(0)] "
+if(x>Value_t(0)){if(q0[-1]==
+cAbs){wB(427,mV" x[x>Value_t(0)] "
 aG,"[Value_t(0.5)/x]"
 wH" "
 aJ,wN);q4
@@ -3263,8 +3260,8 @@ wL
 mJ,mK,qB1(A)wM);q4
 Lfa;}
 }
-dB
-cAbs){wB(426,mV" x[x!=Value_t(0)] "
+if(x>Value_t(0)){if(q0[-1]==
+cAbs){wB(426,mV" x[x>Value_t(0)] "
 mJ,"[Value_t(0.5)/x]"
 wH
 a0,wN);q4
@@ -3692,8 +3689,8 @@ Lhn;qT
 hI
 wB(286,qC1
 a9
-a7,mI
-a9,wN);q4
+a7,"cRDiv [-x]"
+wH,wN);q4
 Lho
 qU
 q6:mW(284,"y"
@@ -4601,11 +4598,11 @@ oR
 Lnn:qE
 hS);Lno:w5=cRSub;g0
 wE(cRSub);q4
-TailCall_cRSub;Lal:o9;qL
-2
-gK
-q4
-Lnn;Lam:hW
+TailCall_cRSub;Lal:q8
+oR
+qE
+hS);mData->mImmed.push_back(x);mData->mByteCode.push_back(cImmed);q4
+Lno;Lam:hW
 2
 gH
 q4
@@ -5005,11 +5002,10 @@ Lgq;Lhn:qG1
 q8
 oR
 Lqb:dM
-Loq;Lho:o9;qL
-2
-gK
-q4
-Lqb;Lhp:qG1
+Loq;Lho:o9;q0[-2]=cRDiv;q0[-1]=cImmed;q5
+g0
+wE(cMul);q4
+TailCall_cMul;Lhp:qG1
 dG
 Loq;Lhq:q7=h4
 gX
@@ -5380,8 +5376,7 @@ Lak;qT
 hI
 wB(299,m0
 a6
-mD,"[-x]"
-aZ
+mD,"cAdd [x]"
 mE,wN);q4
 Lal
 qU
@@ -6327,8 +6322,8 @@ Lhi;qT
 hI
 wB(286,qC1
 a9
-a7,mI
-a9,wN);q4
+a7,"cRDiv [-x]"
+wH,wN);q4
 Lhj
 qU
 q6:mW(284,"y"
@@ -7080,11 +7075,11 @@ oR
 Lmg:qE
 hS);Lmh:w5=cRSub;g0
 wE(cRSub);q4
-TailCall_cRSub;Lal:o9;qL
-2
-gK
-q4
-Lmg;Lam:hW
+TailCall_cRSub;Lal:q8
+oR
+qE
+hS);mData->mImmed.push_back(x);mData->mByteCode.push_back(cImmed);q4
+Lmh;Lam:hW
 2
 gH
 q4
@@ -7443,11 +7438,10 @@ Lgl;Lhi:qG1
 q8
 oR
 Loh:dM
-Lni;Lhj:o9;qL
-2
-gK
-q4
-Loh;Lhk:qG1
+Lni;Lhj:o9;q0[-2]=cRDiv;q0[-1]=cImmed;q5
+g0
+wE(cMul);q4
+TailCall_cMul;Lhk:qG1
 dG
 Lni;Lhl:q7=h4
 gX
-- 
2.43.0


From f2ca93c077443694aad827e6ac8c1bb091ab2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 40/58] fix: wrong rules of the expression optimizer

- abs(f) was replaced by f instead of -f if f is always negative
- the ranges of sin and cos missed the extrema of the next period
- f>1 was replaced by a constant if f is in [1,b]
---
 lib/fparser/fpoptimizer.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/fparser/fpoptimizer.cc b/lib/fparser/fpoptimizer.cc
index 26113c7..7acc455 100644
--- a/lib/fparser/fpoptimizer.cc
+++ b/lib/fparser/fpoptimizer.cc
@@ -4469,7 +4469,7 @@ e32;case
 Eq1
 nM1==l62(1.0
 eB3==p
-nV;case
+e32;case
 xW3
 nM1>tD1
 eB3<=l62(1);case
@@ -9418,7 +9418,7 @@ e5
 if(p0.c8{tree
 c4
 cMul);tree.yJ
-l62(1)));goto
+l62(-1)));goto
 NowWeAreMulGroup;}
 if(e43
 cMul){iT1
@@ -9970,8 +9970,10 @@ yQ
 bool
 xU1=(min<=fp_const_pihalf
 yB()&&max>=fp_const_pihalf
-yB());bool
-nD1=(min<=cI&&max>=cI);if(xU1&&nD1)t8
+yB())||max>=l62(2.5)*fp_const_pi
+yB();bool
+nD1=(min<=cI&&max>=cI)||max>=l62(3.5)*fp_const_pi
+yB();if(xU1&&nD1)t8
 if(nD1)nS
 l62(-1),yI2;if(xU1)nS
 yK2
@@ -10006,8 +10008,10 @@ yQ
 bool
 xU1=(min<=fp_const_pihalf
 yB()&&max>=fp_const_pihalf
-yB());bool
-nD1=(min<=cI&&max>=cI);if(xU1&&nD1)t8
+yB())||max>=l62(2.5)*fp_const_pi
+yB();bool
+nD1=(min<=cI&&max>=cI)||max>=l62(3.5)*fp_const_pi
+yB();if(xU1&&nD1)t8
 if(nD1)nS
 l62(-1),yI2;if(xU1)nS
 yK2
-- 
2.43.0


From 76ac63b7fecd3cb0a1a3372fb5feb1465ef1bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 41/58] fix: spurious divisions by zero in expressions
 multiplied by zero

Parts of the divisor were discarded, e.g. abs(x/(abs(x)+1))+1.
---
 lib/fparser/fparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/fparser/fparser.cc b/lib/fparser/fparser.cc
index 5e77ba5..8abc8a5 100644
--- a/lib/fparser/fparser.cc
+++ b/lib/fparser/fparser.cc
@@ -227,9 +227,9 @@ bool FUNCTIONPARSERTYPES::HasInvalidRangesOpcode(unsigned op)
           //case cTan:   // allowed range: cos(x) != 0  --> x != +-(pi/2)
           //case cTanh:  // allowed range: log(x) != -1 --> x != +-(pi/2)i
           case cRSqrt: // allowed range: x != 0
-          //case cDiv: // allowed range: y != 0
-          //case cRDiv: // allowed range: x != 0
-          //case cInv: // allowed range: x != 0
+          case cDiv: // allowed range: y != 0
+          case cRDiv: // allowed range: x != 0
+          case cInv: // allowed range: x != 0
           return true;
         }
     }
@@ -258,9 +258,9 @@ bool FUNCTIONPARSERTYPES::HasInvalidRangesOpcode(unsigned op)
           case cSqrt: // allowed range: x >= 0
           case cRSqrt: // allowed range: x > 0
           //case cTan:   // allowed range: cos(x) != 0 --> x != +-(pi/2)
-          //case cDiv: // allowed range: y != 0
-          //case cRDiv: // allowed range: x != 0
-          //case cInv: // allowed range: x != 0
+          case cDiv: // allowed range: y != 0
+          case cRDiv: // allowed range: x != 0
+          case cInv: // allowed range: x != 0
           return true;
         }
     }
-- 
2.43.0


From 3cbc16eb816cb44f07e09b9bc3f391b4d0b623b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:02 +0000
Subject: [PATCH 42/58] fix: do not optimize parsed expressions over integer or
 complex numbers

The optimizer is only meant for floating point numbers, e.g.
x-y*z+3*z*z was compiled to x+z*z for long integers.
---
 .../functions/collection/parsed-multivariate-function.hh     | 5 ++++-
 .../functions/collection/parsed-multivariate-function.hh     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/parsed-multivariate-function.hh b/lib/hnco/functions/collection/parsed-multivariate-function.hh
index e9a2fee..31e08d0 100644
--- a/lib/hnco/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/functions/collection/parsed-multivariate-function.hh
@@ -26,6 +26,7 @@
 #include <iosfwd>
 #include <sstream>
 #include <string>
+#include <type_traits>          // std::is_floating_point
 #include <vector>
 #include <algorithm>            // std::remove_if
 
@@ -89,7 +90,9 @@ public:
         << " in _expression: " << _expression;
       throw std::runtime_error(stream.str());
     }
-    _fparser.Optimize();
+    // The optimizer is only sound for floating point types
+    if constexpr(std::is_floating_point<domain_type>::value)
+      _fparser.Optimize();
   }
 
   /// Display the problem
diff --git a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
index 3e8ba6d..1cc86be 100644
--- a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
@@ -28,6 +28,7 @@
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
+#include <type_traits>          // std::is_floating_point
 #include <vector>
 #include <algorithm>            // std::sort, std::remove_if
 
@@ -149,7 +150,9 @@ public:
           << " in expression: " << _expressions[i];
         throw std::runtime_error(stream.str());
       }
-      _parsers[i].Optimize();
+      // The optimizer is only sound for floating point types
+      if constexpr(std::is_floating_point<domain_type>::value)
+        _parsers[i].Optimize();
       _variables[i].resize(_names[i].size());
     }
 
-- 
2.43.0


From 9ac495f6a29603b589b4ee36c15a45a1fffef2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:38 +0000
Subject: [PATCH 43/58] fix: report a default representation of the wrong type
 as an error

std::bad_variant_access is not caught by the applications.
---
 lib/hnco/app/parser.hh | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index f73ea75..bd90dc2 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -303,13 +303,22 @@ get_default_representation(const Options& options)
 {
   using T = typename Rep::domain_type;
 
-  if constexpr (std::is_same_v<T, int>)
-    return parse_representation<Options>(options.get_fp_default_int_rep(), options);
-  else if constexpr (std::is_same_v<T, long>)
-    return parse_representation<Options>(options.get_fp_default_long_rep(), options);
-  else if constexpr  (std::is_same_v<T, double>)
-    return parse_representation<Options>(options.get_fp_default_double_rep(), options);
-  else
+  auto check_type = [](param_var_t v, bool holds) -> param_var_t {
+    if (!holds)
+      throw std::runtime_error("get_default_representation: Representation mismatch");
+    return v;
+  };
+
+  if constexpr (std::is_same_v<T, int>) {
+    auto v = parse_representation<Options>(options.get_fp_default_int_rep(), options);
+    return check_type(v, std::holds_alternative<IntRepParams>(v));
+  } else if constexpr (std::is_same_v<T, long>) {
+    auto v = parse_representation<Options>(options.get_fp_default_long_rep(), options);
+    return check_type(v, std::holds_alternative<LongRepParams>(v));
+  } else if constexpr  (std::is_same_v<T, double>) {
+    auto v = parse_representation<Options>(options.get_fp_default_double_rep(), options);
+    return check_type(v, std::holds_alternative<DoubleRepParams>(v));
+  } else
     throw std::runtime_error("get_default_representation: Unknown type");
 }
 
-- 
2.43.0


From 3f3bac4e96102df6fb8049bbe58ffc5b0ff3af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:44 +0000
Subject: [PATCH 44/58] fix: atan2(y, x) with a negative x in parsed
 expressions

The optimizer replaced it by atan(y/x).
---
 lib/fparser/fpoptimizer.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/fparser/fpoptimizer.cc b/lib/fparser/fpoptimizer.cc
index 7acc455..7197484 100644
--- a/lib/fparser/fpoptimizer.cc
+++ b/lib/fparser/fpoptimizer.cc
@@ -9630,12 +9630,9 @@ yB(nD}
 if
 lJ
 fp_atan2(lS,tM)nD
-if((p1
+if(p1
 eY&&p1
-e32>tD1))||(p1
-t6&&(p1
-nV)<fp_const_negativezero
-yB())nQ
+e32>tD1)nQ
 yG2;yG2
 c4
 cPow);yG2
-- 
2.43.0


From 7c3e86e884379c061e39ae84f95b70945c12586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 45/58] fix: saving reports a file which could not be written

---
 lib/hnco/functions/collection/max-sat.hh | 3 +++
 lib/hnco/functions/collection/sudoku.hh  | 3 +++
 lib/hnco/serialization.hh                | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/lib/hnco/functions/collection/max-sat.hh b/lib/hnco/functions/collection/max-sat.hh
index 63c7f5e..0639200 100644
--- a/lib/hnco/functions/collection/max-sat.hh
+++ b/lib/hnco/functions/collection/max-sat.hh
@@ -102,6 +102,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("LinearFunction::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream.good())
+      throw std::runtime_error("AbstractMaxSat::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index 37d7410..08302a9 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -114,6 +114,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("Sudoku::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream.good())
+      throw std::runtime_error("Sudoku::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/serialization.hh b/lib/hnco/serialization.hh
index db743bf..a9cf9e5 100644
--- a/lib/hnco/serialization.hh
+++ b/lib/hnco/serialization.hh
@@ -73,6 +73,8 @@ void save_to_archive(const T& object, std::string path, std::string name)
   catch (boost::archive::archive_exception& e) {
     throw std::runtime_error(name + "::save: " + std::string(e.what()));
   }
+  if (!stream.good())
+    throw std::runtime_error(name + "::save: Cannot write " + path);
 }
 
 ///@}
-- 
2.43.0


From 13660748003226a4e38f7ded374efdbb94767312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 46/58] fix: Factorization of 0 or 1 does not depend on the
 instance loaded before

---
 lib/hnco/functions/collection/factorization.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/hnco/functions/collection/factorization.cc b/lib/hnco/functions/collection/factorization.cc
index 9934738..92ce4f1 100644
--- a/lib/hnco/functions/collection/factorization.cc
+++ b/lib/hnco/functions/collection/factorization.cc
@@ -76,6 +76,10 @@ Factorization::set_number(const std::string number)
 
   _first_factor_string = std::string(_first_factor_size, '0');
   _second_factor_string = std::string(_second_factor_size, '0');
+
+  // An empty factor string is not converted
+  mpz_set_ui(_first_factor, 0);
+  mpz_set_ui(_second_factor, 0);
 }
 
 
-- 
2.43.0


From f1d66119e277f49f2d6d4ac8e7b4195da7655676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 47/58] fix: MaxSat and Qubo loaders end when the stream cannot
 be read

---
 lib/hnco/functions/collection/max-sat.cc | 2 +-
 lib/hnco/functions/collection/qubo.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index cd12695..dbd036f 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -66,7 +66,7 @@ AbstractMaxSat::load_(std::istream& stream)
   bool spec = false;
   int num_clauses = 0;
 
-  while (!stream.eof()) {
+  while (stream.good()) {
     std::string line;
     getline(stream, line);
 
diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 6972356..e865e68 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -44,7 +44,7 @@ Qubo::load(std::istream& stream)
   int count_diagonal_elements = 0;
   int count_other_elements = 0;
 
-  while (!stream.eof()) {
+  while (stream.good()) {
     std::string line;
     getline(stream, line);
 
-- 
2.43.0


From 7abf4e38237c738898cd172a04579d434c18d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 48/58] fix: Tsp::load starts afresh, checks the dimension,
 handles large distances and unreadable streams

---
 lib/hnco/functions/collection/tsp.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index 66fd8a8..4b95397 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -40,9 +40,12 @@ Tsp::load_(std::istream& stream)
   std::string line;
   std::string key, value;
   bool has_coordinates = false;
+  _name.clear();
+  _comment.clear();
   _num_cities = 0;
+  _edge_weight_type = EdgeWeightType::ATT;
 
-  while(!stream.eof()) {
+  while(stream.good()) {
     getline(stream, line);
     if (line.empty())
       continue;
@@ -66,7 +69,8 @@ Tsp::load_(std::istream& stream)
       if (value != "TSP")
         throw std::runtime_error("Tsp::load_: " + _name + " is not a TSP problem.");
     } else if (key == "DIMENSION") {
-      after_stream >> _num_cities;
+      if (!(after_stream >> _num_cities))
+        throw std::runtime_error("Tsp::load_: Bad DIMENSION");
     } else if (key == "EDGE_WEIGHT_TYPE") {
       after_stream >> value;
       if (value == "ATT")
@@ -143,7 +147,7 @@ Tsp::compute_distances_att()
       float dx = _xs[i] - _xs[j];
       float dy = _ys[i] - _ys[j];
       float rij = std::sqrt((dx * dx + dy * dy) / 10.0);
-      float tij = (int)(rij + 0.5);
+      float tij = std::floor(rij + 0.5);
       float dij;
       if (tij < rij)
         dij = tij + 1;
@@ -164,7 +168,7 @@ Tsp::compute_distances_euc_2d()
     for (int j = 0; j < i; j++) {
       float dx = _xs[i] - _xs[j];
       float dy = _ys[i] - _ys[j];
-      float dij = (int)(std::sqrt(dx * dx + dy * dy) + 0.5);
+      float dij = std::floor(std::sqrt(dx * dx + dy * dy) + 0.5);
       _distances[i][j] = dij;
       _distances[j][i] = dij;
     }
-- 
2.43.0


From 70ec731bc8bb34ae04bb0566e628a87fa972e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:52 +0000
Subject: [PATCH 49/58] fix: archives with inconsistent contents are rejected
 with an exception

---
 .../ising/nearest-neighbor-ising-model-1.hh    |  6 +++++-
 .../ising/nearest-neighbor-ising-model-2.hh    |  6 ++++++
 lib/hnco/functions/collection/nk-landscape.hh  | 13 ++++++++++++-
 .../collection/walsh/walsh-expansion-2.hh      |  9 ++++++++-
 .../collection/walsh/walsh-expansion.hh        |  9 ++++++++-
 lib/hnco/maps/map.hh                           | 18 ++++++++++--------
 lib/hnco/maps/transvection.hh                  |  5 ++++-
 lib/hnco/serialization.hh                      |  2 +-
 8 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh b/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh
index c87b7e3..136670a 100644
--- a/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh
+++ b/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh
@@ -155,7 +155,11 @@ public:
       \param path Path of the instance to load
       \throw std::runtime_error
   */
-  void load(std::string path) { load_from_archive(*this, path, "NearestNeighborIsingModel1"); }
+  void load(std::string path) {
+    load_from_archive(*this, path, "NearestNeighborIsingModel1");
+    if (_field.size() == 0 || _coupling.size() != _field.size())
+      throw std::runtime_error("NearestNeighborIsingModel1::load: Inconsistent instance");
+  }
 
   /** Save instance.
 
diff --git a/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh b/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh
index 7fe5d30..109de73 100644
--- a/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh
+++ b/lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh
@@ -88,6 +88,12 @@ private:
     ar & _field;
     ar & _periodic_boundary_conditions;
 
+    bool valid = _field.size() > 0 && _field[0].size() > 0 && _coupling_right.size() == _field.size() && _coupling_below.size() == _field.size();
+    for (size_t i = 0; valid && i < _field.size(); i++)
+      valid = _field[i].size() == _field[0].size() && _coupling_right[i].size() == _field[0].size() && _coupling_below[i].size() == _field[0].size();
+    if (!valid)
+      throw std::runtime_error("NearestNeighborIsingModel2::load: Inconsistent instance");
+
     _flipped_bits = bit_vector_t(get_bv_size(), 0);
   }
 
diff --git a/lib/hnco/functions/collection/nk-landscape.hh b/lib/hnco/functions/collection/nk-landscape.hh
index d2ec9d1..e60b95e 100644
--- a/lib/hnco/functions/collection/nk-landscape.hh
+++ b/lib/hnco/functions/collection/nk-landscape.hh
@@ -123,7 +123,18 @@ public:
       \param path Path of the instance to load
       \throw std::runtime_error
   */
-  void load(std::string path) { load_from_archive(*this, path, "NkLandscape"); }
+  void load(std::string path) {
+    load_from_archive(*this, path, "NkLandscape");
+    bool valid = _neighbors.size() > 0 && _neighbors.size() == _partial_functions.size();
+    for (size_t i = 0; valid && i < _neighbors.size(); i++) {
+      const size_t k = _neighbors[i].size();
+      valid = k > 0 && k < 31 && _partial_functions[i].size() == size_t(1) << k;
+      for (int neighbor : _neighbors[i])
+        valid = valid && neighbor >= 0 && neighbor < int(_neighbors.size());
+    }
+    if (!valid)
+      throw std::runtime_error("NkLandscape::load: Inconsistent instance");
+  }
 
   /** Save instance.
 
diff --git a/lib/hnco/functions/collection/walsh/walsh-expansion-2.hh b/lib/hnco/functions/collection/walsh/walsh-expansion-2.hh
index 60a94c5..2676bf1 100644
--- a/lib/hnco/functions/collection/walsh/walsh-expansion-2.hh
+++ b/lib/hnco/functions/collection/walsh/walsh-expansion-2.hh
@@ -181,7 +181,14 @@ public:
       \param path Path of the instance to load
       \throw std::runtime_error
   */
-  void load(std::string path) { load_from_archive(*this, path, "WalshExpansion2"); }
+  void load(std::string path) {
+    load_from_archive(*this, path, "WalshExpansion2");
+    bool valid = _linear.size() == _quadratic.size();
+    for (size_t i = 0; i < _quadratic.size(); i++)
+      valid = valid && _quadratic[i].size() == i;
+    if (!valid)
+      throw std::runtime_error("WalshExpansion2::load: Inconsistent instance");
+  }
 
   /** Save instance.
 
diff --git a/lib/hnco/functions/collection/walsh/walsh-expansion.hh b/lib/hnco/functions/collection/walsh/walsh-expansion.hh
index 254cdd2..703d9bd 100644
--- a/lib/hnco/functions/collection/walsh/walsh-expansion.hh
+++ b/lib/hnco/functions/collection/walsh/walsh-expansion.hh
@@ -127,7 +127,14 @@ public:
       \param path Path of the instance to load
       \throw std::runtime_error
   */
-  void load(std::string path) { load_from_archive(*this, path, "WalshExpansion"); }
+  void load(std::string path) {
+    load_from_archive(*this, path, "WalshExpansion");
+    bool valid = _terms.size() > 0;
+    for (auto& term : _terms)
+      valid = valid && term.feature.size() == _terms[0].feature.size();
+    if (!valid)
+      throw std::runtime_error("WalshExpansion::load: Inconsistent instance");
+  }
 
   /** Save instance.
 
diff --git a/lib/hnco/maps/map.hh b/lib/hnco/maps/map.hh
index 7cdb170..7b0183e 100644
--- a/lib/hnco/maps/map.hh
+++ b/lib/hnco/maps/map.hh
@@ -95,7 +95,8 @@ private:
   {
     ar & _bv;
 
-    assert(bv_is_valid(_bv));
+    if (!bv_is_valid(_bv))
+      throw std::runtime_error("Translation::load: Invalid bit vector");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -183,7 +184,8 @@ private:
   {
     ar & _permutation;
 
-    assert(perm_is_valid(_permutation));
+    if (!perm_is_valid(_permutation))
+      throw std::runtime_error("Permutation::load: Invalid permutation");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -263,7 +265,8 @@ private:
   {
     ar & _bm;
 
-    assert(bm_is_valid(_bm));
+    if (!bm_is_valid(_bm))
+      throw std::runtime_error("LinearMap::load: Invalid bit matrix");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -349,9 +352,8 @@ private:
     ar & _bm;
     ar & _bv;
 
-    assert(bm_is_valid(_bm));
-    assert(bv_is_valid(_bv));
-    assert(bm_num_rows(_bm) == int(_bv.size()));
+    if (!bm_is_valid(_bm) || !bv_is_valid(_bv) || bm_num_rows(_bm) != int(_bv.size()))
+      throw std::runtime_error("AffineMap::load: Invalid bit matrix or bit vector");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -614,8 +616,8 @@ private:
   {
     ar & _bv;
     ar & _ts;
-    assert(bv_is_valid(_bv));
-    assert(ts_is_valid(_ts, _bv.size()));
+    if (!bv_is_valid(_bv) || !ts_is_valid(_ts, _bv.size()))
+      throw std::runtime_error("TsAffineMap::load: Invalid bit vector or transvection sequence");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// %Transvection sequence
diff --git a/lib/hnco/maps/transvection.hh b/lib/hnco/maps/transvection.hh
index 0d24145..d8e5275 100644
--- a/lib/hnco/maps/transvection.hh
+++ b/lib/hnco/maps/transvection.hh
@@ -23,6 +23,8 @@
 
 #include <assert.h>
 
+#include <stdexcept>
+
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
 #include <boost/serialization/vector.hpp>
@@ -72,7 +74,8 @@ struct Transvection {
   {
     ar & row_index;
     ar & column_index;
-    assert(is_valid());
+    if (!is_valid())
+      throw std::runtime_error("Transvection::load: Invalid transvection");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// Row index
diff --git a/lib/hnco/serialization.hh b/lib/hnco/serialization.hh
index a9cf9e5..d6f7da5 100644
--- a/lib/hnco/serialization.hh
+++ b/lib/hnco/serialization.hh
@@ -50,7 +50,7 @@ void load_from_archive(T& object, std::string path, std::string name)
     boost::archive::text_iarchive archive(stream);
     archive >> object;
   }
-  catch (boost::archive::archive_exception& e) {
+  catch (std::exception& e) {
     throw std::runtime_error(name + "::load: " + std::string(e.what()));
   }
 }
-- 
2.43.0


From 88d40e5d744e149e20df1823961d7334adad8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 50/58] fix: weights of the BinVal function do not overflow

---
 lib/hnco/app/function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/function-factory.cc b/lib/hnco/app/function-factory.cc
index dba3fa7..e5c8b2a 100644
--- a/lib/hnco/app/function-factory.cc
+++ b/lib/hnco/app/function-factory.cc
@@ -53,7 +53,7 @@ CommandLineFunctionFactory::make()
   case 5: {
     LinearFunction* instance = new LinearFunction;
     instance->generate(_options.get_bv_size(),
-                       [w = 1] () mutable { double result = w; w *= 2; return result; });
+                       [w = 1.0] () mutable { double result = w; w *= 2; return result; });
     return instance;
   }
 
-- 
2.43.0


From 05959d6258b414a7141512e804800613ebd5522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 51/58] fix: Walsh transform of a constant function

---
 lib/hnco/app/application.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e35a835..57680a9 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -143,12 +143,14 @@ CommandLineApplication::print_information()
               terms.end(),
               [](const function::WalshTerm& a,
                  const function::WalshTerm& b){ return a.coefficient > b.coefficient; });
-    assert(terms.size() > 0);
-    double norm;
-    if (bv_hamming_weight(terms[0].feature) == 0)
-      norm = terms[1].coefficient;
-    else
-      norm = terms[0].coefficient;
+    // The constant term is not taken into account
+    double norm = 0;
+    for (const auto& t : terms) {
+      if (bv_hamming_weight(t.feature) > 0) {
+        norm = t.coefficient;
+        break;
+      }
+    }
     for (auto t : terms) {
       int weight = bv_hamming_weight(t.feature);
       double amplitude = t.coefficient / norm;
-- 
2.43.0


From 749f6454b45992acdb2c2618c61024a64cec90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 52/58] fix: the description of a concrete solution does not
 apply the map twice

---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 57680a9..b375f83 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -258,13 +258,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
   }
 }
 
-- 
2.43.0


From 8bdae3b998e608a1c93464202d643d642c47c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 53/58] fix: a loaded solution which reaches the target is
 evaluated

---
 lib/hnco/app/application.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index b375f83..dc44a07 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -91,8 +91,9 @@ CommandLineApplication::load_solution()
     bit_vector_t x = bv_from_stream(stream);
     if (int(x.size()) != _fn->get_bv_size())
       throw std::runtime_error("CommandLineApplication::load_solution: Solution size and function bv_size must be equal");
+    // Stopping criteria do not apply to a loaded solution
     if (_options.with_print_results())
-      std::cout << _fn->evaluate(x) << std::endl;
+      std::cout << _decorated_function_factory.get_tracker()->evaluate(x) << std::endl;
     if (_options.with_print_description())
       _fn->describe(x, std::cout);
     exit(0);
-- 
2.43.0


From 8c6a8c976037fa64054935ff52041f0a0db75e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 54/58] fix: maps and functions which cannot be used are
 reported

---
 lib/hnco/app/decorated-function-factory.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index f1d515f..a99f191 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -47,7 +47,7 @@ void load_map(T *map, const HncoOptions& options)
     boost::archive::text_iarchive archive(ifs);
     archive >> (*map);
   }
-  catch (boost::archive::archive_exception& e) {
+  catch (const std::exception& e) {
     throw std::runtime_error(e.what());
   }
 }
@@ -100,7 +100,7 @@ make_map(const HncoOptions& options, int bv_size)
         boost::archive::text_iarchive ia(ifs);
         ia >> (*permutation) >> (*translation);
       }
-      catch (boost::archive::archive_exception& e) {
+      catch (const std::exception& e) {
         throw std::runtime_error(e.what());
       }
     }
@@ -202,7 +202,8 @@ DecoratedFunctionFactory::make_function()
               << function->get_bv_size() << std::endl;
   }
 
-  assert(function->get_bv_size() > 0);
+  if (function->get_bv_size() <= 0)
+    throw std::runtime_error("DecoratedFunctionFactory::make_function: Empty function");
 
   return function;
 }
-- 
2.43.0


From fd1997bf3009951298e775fa2e66152ef1db133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 55/58] fix: mapgen reports maps which cannot be saved

---
 app/mapgen.cc | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/app/mapgen.cc b/app/mapgen.cc
index 100035a..1419651 100644
--- a/app/mapgen.cc
+++ b/app/mapgen.cc
@@ -42,10 +42,8 @@ void generate_map(MapgenOptions& options)
   case 1: {
     Translation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing translation to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -53,10 +51,8 @@ void generate_map(MapgenOptions& options)
   case 2: {
     Permutation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -67,9 +63,15 @@ void generate_map(MapgenOptions& options)
     permutation.random(options.get_output_size());
     translation.random(options.get_output_size());
     std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
+    if (!stream.good())
+      throw std::runtime_error("generate_map: Cannot open " + options.get_path());
     std::cout << "Writing permutation and translation to " << options.get_path() << " ... ";
-    archive << permutation << translation;
+    {
+      boost::archive::text_oarchive archive(stream);
+      archive << permutation << translation;
+    }
+    if (!stream.good())
+      throw std::runtime_error("generate_map: Cannot write " + options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -77,10 +79,8 @@ void generate_map(MapgenOptions& options)
   case 4: {
     LinearMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing linear map to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -88,10 +88,8 @@ void generate_map(MapgenOptions& options)
   case 5: {
     AffineMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
@@ -103,10 +101,8 @@ void generate_map(MapgenOptions& options)
     map.random(options.get_input_size(),
                options.get_ts_length(),
                options.get_ts_sampling_mode());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map (transvection sequence) to " << options.get_path() << " ... ";
-    archive << map;
+    map.save(options.get_path());
     std::cout << "done" << std::endl;
     break;
   }
-- 
2.43.0


From 1600ec5cdbcd1b93bbaaeed6971b93749816caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:55 +0000
Subject: [PATCH 56/58] fix: HBOA, LTGA and P3 maximize functions with large
 negative values

---
 lib/fast-efficient-p3/MiddleLayer.cpp | 2 +-
 lib/fast-efficient-p3/MiddleLayer.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fast-efficient-p3/MiddleLayer.cpp b/lib/fast-efficient-p3/MiddleLayer.cpp
index d539936..a1489b4 100644
--- a/lib/fast-efficient-p3/MiddleLayer.cpp
+++ b/lib/fast-efficient-p3/MiddleLayer.cpp
@@ -11,7 +11,7 @@ float Middle_Layer::evaluate(const vector<bool>& solution) {
   evaluations++;
   float fitness = evaluator->evaluate(solution);
   // keeps track of improvements in best found fitness
-  if (best_fitness < fitness) {
+  if (best_solution.empty() || best_fitness < fitness) {
     best_fitness = fitness;
     best_solution = solution;
     best_found = evaluations;
diff --git a/lib/fast-efficient-p3/MiddleLayer.h b/lib/fast-efficient-p3/MiddleLayer.h
index 6c7710c..f6a7c6d 100644
--- a/lib/fast-efficient-p3/MiddleLayer.h
+++ b/lib/fast-efficient-p3/MiddleLayer.h
@@ -30,7 +30,7 @@ class Middle_Layer : public Evaluator {
   Middle_Layer(Configuration& config, shared_ptr<Evaluator> evaler,
                bool top_layer = true)
       : evaluations(0),
-        best_fitness(std::numeric_limits<int>::min()),
+        best_fitness(-std::numeric_limits<float>::infinity()),
         best_found(0),
         results(config),
         outfile(config.get<string>("solution_file")),
-- 
2.43.0


From 2fc798d5ca225820445b50cd8f84cf78c51b273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 57/58] fix: Human stops at the end of its input

---
 lib/hnco/algorithms/human.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/human.cc b/lib/hnco/algorithms/human.cc
index 3e5815a..949b659 100644
--- a/lib/hnco/algorithms/human.cc
+++ b/lib/hnco/algorithms/human.cc
@@ -37,8 +37,7 @@ Human::parse_bit_vector()
   do {
     std::string str;
     std::cout << "bv? ";
-    std::cin >> str;
-    if (str == "quit")
+    if (!(std::cin >> str) || str == "quit")
       throw LastEvaluation();
     _candidate = bv_from_string(str);
     if (int(_candidate.size()) < get_bv_size())
-- 
2.43.0


From af3d94afc95bb77f9874f617d9c7ed93e19301b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:52 +0000
Subject: [PATCH 58/58] fix: Python objects keep alive the objects they are
 built on

---
 bindings/hnco.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/bindings/hnco.cc b/bindings/hnco.cc
index b9a78b0..2727489 100644
--- a/bindings/hnco.cc
+++ b/bindings/hnco.cc
@@ -408,7 +408,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
 
     py::class_<MapComposition, Map>(m_map, "MapComposition")
       .def(py::init<>())
-      .def(py::init<Map *, Map *>())
+      .def(py::init<Map *, Map *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<Injection, Map>(m_map, "Injection")
@@ -649,7 +649,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
            std::vector<FloatRep>,
            std::vector<ComplexRep>,
            std::vector<LinearCategoricalRepresentation>,
-           std::vector<PermutationRepresentation>>())
+           std::vector<PermutationRepresentation>>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<UniversalFunction, PyUniversalFunction>(m_fn, "UniversalFunction")
@@ -677,28 +677,28 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Controller, function::Decorator>(m_ctrl, "Controller");
 
     py::class_<StopOnTarget, Controller>(m_ctrl, "StopOnTarget")
-      .def(py::init<function::Function *, double>())
+      .def(py::init<function::Function *, double>(), py::keep_alive<1, 2>())
       .def("get_trigger", &StopOnTarget::get_trigger)
       ;
 
     py::class_<StopOnMaximum, StopOnTarget>(m_ctrl, "StopOnMaximum")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<CallCounter, Controller>(m_ctrl, "CallCounter")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("get_num_calls", &CallCounter::get_num_calls)
       ;
 
     py::class_<OnBudgetFunction, CallCounter>(m_ctrl, "OnBudgetFunction")
-      .def(py::init<function::Function *, int>())
+      .def(py::init<function::Function *, int>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<ProgressTracker::Event>(m_ctrl, "Event")
       ;
 
     py::class_<ProgressTracker, CallCounter>(m_ctrl, "ProgressTracker")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("set_log_improvement", &ProgressTracker::set_log_improvement)
       .def("set_record_evaluation_time", &ProgressTracker::set_record_evaluation_time)
       .def("get_evaluation_time", &ProgressTracker::get_evaluation_time)
@@ -706,7 +706,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
       ;
 
     py::class_<Cache, Controller>(m_ctrl, "Cache")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("get_lookup_ratio", &Cache::get_lookup_ratio)
       ;
 
@@ -725,23 +725,23 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Modifier, function::Decorator>(m_mod, "Modifier");
 
     py::class_<AdditiveGaussianNoise, Modifier>(m_mod, "AdditiveGaussianNoise")
-      .def(py::init<function::Function *, double>())
+      .def(py::init<function::Function *, double>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<FunctionMapComposition, Modifier>(m_mod, "FunctionMapComposition")
-      .def(py::init<function::Function *, Map *>())
+      .def(py::init<function::Function *, Map *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<OppositeFunction, Modifier>(m_mod, "OppositeFunction")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<ParsedModifier, Modifier>(m_mod, "ParsedModifier")
-      .def(py::init<function::Function *, std::string>())
+      .def(py::init<function::Function *, std::string>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<PriorNoise, Modifier>(m_mod, "PriorNoise")
-      .def(py::init<function::Function *, neighborhood::Neighborhood *>())
+      .def(py::init<function::Function *, neighborhood::Neighborhood *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
   }
@@ -861,16 +861,16 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<LocalSearchAlgorithm<neighborhood::Neighborhood>, IterativeAlgorithm>(m_algo, "LocalSearchAlgorithm");
 
     py::class_<RandomWalk, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "RandomWalk")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<RandomLocalSearch, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "RandomLocalSearch")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       .def("set_patience", &RandomLocalSearch::set_patience)
       ;
 
     py::class_<SimulatedAnnealing, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "SimulatedAnnealing")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       .def("set_num_transitions", &SimulatedAnnealing::set_num_transitions)
       .def("set_num_trials", &SimulatedAnnealing::set_num_trials)
       .def("set_initial_acceptance_probability", &SimulatedAnnealing::set_initial_acceptance_probability)
@@ -1105,7 +1105,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
            std::vector<FloatRep>,
            std::vector<ComplexRep>,
            std::vector<LinearCategoricalRepresentation>,
-           std::vector<PermutationRepresentation>>())
+           std::vector<PermutationRepresentation>>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<UniversalFunction, PyUniversalFunction>(m_multi_fn, "UniversalFunction")
-- 
2.43.0

