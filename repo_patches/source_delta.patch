From 21b9c8f7bda1905ff701835c95f8380d57215fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 01/19] fix: start from fresh clause weights when a weighted
 estimator is fitted again

---
 lib/src/ta_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..9301ba3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -67,7 +67,7 @@ TAState::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
@@ -114,7 +114,7 @@ TAStateWithPolarity::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
-- 
2.43.0


From 8ab6469facc8f28941a09727f5c81a20aacf1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 02/19] fix: flip the bitwise include bit only when the
 automaton really moved

---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From 9e4f4e14b84bd556c6a2400ad6011e604aac0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 03/19] fix: refuse numbers of labels a classifier cannot be
 trained for

---
 lib/src/tsetlini.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..02b5afb 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -25,6 +25,8 @@
 #include <utility>
 #include <algorithm>
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <unordered_set>
 #include <string>
 #include <numeric>
@@ -183,6 +185,25 @@ status_message_t check_labels(std::unordered_set<label_type> const & labels, int
 }
 
 
+status_message_t check_number_of_labels(std::int64_t number_of_labels, params_t const & params)
+{
+    auto const number_of_clauses_per_label = value_of(Params::number_of_physical_classifier_clauses_per_label(params));
+
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "At least 2 labels are required, got " + std::to_string(number_of_labels)};
+    }
+    else if (number_of_labels > std::numeric_limits<int>::max() / number_of_clauses_per_label)
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "Too many labels, got " + std::to_string(number_of_labels)};
+    }
+
+    return {StatusCode::S_OK, ""};
+}
+
+
 auto unique_labels(label_vector_type const & y) -> std::unordered_set<label_type>
 {
     return std::unordered_set<label_type>(y.cbegin(), y.cend());
@@ -752,8 +773,8 @@ fit_classifier_impl(
 
     auto const labels = unique_labels(y);
 
-    int const number_of_labels = std::max(
-        *std::max_element(labels.cbegin(), labels.cend()) + 1,
+    auto const number_of_labels = std::max<std::int64_t>(
+        std::int64_t{*std::max_element(labels.cbegin(), labels.cend())} + 1,
         value_of(max_number_of_labels));
 
     if (auto sm = check_labels(labels);
@@ -762,10 +783,16 @@ fit_classifier_impl(
         return sm;
     }
 
+    if (auto sm = check_number_of_labels(number_of_labels, state.m_params);
+        sm.first != StatusCode::S_OK)
+    {
+        return sm;
+    }
+
     // Let it crash for now
 //    validate_params();
 
-    state.m_params["number_of_labels"] = param_value_t(number_of_labels);
+    state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
 
     int const number_of_features = X.front().size();
     state.m_params["number_of_features"] = param_value_t(number_of_features);
-- 
2.43.0


From 4e5bd4e5e44b92b0ee19e49d1a1b5e8c43b910c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 04/19] fix: validate the arguments of evaluate

---
 lib/src/tsetlini.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 02b5afb..3ec2242 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -417,7 +417,18 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+
+    if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From ab24b792ad5dd4c130d2f1dc18333b93bdcd2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 05/19] fix: keep scratch buffers of const queries out of the
 shared model state

---
 lib/src/tsetlini.cpp | 80 +++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 3ec2242..f8eb61d 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -441,30 +441,34 @@ evaluate_classifier_impl(
     auto const n_jobs = Params::n_jobs(params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(number_of_clause_outputs));
+    aligned_vector_int label_sum(value_of(number_of_labels));
+
     int errors = 0;
 
     for (auto it = 0u; it < number_of_examples; ++it)
     {
         calculate_clause_output_with_pruning(
             X[it],
-            state.cache.clause_output,
+            clause_output,
             number_of_clause_outputs,
             state.ta_state,
             n_jobs,
             clause_output_tile_size);
 
         sum_up_all_label_votes(
-            state.cache.clause_output,
+            clause_output,
             state.ta_state.weights,
-            state.cache.label_sum,
+            label_sum,
             number_of_labels,
             number_of_clause_outputs_per_label,
             threshold);
 
 
         const int max_class = std::distance(
-            state.cache.label_sum.cbegin(),
-            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));
+            label_sum.cbegin(),
+            std::max_element(label_sum.cbegin(), label_sum.cend()));
 
         errors += (max_class != y[it]);
     }
@@ -488,25 +492,29 @@ predict_classifier_impl(ClassifierStateType const & state, SampleType const & sa
     auto const n_jobs = Params::n_jobs(state.m_params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(state.m_params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(Params::number_of_classifier_clause_outputs(state.m_params)));
+    aligned_vector_int label_sum(value_of(Params::number_of_labels(state.m_params)));
+
     calculate_clause_output_with_pruning(
         sample,
-        state.cache.clause_output,
+        clause_output,
         Params::number_of_classifier_clause_outputs(state.m_params),
         state.ta_state,
         n_jobs,
         clause_output_tile_size);
 
     sum_up_all_label_votes(
-        state.cache.clause_output,
+        clause_output,
         state.ta_state.weights,
-        state.cache.label_sum,
+        label_sum,
         Params::number_of_labels(state.m_params),
         Params::number_of_classifier_clause_outputs_per_label(state.m_params),
         Params::threshold(state.m_params));
 
     label_type rv = std::distance(
-        state.cache.label_sum.cbegin(),
-        std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));
+        label_sum.cbegin(),
+        std::max_element(label_sum.cbegin(), label_sum.cend()));
 
     return Either<status_message_t, label_type>::rightOf(rv);
 }
@@ -525,15 +533,18 @@ predict_regressor_impl(RegressorStateType const & state, SampleType const & samp
     auto const n_jobs = Params::n_jobs(state.m_params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(state.m_params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(Params::number_of_regressor_clause_outputs(state.m_params)));
+
     calculate_clause_output_with_pruning(
         sample,
-        state.cache.clause_output,
+        clause_output,
         Params::number_of_regressor_clause_outputs(state.m_params),
         state.ta_state,
         n_jobs,
         clause_output_tile_size);
 
-    response_type rv = sum_up_regressor_votes(state.cache.clause_output, Params::threshold(state.m_params), state.ta_state.weights);
+    response_type rv = sum_up_regressor_votes(clause_output, Params::threshold(state.m_params), state.ta_state.weights);
 
     return Either<status_message_t, response_type>::rightOf(rv);
 }
@@ -562,30 +573,34 @@ predict_classifier_impl(ClassifierStateType const & state, std::vector<SampleTyp
     auto const n_jobs = Params::n_jobs(params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(number_of_clause_outputs));
+    aligned_vector_int label_sum(value_of(number_of_labels));
+
     label_vector_type rv(number_of_examples);
 
     for (auto it = 0u; it < number_of_examples; ++it)
     {
         calculate_clause_output_with_pruning(
             X[it],
-            state.cache.clause_output,
+            clause_output,
             number_of_clause_outputs,
             state.ta_state,
             n_jobs,
             clause_output_tile_size);
 
         sum_up_all_label_votes(
-            state.cache.clause_output,
+            clause_output,
             state.ta_state.weights,
-            state.cache.label_sum,
+            label_sum,
             number_of_labels,
             number_of_clause_outputs_per_label,
             threshold);
 
 
         const int max_class = std::distance(
-            state.cache.label_sum.cbegin(),
-            std::max_element(state.cache.label_sum.cbegin(), state.cache.label_sum.cend()));
+            label_sum.cbegin(),
+            std::max_element(label_sum.cbegin(), label_sum.cend()));
 
         rv[it] = max_class;
     }
@@ -615,24 +630,28 @@ predict_classifier_raw_impl(ClassifierStateType const & state, SampleType const
     auto const n_jobs = Params::n_jobs(params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(number_of_clause_outputs));
+    aligned_vector_int label_sum(value_of(number_of_labels));
+
 
     calculate_clause_output_with_pruning(
         sample,
-        state.cache.clause_output,
+        clause_output,
         number_of_clause_outputs,
         state.ta_state,
         n_jobs,
         clause_output_tile_size);
 
     sum_up_all_label_votes(
-        state.cache.clause_output,
+        clause_output,
         state.ta_state.weights,
-        state.cache.label_sum,
+        label_sum,
         number_of_labels,
         number_of_clause_outputs_per_label,
         threshold);
 
-    return Either<status_message_t, aligned_vector_int>::rightOf(state.cache.label_sum);
+    return Either<status_message_t, aligned_vector_int>::rightOf(label_sum);
 }
 
 
@@ -659,27 +678,31 @@ predict_classifier_raw_impl(ClassifierStateType const & state, std::vector<Sampl
     auto const n_jobs = Params::n_jobs(params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(number_of_clause_outputs));
+    aligned_vector_int label_sum(value_of(number_of_labels));
+
     std::vector<aligned_vector_int> rv(number_of_examples);
 
     for (auto it = 0u; it < number_of_examples; ++it)
     {
         calculate_clause_output_with_pruning(
             X[it],
-            state.cache.clause_output,
+            clause_output,
             number_of_clause_outputs,
             state.ta_state,
             n_jobs,
             clause_output_tile_size);
 
         sum_up_all_label_votes(
-            state.cache.clause_output,
+            clause_output,
             state.ta_state.weights,
-            state.cache.label_sum,
+            label_sum,
             number_of_labels,
             number_of_clause_outputs_per_label,
             threshold);
 
-        rv[it] = state.cache.label_sum;
+        rv[it] = label_sum;
     }
 
     return Either<status_message_t, std::vector<aligned_vector_int>>::rightOf(rv);
@@ -987,19 +1010,22 @@ predict_regressor_impl(RegressorStateType const & state, std::vector<SampleType>
     auto const n_jobs = Params::n_jobs(params);
     auto const clause_output_tile_size = Params::clause_output_tile_size(params);
 
+    // scratch buffers are local, so that a model can be queried concurrently
+    aligned_vector_char clause_output(value_of(number_of_clause_outputs));
+
     response_vector_type rv(number_of_examples);
 
     for (auto it = 0u; it < number_of_examples; ++it)
     {
         calculate_clause_output_with_pruning(
             X[it],
-            state.cache.clause_output,
+            clause_output,
             number_of_clause_outputs,
             state.ta_state,
             n_jobs,
             clause_output_tile_size);
 
-        auto const votes = sum_up_regressor_votes(state.cache.clause_output, threshold, state.ta_state.weights);
+        auto const votes = sum_up_regressor_votes(clause_output, threshold, state.ta_state.weights);
 
         rv[it] = votes;
     }
-- 
2.43.0


From 5cef1afc78bb29222ad346bd92faa7f95fcdc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 06/19] fix: compute feedback probabilities without integer
 overflow for large thresholds

---
 lib/src/tsetlini_algo_classic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..279c76d 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,9 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    const auto THR2_inv = (ONE / (std::int64_t{value_of(threshold)} * 2));
+    const auto THR_pos = THR2_inv * (std::int64_t{value_of(threshold)} - target_label_votes);
+    const auto THR_neg = THR2_inv * (std::int64_t{value_of(threshold)} + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 7d826f5222787376691532b4e2b295a24cfc4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/19] fix: keep the number of regressor feedback hits between
 none and all clauses

---
 lib/src/box_muller_approx.cpp     | 5 +++--
 lib/src/tsetlini_algo_bitwise.hpp | 3 ++-
 lib/src/tsetlini_algo_classic.hpp | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..04a60e6 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,10 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
 
-    return std::clamp(rv, 0u, n);
+    // negative values cannot be converted to unsigned int
+    return std::min(static_cast<unsigned int>(std::max(0.f, rv)), n);
 }
 
 
diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 9f761e2..9e1966d 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1033,7 +1033,8 @@ void train_regressor_automata(
     auto const number_of_features = number_of_features_t{X.size()};
 
     unsigned int const N = input_end_ix - input_begin_ix;
-    real_type const P = loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold));
+    // some of the loss functions can leave the [0, 1] range
+    real_type const P = std::clamp(loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold)), ZERO, ONE);
     /*
      * For sparse feedback if N * P >= 0.5 we will just round the number of hits,
      * else we will pick either 0 or 1 with probability proportional to P.
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 279c76d..0112f73 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -775,7 +775,8 @@ void train_regressor_automata(
     auto const number_of_features = number_of_features_t{X.size()};
 
     unsigned int const N = input_end_ix - input_begin_ix;
-    real_type const P = loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold));
+    // some of the loss functions can leave the [0, 1] range
+    real_type const P = std::clamp(loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold)), ZERO, ONE);
     /*
      * For sparse feedback if N * P >= 0.5 we will just round the number of hits,
      * else we will pick either 0 or 1 with probability proportional to P.
-- 
2.43.0


From f1753ffd30b47e1167b13419fbf39d7b69e36dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 08/19] fix: never throw from the destructor of a log record

---
 lib/src/logger.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/logger.hpp b/lib/src/logger.hpp
index 78588d1..1bde562 100644
--- a/lib/src/logger.hpp
+++ b/lib/src/logger.hpp
@@ -69,7 +69,14 @@ public:
     {
         if (log <= level)
         {
-            log_type::log(stream_.str());
+            // destructors must not throw; a failure to log is not worth dying for
+            try
+            {
+                log_type::log(stream_.str());
+            }
+            catch (...)
+            {
+            }
         }
     }
 
-- 
2.43.0


From e3075644d452d71932d4921e47927efbebad0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 09/19] fix: a fit that fails leaves the model as it was

---
 lib/src/tsetlini.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index f8eb61d..13b7073 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -826,12 +826,17 @@ fit_classifier_impl(
     // Let it crash for now
 //    validate_params();
 
-    state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
+    // prepare everything aside, so that a failure leaves the model as it was
+    ClassifierStateType fresh_state(state.m_params);
+
+    fresh_state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
 
     int const number_of_features = X.front().size();
-    state.m_params["number_of_features"] = param_value_t(number_of_features);
+    fresh_state.m_params["number_of_features"] = param_value_t(number_of_features);
+
+    initialize_state(fresh_state);
 
-    initialize_state(state);
+    state = std::move(fresh_state);
 
     return fit_classifier_online_impl(state, state.ta_state, X, y, epochs);
 }
@@ -980,10 +985,15 @@ fit_regressor_impl(
     // Let it crash for now
 //    validate_params();
 
+    // prepare everything aside, so that a failure leaves the model as it was
+    RegressorStateType fresh_state(state.m_params);
+
     int const number_of_features = X.front().size();
-    state.m_params["number_of_features"] = param_value_t(number_of_features);
+    fresh_state.m_params["number_of_features"] = param_value_t(number_of_features);
+
+    initialize_state(fresh_state);
 
-    initialize_state(state);
+    state = std::move(fresh_state);
 
     return fit_regressor_online_impl(state, state.ta_state, X, y, epochs);
 }
-- 
2.43.0


From e58252b30ef3389c81362be83ecf43d7364865f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 10/19] fix: validate a saved state before it replaces the one
 it is restored into

---
 lib/src/tsetlini_state_json.cpp | 309 +++++++++++++++++++++-----------
 1 file changed, 208 insertions(+), 101 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..50181ee 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -2,21 +2,37 @@
 #include "tsetlini_state_json.hpp"
 #include "tsetlini_types.hpp"
 #include "tsetlini_params.hpp"
+#include "tsetlini_status_code.hpp"
 #include "tsetlini_estimator_state_private.hpp"
 #include "params_companion.hpp"
 
 #include "json/json.hpp"
 #include "strong_type/strong_type.hpp"
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <iterator>
+#include <utility>
 #include <vector>
 #include <optional>
 
 
+using namespace std::string_literals;
 using json = nlohmann::json;
 
 
+static void require(bool const condition, char const * message)
+{
+    if (not condition)
+    {
+        throw std::invalid_argument("cannot restore estimator state: "s + message);
+    }
+}
+
+
 static void to_json(json & j, IRNG const & p)
 {
     std::vector<IRNG::value_type> res(p.RESp(), p.RESp() + p.MTSZ * p.NS);
@@ -32,10 +48,14 @@ static void from_json(json const & j, IRNG & p)
 
     std::vector<IRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    require(p.index < p.MTSZ * p.NS and res.size() == p.MTSZ * p.NS and mt.size() == p.MTSZ * p.NS,
+        "inconsistent state of pseudo-random number generator");
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -55,10 +75,17 @@ static void from_json(json const & j, FRNG & p)
 
     std::vector<FRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    require(p.index < p.MTSZ * p.NS and res.size() == p.MTSZ * p.NS and mt.size() == p.MTSZ * p.NS,
+        "inconsistent state of pseudo-random number generator");
+
+    require(std::all_of(res.cbegin(), res.cend(), [](auto v){ return v >= 0 and v <= 1; }),
+        "pseudo-random number out of range");
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -100,8 +127,10 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     std::size_t width = 0u;
     j.at("width").get_to(width);
 
+    require(j.at("data").is_array(), "TA states are not an array of rows");
+
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    auto const nc = nr != 0 ? j.at("data")[0].size() : 0u;
 
     if (width == 1)
     {
@@ -111,20 +140,36 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     {
         p = Tsetlini::numeric_matrix_int16(nr, nc);
     }
-    else // if (width == 4)
+    else
     {
+        require(width == 4, "unknown width of TA states");
         p = Tsetlini::numeric_matrix_int32(nr, nc);
     }
 
     std::visit([&](auto & p)
         {
+            using value_type = typename std::decay<decltype(p)>::type::value_type;
+
             auto const & data = j["data"];
 
             for (auto rit = 0u; rit < nr; ++rit)
             {
+                require(data[rit].is_array() and data[rit].size() == nc, "rows of TA states differ in length");
+
                 auto row_data = p.row_data(rit);
 
-                std::copy(data[rit].cbegin(), data[rit].cend(), row_data);
+                std::transform(data[rit].cbegin(), data[rit].cend(), row_data,
+                    [](auto const & v)
+                    {
+                        require(v.is_number_integer(), "TA state is not an integer");
+
+                        auto const ta = v.template get<std::int64_t>();
+
+                        require(ta >= std::numeric_limits<value_type>::min() and ta <= std::numeric_limits<value_type>::max(),
+                            "TA state does not fit its type");
+
+                        return static_cast<value_type>(ta);
+                    });
             }
         }, p);
 }
@@ -152,6 +197,12 @@ static void from_json(json const & j, Tsetlini::bit_matrix<T> & p)
     unsigned int cols = 0;
     j.at("cols").get_to(cols);
 
+    // check the size before memory is allocated for what the document claims
+    auto constexpr alignment_bits = std::uint64_t{8} * Tsetlini::bit_matrix<T>::alignment;
+    auto const row_blocks = (cols + alignment_bits - 1) / alignment_bits * (alignment_bits / Tsetlini::bit_matrix<T>::block_bits);
+    require(j.at("data").is_array() and j.at("data").size() == rows * row_blocks,
+        "dimensions of bit matrix do not match its data");
+
     p = Tsetlini::bit_matrix<T>(rows, cols);
 
     p.m_v.clear(); // we need to clear the vector because get_to appends data
@@ -280,6 +331,154 @@ namespace Tsetlini
 {
 
 
+/*
+ * Estimator params of a stored state go through the same validation
+ * as those a user would provide.
+ */
+static params_t restore_params(json const & js, bool const is_classifier)
+{
+    require(js.is_object(), "params are not a dictionary");
+    require(js.at("random_state").is_number_integer(), "missing value of random_state");
+
+    auto const internal_params = {"number_of_labels", "number_of_features"};
+
+    auto user_params = js;
+
+    for (auto const & name : internal_params)
+    {
+        user_params.erase(name);
+    }
+
+    params_t params;
+
+    (is_classifier ? make_classifier_params_from_json(user_params.dump()) : make_regressor_params_from_json(user_params.dump()))
+        .leftMap([](status_message_t && sm){ require(false, sm.second.c_str()); return std::move(sm); })
+        .rightMap([&params](params_t && p){ params = p; return std::move(p); });
+
+    for (auto const & name : internal_params)
+    {
+        params.erase(name);
+
+        if (js.contains(name))
+        {
+            require(js[name].is_null() or js[name].is_number_integer(), "wrong type of internal parameter");
+
+            params[name] = js[name].is_null() ? param_value_t(std::nullopt) : param_value_t(js[name].get<int>());
+        }
+    }
+
+    require(params.size() == js.size(), "some of the params are missing");
+
+    return params;
+}
+
+
+template<typename EstimatorStateType>
+static void check_dimensions(EstimatorStateType const & state, std::int64_t const number_of_rows)
+{
+    auto const & params = state.m_params;
+    auto const number_of_states = value_of(Params::number_of_states(params));
+    std::size_t const number_of_weights = Params::weighted(params) == true ? number_of_rows / 2 : 0;
+
+    std::visit([&](auto const & matrix)
+        {
+            using value_type = typename std::decay<decltype(matrix)>::type::value_type;
+
+            require(matrix.rows() == number_of_rows, "number of clauses does not match");
+            require(number_of_rows == 0 or matrix.cols() == value_of(Params::number_of_features(params)), "number of features does not match");
+            require(number_of_states <= std::numeric_limits<value_type>::max(), "number_of_states does not fit type of TA states");
+
+            for (auto rit = 0u; rit < matrix.rows(); ++rit)
+            {
+                auto const row_data = matrix.row_data(rit);
+
+                require(std::all_of(row_data, row_data + matrix.cols(),
+                    [number_of_states](auto v){ return v >= -number_of_states and v < number_of_states; }),
+                    "TA state out of range");
+            }
+        }, state.ta_state.matrix);
+
+    auto const & weights = state.ta_state.weights;
+
+    require(weights.size() == number_of_weights, "number of weights does not match");
+    require(std::all_of(weights.cbegin(), weights.cend(),
+        [max_weight = value_of(Params::max_weight(params))](std::int64_t v){ return v < max_weight; }),
+        "weight out of range");
+}
+
+
+static void check_polarity(TAState::value_type const &)
+{
+}
+
+
+static void check_polarity(TAStateWithPolarity::value_type const & ta_state)
+{
+    std::visit([&](auto const & matrix)
+        {
+            bit_matrix_uint64 polarity(matrix.rows(), matrix.cols());
+
+            for (auto rit = 0u; rit < matrix.rows(); ++rit)
+            {
+                for (auto cit = 0u; cit < matrix.cols(); ++cit)
+                {
+                    if (matrix.row_data(rit)[cit] >= 0)
+                    {
+                        polarity.set(rit, cit);
+                    }
+                }
+            }
+
+            require(polarity == ta_state.polarity, "polarity does not match TA states");
+        }, ta_state.matrix);
+}
+
+
+template<typename EstimatorStateType>
+static void restore_state(EstimatorStateType & state, std::string const & jss, std::string const & estimator, std::string const & algo)
+{
+    auto js = json::parse(jss);
+
+    require(js.at("estimator") == estimator and js.at("algo") == algo, "it was saved by another kind of estimator");
+
+    bool const is_classifier = estimator == "classifier";
+
+    // restore aside, so that a failure leaves the passed state as it was
+    EstimatorStateType restored(restore_params(js.at("params"), is_classifier));
+
+    restored.igen = js.at("igen").get<IRNG>();
+    restored.fgen = js.at("fgen").get<FRNG>();
+    js.at("ta_state").get_to(restored.ta_state);
+
+    auto const & params = restored.m_params;
+
+    if (auto const it = params.find("number_of_features"); it != params.cend() and std::holds_alternative<int>(it->second))
+    {
+        require(value_of(Params::number_of_features(params)) >= 0, "negative number of features");
+
+        auto const number_of_labels = is_classifier ? value_of(Params::number_of_labels(params)) : 1;
+        auto const number_of_clauses = is_classifier
+            ? value_of(Params::number_of_physical_classifier_clauses_per_label(params))
+            : value_of(Params::number_of_physical_regressor_clauses(params));
+
+        require(not is_classifier or number_of_labels > 1, "too few labels");
+
+        check_dimensions(restored, std::int64_t{number_of_labels} * number_of_clauses);
+        check_polarity(restored.ta_state);
+
+        reset_state_cache(restored);
+    }
+    else
+    {
+        // estimator has not been fitted
+        check_dimensions(restored, 0);
+        check_polarity(restored.ta_state);
+    }
+
+    state = std::move(restored);
+}
+
+
 std::string to_json_string(ClassifierStateClassic const & state)
 {
     json js;
@@ -298,30 +497,7 @@ std::string to_json_string(ClassifierStateClassic const & state)
 
 void from_json_string(ClassifierStateClassic & state, std::string const & jss)
 {
-    auto js = json::parse(jss);
-
-    state.igen = js.at("igen").get<IRNG>();
-    state.fgen = js.at("fgen").get<FRNG>();
-    state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateClassic::ta_state_type::value_type>();
-    state.m_params = js.at("params").get<params_t>();
-
-    // So, we need a hack, since stringified json doesn't distinguish
-    // between signed and unsigned types for integer values > 0.
-    // most of our params are signed integers, as wrapped
-    // by std::variant, except for "random_state".
-    // Json parser will report them as unsigned.
-    // Here we will re-cast those integers as signed (contrary to json
-    // enumeration).
-    for (auto & [k, v]: state.m_params)
-    {
-        if (std::holds_alternative<seed_type>(v) and k != "random_state")
-        {
-            state.m_params[k] = static_cast<int>(std::get<seed_type>(v));
-        }
-    }
-    // end-of-hack
-
-    reset_state_cache(state);
+    restore_state(state, jss, "classifier", "classic");
 }
 
 
@@ -343,30 +519,7 @@ std::string to_json_string(RegressorStateClassic const & state)
 
 void from_json_string(RegressorStateClassic & state, std::string const & jss)
 {
-    auto js = json::parse(jss);
-
-    state.igen = js.at("igen").get<IRNG>();
-    state.fgen = js.at("fgen").get<FRNG>();
-    state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateClassic::ta_state_type::value_type>();
-    state.m_params = js.at("params").get<params_t>();
-
-    // So, we need a hack, since stringified json doesn't distinguish
-    // between signed and unsigned types for integer values > 0.
-    // most of our params are signed integers, as wrapped
-    // by std::variant, except for "random_state".
-    // Json parser will report them as unsigned.
-    // Here we will re-cast those integers as signed (contrary to json
-    // enumeration).
-    for (auto & [k, v]: state.m_params)
-    {
-        if (std::holds_alternative<seed_type>(v) and k != "random_state")
-        {
-            state.m_params[k] = static_cast<int>(std::get<seed_type>(v));
-        }
-    }
-    // end-of-hack
-
-    reset_state_cache(state);
+    restore_state(state, jss, "regressor", "classic");
 }
 
 
@@ -388,30 +541,7 @@ std::string to_json_string(RegressorStateBitwise const & state)
 
 void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
 {
-    auto js = json::parse(jss);
-
-    state.igen = js.at("igen").get<IRNG>();
-    state.fgen = js.at("fgen").get<FRNG>();
-    state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateBitwise::ta_state_type::value_type>();
-    state.m_params = js.at("params").get<params_t>();
-
-    // So, we need a hack, since stringified json doesn't distinguish
-    // between signed and unsigned types for integer values > 0.
-    // most of our params are signed integers, as wrapped
-    // by std::variant, except for "random_state".
-    // Json parser will report them as unsigned.
-    // Here we will re-cast those integers as signed (contrary to json
-    // enumeration).
-    for (auto & [k, v]: state.m_params)
-    {
-        if (std::holds_alternative<seed_type>(v) and k != "random_state")
-        {
-            state.m_params[k] = static_cast<int>(std::get<seed_type>(v));
-        }
-    }
-    // end-of-hack
-
-    reset_state_cache(state);
+    restore_state(state, jss, "classifier", "bitwise");
 }
 
 
@@ -433,30 +563,7 @@ std::string to_json_string(ClassifierStateBitwise const & state)
 
 void from_json_string(RegressorStateBitwise & state, std::string const & jss)
 {
-    auto js = json::parse(jss);
-
-    state.igen = js.at("igen").get<IRNG>();
-    state.fgen = js.at("fgen").get<FRNG>();
-    state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateBitwise::ta_state_type::value_type>();
-    state.m_params = js.at("params").get<params_t>();
-
-    // So, we need a hack, since stringified json doesn't distinguish
-    // between signed and unsigned types for integer values > 0.
-    // most of our params are signed integers, as wrapped
-    // by std::variant, except for "random_state".
-    // Json parser will report them as unsigned.
-    // Here we will re-cast those integers as signed (contrary to json
-    // enumeration).
-    for (auto & [k, v]: state.m_params)
-    {
-        if (std::holds_alternative<seed_type>(v) and k != "random_state")
-        {
-            state.m_params[k] = static_cast<int>(std::get<seed_type>(v));
-        }
-    }
-    // end-of-hack
-
-    reset_state_cache(state);
+    restore_state(state, jss, "regressor", "bitwise");
 }
 
 
-- 
2.43.0


From 4d1f160d297e14d534c9c8c264c0a388a0163e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 11/19] fix: report values of wrong type in a configuration
 document as bad JSON

---
 lib/src/tsetlini_params.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..79761b8 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -84,7 +84,7 @@ json_parse(std::string const & json_params)
     {
         return Either<status_message_t, json>::rightOf(json::parse(json_params));
     }
-    catch (const std::exception & ex)
+    catch (const json::exception & ex)
     {
         return Either<status_message_t, json>::leftOf({S_BAD_JSON, ex.what()});
     }
@@ -127,6 +127,7 @@ assert_json_dictionary(json const & js)
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
+try
 {
     params_t rv;
 
@@ -182,6 +183,11 @@ json_to_params(json const & js)
 
     return Either<status_message_t, params_t>::rightOf(rv);
 }
+catch (json::exception const & ex)
+{
+    // value of wrong type
+    return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
+}
 
 
 static
-- 
2.43.0


From ea75b4ddf592747bdc791324b3f3532aefedf35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 12/19] fix: do not terminate when memory runs out while a JSON
 document is released

---
 lib/src/json/json.hpp | 76 ++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/lib/src/json/json.hpp b/lib/src/json/json.hpp
index 4d1a37a..2126a5f 100644
--- a/lib/src/json/json.hpp
+++ b/lib/src/json/json.hpp
@@ -19733,50 +19733,58 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
         {
             if (t == value_t::array || t == value_t::object)
             {
-                // flatten the current json_value to a heap-allocated stack
-                std::vector<basic_json> stack;
-
-                // move the top-level items to stack
-                if (t == value_t::array)
-                {
-                    stack.reserve(array->size());
-                    std::move(array->begin(), array->end(), std::back_inserter(stack));
-                }
-                else
+                JSON_TRY
                 {
-                    stack.reserve(object->size());
-                    for (auto&& it : *object)
-                    {
-                        stack.push_back(std::move(it.second));
-                    }
-                }
+                    // flatten the current json_value to a heap-allocated stack
+                    std::vector<basic_json> stack;
 
-                while (!stack.empty())
-                {
-                    // move the last item to local variable to be processed
-                    basic_json current_item(std::move(stack.back()));
-                    stack.pop_back();
-
-                    // if current_item is array/object, move
-                    // its children to the stack to be processed later
-                    if (current_item.is_array())
+                    // move the top-level items to stack
+                    if (t == value_t::array)
                     {
-                        std::move(current_item.m_value.array->begin(), current_item.m_value.array->end(), std::back_inserter(stack));
-
-                        current_item.m_value.array->clear();
+                        stack.reserve(array->size());
+                        std::move(array->begin(), array->end(), std::back_inserter(stack));
                     }
-                    else if (current_item.is_object())
+                    else
                     {
-                        for (auto&& it : *current_item.m_value.object)
+                        stack.reserve(object->size());
+                        for (auto&& it : *object)
                         {
                             stack.push_back(std::move(it.second));
                         }
-
-                        current_item.m_value.object->clear();
                     }
 
-                    // it's now safe that current_item get destructed
-                    // since it doesn't have any children
+                    while (!stack.empty())
+                    {
+                        // move the last item to local variable to be processed
+                        basic_json current_item(std::move(stack.back()));
+                        stack.pop_back();
+
+                        // if current_item is array/object, move
+                        // its children to the stack to be processed later
+                        if (current_item.is_array())
+                        {
+                            std::move(current_item.m_value.array->begin(), current_item.m_value.array->end(), std::back_inserter(stack));
+
+                            current_item.m_value.array->clear();
+                        }
+                        else if (current_item.is_object())
+                        {
+                            for (auto&& it : *current_item.m_value.object)
+                            {
+                                stack.push_back(std::move(it.second));
+                            }
+
+                            current_item.m_value.object->clear();
+                        }
+
+                        // it's now safe that current_item get destructed
+                        // since it doesn't have any children
+                    }
+                }
+                JSON_CATCH (const std::bad_alloc&)
+                {
+                    // no memory for the stack: what has not been moved to it is
+                    // destroyed recursively below
                 }
             }
 
-- 
2.43.0


From 227bededdacc7a404d7e893cc0a79722cb237e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 13/19] fix: release a partially built JSON value when memory
 runs out

---
 lib/src/json/json.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/src/json/json.hpp b/lib/src/json/json.hpp
index 2126a5f..6e72e52 100644
--- a/lib/src/json/json.hpp
+++ b/lib/src/json/json.hpp
@@ -19731,6 +19731,15 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
 
         void destroy(value_t t)
         {
+            if ((t == value_t::object && object == nullptr) ||
+                    (t == value_t::array && array == nullptr) ||
+                    (t == value_t::string && string == nullptr) ||
+                    (t == value_t::binary && binary == nullptr))
+            {
+                // not created, there was no memory for it
+                return;
+            }
+
             if (t == value_t::array || t == value_t::object)
             {
                 JSON_TRY
@@ -20002,6 +20011,19 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
         assert_invariant();
     }
 
+    /// releases what a constructor has built so far when the constructor throws
+    struct partial_value_guard
+    {
+        basic_json* value;
+        ~partial_value_guard()
+        {
+            if (value != nullptr)
+            {
+                value->m_value.destroy(value->m_type);
+            }
+        }
+    };
+
     /// @brief create a JSON value from compatible types
     /// @sa https://json.nlohmann.me/api/basic_json/basic_json/
     template < typename CompatibleType,
@@ -20012,7 +20034,9 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
                 JSONSerializer<U>::to_json(std::declval<basic_json_t&>(),
                                            std::forward<CompatibleType>(val))))
     {
+        partial_value_guard guard{this};
         JSONSerializer<U>::to_json(*this, std::forward<CompatibleType>(val));
+        guard.value = nullptr;
         set_parents();
         assert_invariant();
     }
@@ -20103,6 +20127,8 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
             }
         }
 
+        partial_value_guard guard{this};
+
         if (is_an_object)
         {
             // the initializer list is a list of pairs -> create object
@@ -20124,6 +20150,7 @@ class basic_json // NOLINT(cppcoreguidelines-special-member-functions,hicpp-spec
             m_value.array = create<array_t>(init.begin(), init.end());
         }
 
+        guard.value = nullptr;
         set_parents();
         assert_invariant();
     }
-- 
2.43.0


From fb0fc55e67d353e951e0de1a94973a26ad997ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:11 +0000
Subject: [PATCH 14/19] fix: look at every block when checking that padding
 bits are cleared

A bit vector may own more blocks than its content needs. Only the last block was
inspected then, with a shift count that had wrapped around, so that rows with
uncleared padding were accepted.
---
 lib/src/tsetlini.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 13b7073..7807560 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -72,17 +72,21 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
+    auto const n_blocks = vec.content_blocks();
 
-    if (padding_nbits != 0)
+    if (vec.tail_bits() != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << vec.tail_bits();
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[n_blocks - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    /* vector may own more blocks than its content needs */
+    return std::all_of(vec.m_vector.cbegin() + n_blocks, vec.m_vector.cend(),
+        [](block_type const block){ return block == 0; });
 }
 
 
-- 
2.43.0


From 3e77534cd1611ad783aec8c7b448597b66a695b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 15/19] fix: do not copy a parsed configuration document

Copying a JSON value recurses once per nesting level, so reading a
configuration whose value is nested very deeply overflowed the stack
instead of being refused. Move the parsed document and refer to its
values instead.
---
 lib/src/tsetlini_params.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 79761b8..c7ef86a 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -8,6 +8,7 @@
 
 #include <optional>
 #include <string>
+#include <utility>
 #include <exception>
 #include <thread>
 #include <algorithm>
@@ -111,11 +112,11 @@ params_t merge(LHS && lhs, RHS && rhs)
  */
 static
 Either<status_message_t, json>
-assert_json_dictionary(json const & js)
+assert_json_dictionary(json js)
 {
     if (js.is_object())
     {
-        return Either<status_message_t, json>::rightOf(js);
+        return Either<status_message_t, json>::rightOf(std::move(js));
     }
     else
     {
@@ -134,7 +135,7 @@ try
     for (auto const & kv : js.items())
     {
         auto const key = kv.key();
-        auto const value = kv.value();
+        auto const & value = kv.value();
 
         if (
             (key == "number_of_clauses_per_label") or
-- 
2.43.0


From 244006624395e9fda23c4493244a74b39caae20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 16/19] fix: never ask for more hits than there are coins

With more than 2^24 features the product of their number and 1/s was
rounded up to the next representable value, so that for s=1 more hits were
requested than there are coins, and tossing never ended.
---
 lib/src/coin_tosser_exact.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coin_tosser_exact.hpp b/lib/src/coin_tosser_exact.hpp
index 333a96f..68b3806 100644
--- a/lib/src/coin_tosser_exact.hpp
+++ b/lib/src/coin_tosser_exact.hpp
@@ -66,7 +66,8 @@ CoinTosserExact::CoinTosserExact()
 
 CoinTosserExact::CoinTosserExact(real_type s_inv, unsigned int size)
     : m_s_inv(s_inv)
-    , m_hits_floor(std::floor(size * s_inv))
+    // sizes above 2^24 may get rounded up when multiplied as floats
+    , m_hits_floor(std::min<unsigned int>(std::floor(size * s_inv), size))
     , m_hits_ceil_threshold(
         std::round(static_cast<double>(s_inv * size - std::floor(s_inv * size)) * std::numeric_limits<std::uint32_t>::max()))
     , m_cache1(size)
-- 
2.43.0


From 5e400e4cd361e60958f6546357a0928a9e730af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 17/19] fix: compute sizes of matrices in size_type

The product of the number of rows and of the row width was computed in 32
bits, so with 2^26 rows and more the matrix was allocated too small and
written out of bounds.
---
 lib/include/basic_bit_matrix.hpp     | 4 ++--
 lib/include/basic_numeric_matrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/basic_bit_matrix.hpp b/lib/include/basic_bit_matrix.hpp
index ca42081..4e8ede7 100644
--- a/lib/include/basic_bit_matrix.hpp
+++ b/lib/include/basic_bit_matrix.hpp
@@ -122,8 +122,8 @@ struct basic_bit_matrix
     basic_bit_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_row_blocks((m_ncols + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
-        , m_v(row_blocks() * nrows)
+        , m_row_blocks((size_type{m_ncols} + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
+        , m_v(row_offset(nrows))
     {
     }
 
diff --git a/lib/include/basic_numeric_matrix.hpp b/lib/include/basic_numeric_matrix.hpp
index 487490c..37f1fda 100644
--- a/lib/include/basic_numeric_matrix.hpp
+++ b/lib/include/basic_numeric_matrix.hpp
@@ -38,7 +38,7 @@ struct basic_numeric_matrix
     basic_numeric_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_v(row_items() * nrows)
+        , m_v(row_offset(nrows))
     {
     }
 
@@ -99,7 +99,7 @@ struct basic_numeric_matrix
 
     uint row_items() const
     {
-        auto const rv = (m_ncols * item_size + alignment - 1) / alignment * (alignment / item_size);
+        auto const rv = (size_type{m_ncols} * item_size + alignment - 1) / alignment * (alignment / item_size);
 
         return rv;
     }
-- 
2.43.0


From bae4f7543539cccdfd6f8b673f9c4fb197cedff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 18/19] fix: do not request more threads than there are clause
 outputs

n_jobs of tens of thousands made the OpenMP runtime fail to create the
threads, which ends the process.
---
 lib/src/tsetlini_algo_common.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini_algo_common.hpp b/lib/src/tsetlini_algo_common.hpp
index 742d16a..2d45a5f 100644
--- a/lib/src/tsetlini_algo_common.hpp
+++ b/lib/src/tsetlini_algo_common.hpp
@@ -11,6 +11,8 @@
 
 #include "strong_type/strong_type.hpp"
 
+#include <algorithm>
+
 
 namespace Tsetlini
 {
@@ -33,8 +35,8 @@ namespace Tsetlini
  *      @c numeric_matrix with 2 * @c number_of_clauses rows and
  *      @c number_of_features columns.
  *
- * @param n_jobs
- *      Number of parallel jobs.
+ * @param max_n_jobs
+ *      Maximum number of parallel jobs.
  *
  * @param TILE_SZ
  *      Positive integer {16, 32, 64, 128} that specifies batch size of
@@ -48,9 +50,12 @@ void calculate_clause_output(
     int const output_begin_ix,
     int const output_end_ix,
     TAStateType const & ta_state,
-    number_of_jobs_t const n_jobs,
+    number_of_jobs_t const max_n_jobs,
     clause_output_tile_size_t const TILE_SZ)
 {
+    // more threads than outputs would be idle, and the system may fail to create them
+    number_of_jobs_t const n_jobs{std::min(value_of(max_n_jobs), output_end_ix - output_begin_ix)};
+
     switch (value_of(TILE_SZ))
     {
         case 128:
@@ -107,9 +112,12 @@ void calculate_clause_output_with_pruning(
     aligned_vector_char & clause_output,
     number_of_estimator_clause_outputs_t const number_of_clause_outputs,
     TAStateType const & ta_state,
-    number_of_jobs_t const n_jobs,
+    number_of_jobs_t const max_n_jobs,
     clause_output_tile_size_t const TILE_SZ)
 {
+    // more threads than outputs would be idle, and the system may fail to create them
+    number_of_jobs_t const n_jobs{std::min(value_of(max_n_jobs), value_of(number_of_clause_outputs))};
+
     switch (value_of(TILE_SZ))
     {
         case 128:
-- 
2.43.0


From 78c6613dc8123fa8bcc19d7adec7ce894cbaf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:52 +0000
Subject: [PATCH 19/19] fix: refuse nested parameters of a stored state before
 copying them

Copying and dumping a JSON value recurse once per nesting level, so a
damaged document whose params hold a value nested very deeply overflowed
the stack instead of being refused.
---
 lib/src/tsetlini_state_json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 50181ee..cd9eef1 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -342,7 +342,15 @@ static params_t restore_params(json const & js, bool const is_classifier)
 
     auto const internal_params = {"number_of_labels", "number_of_features"};
 
-    auto user_params = js;
+    auto user_params = json::object();
+
+    for (auto const & kv : js.items())
+    {
+        // copying and dumping would recurse into nested values
+        require(kv.value().is_primitive(), "wrong type of parameter");
+
+        user_params[kv.key()] = kv.value();
+    }
 
     for (auto const & name : internal_params)
     {
-- 
2.43.0

