From 2f3a928fcb1488d0d833fabf5f596405e0a8d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 01/28] fix: CRP gives the first customer's table probability
 one

tables_weights() of an empty process returned weight 1 for table 0 while
logp() divides by N + alpha, so logp(0) was log(1/alpha) rather than 0.
---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From b7e0c2660f01c030f63177ae4776855073bc83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 02/28] fix: BetaBernoulli keeps fractional weights of absorbed
 observations

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..0a2a627 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // sum of observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From d2c8e209f660b558339e1619970ac3208d57ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 03/28] fix: DirichletCategorical::sample uses fractional
 counts as they are

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From 59cf545b626e87d4596ca804b47f6a7183c3c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 04/28] fix: Bigram::sample leaves the counts unchanged when it
 stops at max_length

---
 cxx/distributions/bigram.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..1f6b3a2 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,8 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // The string stops here: unincorporate below removes this transition.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From 91081ba0b20e4411ea4887878e5608b802ee3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 05/28] fix: NoisyRelation::update_value stored the (clean,
 dirty) pair swapped

---
 cxx/noisy_relation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..55ba3cb 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -172,7 +172,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From 6f34b06deae0c5e944d4ad899c48a0fe602ddbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 06/28] fix: transition_latent_value scored and stored noisy
 observations against the old latent value

---
 cxx/transition_latent_value.hh | 58 ++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..15194a3 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -95,6 +95,34 @@ T_noisy_observations<ValueType> unincorporate_and_store_values(
   return noisy_observations;
 }
 
+// This function assumes that the latent/noisy observations corresponding to
+// base_items have been removed from their clusters in
+// base_relation/noisy_relations. It incorporates `value` at base_items, pairs
+// every noisy observation with it, and leaves the relations in a valid state.
+template <typename ValueType>
+void incorporate_latent_value(
+    const T_items& base_items, const ValueType& value,
+    const T_noisy_observations<ValueType>& noisy_observations,
+    Relation<ValueType>* base_relation,
+    const std::unordered_map<std::string, NoisyRelation<ValueType>*>&
+        noisy_relations) {
+  // Restore the stored observations first, since update_value removes the
+  // stored value from its cluster.
+  base_relation->incorporate_to_cluster(base_items,
+                                        base_relation->get_value(base_items));
+  for (const auto& [name, rel] : noisy_relations) {
+    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
+      rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
+    }
+  }
+  base_relation->update_value(base_items, value);
+  for (const auto& [name, rel] : noisy_relations) {
+    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
+      rel->update_value(items, noisy_observations.at(name).at(items));
+    }
+  }
+}
+
 // This function assumes that the latent/noisy observations corresponding to
 // base_items have been removed from their clusters in
 // base_relation/noisy_relations (and returns base_relation/noisy_relations in
@@ -106,9 +134,9 @@ std::vector<double> latent_values_incremental_logp(
     Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  // Compute logp_score of the noisy relations without the observations of
-  // this attribute.
-  double baseline_logp_score = 0.;
+  // Compute logp_score of the base and noisy relations without the
+  // observations of this attribute.
+  double baseline_logp_score = base_relation->logp_score();
   for (auto [name, rel] : noisy_relations) {
     baseline_logp_score += rel->logp_score();
   }
@@ -116,16 +144,11 @@ std::vector<double> latent_values_incremental_logp(
   std::vector<double> logpx;
   for (const ValueType& v : latent_values) {
     // Incorporate the latent/noisy values for this candidate.
-    base_relation->incorporate_to_cluster(base_items, v);
-    for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->incorporate_to_cluster(items,
-                                    noisy_observations.at(name).at(items));
-      }
-    }
+    incorporate_latent_value(base_items, v, noisy_observations, base_relation,
+                             noisy_relations);
 
-    // Compute the incremental logp_score of the noisy relations.
-    double candidate_logp_score = 0.;
+    // Compute the incremental logp_score of the base and noisy relations.
+    double candidate_logp_score = base_relation->logp_score();
     for (const auto& [name, rel] : noisy_relations) {
       candidate_logp_score += rel->logp_score();
     }
@@ -158,13 +181,6 @@ void choose_and_incorporate_value(
   ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];
 
   // Incorporate the new estimate of the latent value.
-  base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
-  base_relation->update_value(base_items, new_latent_value);
-  for (auto& [name, rel] : noisy_relations) {
-    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-      rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
-    }
-  }
+  incorporate_latent_value(base_items, new_latent_value, noisy_observations,
+                           base_relation, noisy_relations);
 }
-- 
2.43.0


From c662c91ebb19b4c887f7630ce320d18e5ef41f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 07/28] fix: transition_latent_value read past an empty vector
 without noisy observations

---
 cxx/transition_latent_value.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 15194a3..6a67cfe 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -30,6 +30,17 @@ void transition_latent_value(
     std::mt19937* prng, T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
+  // Without noisy observations there is nothing to propose a new value from.
+  bool has_noisy_observations = false;
+  for (const auto& [name, rel] : noisy_relations) {
+    auto it = rel->base_to_noisy_items.find(base_items);
+    has_noisy_observations |=
+        it != rel->base_to_noisy_items.end() && !it->second.empty();
+  }
+  if (!has_noisy_observations) {
+    return;
+  }
+
   // We incorporate to/unincorporate from clusters themselves rather than
   // relations. Empty clusters are not deleted, because observations will be
   // re-incorporated to them.
-- 
2.43.0


From 9e81652f0cf6949eda6aa462ad62e0b04f4bf899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 08/28] fix: IRM::remove_relation left entities that no
 relation observes in the domains

---
 cxx/irm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..2ea256a 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -387,11 +387,19 @@ void IRM::remove_relation(const std::string& name) {
   }
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
+    }
+    // Remove the entities that no remaining relation observes.
+    const auto data_r = std::visit([](auto r) { return r->get_data_r(); },
+                                   relations.at(name));
+    for (const auto& [item, unused_observations] : data_r.at(d)) {
+      if (!has_observation(d, item)) {
+        domains.at(d)->unincorporate(item);
+      }
     }
   }
   std::visit([](auto r) { delete r; }, relations.at(name));
-- 
2.43.0


From 7a667e291cb3a6dacccb12f48dd547c7e774e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 09/28] fix: removing a noisy relation left its name in
 base_to_noisy_relations

---
 cxx/hirm.cc | 6 ++++++
 cxx/irm.cc  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..dbba3d7 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,12 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    std::erase(base_to_noisy_relations.at(noisy->base_relation), name);
+    if (base_to_noisy_relations.at(noisy->base_relation).empty()) {
+      base_to_noisy_relations.erase(noisy->base_relation);
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
diff --git a/cxx/irm.cc b/cxx/irm.cc
index 2ea256a..258ab2b 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -402,6 +402,12 @@ void IRM::remove_relation(const std::string& name) {
       }
     }
   }
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    std::erase(base_to_noisy_relations.at(noisy->base_relation), name);
+    if (base_to_noisy_relations.at(noisy->base_relation).empty()) {
+      base_to_noisy_relations.erase(noisy->base_relation);
+    }
+  }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
   schema.erase(name);
-- 
2.43.0


From dbe60cabca7f31a1a306c545481955759584e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/28] fix: SimpleStringEmission drew a character beyond
 highest_char

---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From d92769a4c396a78222bca87e4e43d2a51326227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 11/28] fix: Sometimes::unincorporate did not remove what
 incorporate added when dirty can equal clean

---
 cxx/emissions/sometimes.hh | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..7fe6076 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <map>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -13,6 +16,10 @@ class Sometimes : public Emission<SampleType> {
   BetaBernoulli bb;
   Emission<SampleType>* be;  // We own be.
   bool dirty_can_equal_clean;
+  // The split between be and bb used for each incorporated x whose dirty
+  // equals its clean (only used if dirty_can_equal_clean).
+  std::map<std::pair<SampleType, SampleType>, std::vector<double>>
+      past_p_came_from_be;
 
   // By default, Sometimes only works with BaseEmissors that assign zero
   // probability to dirty == clean.  Pass _dirty_can_equal_clean=true to
@@ -38,7 +45,16 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
+      double p_came_from_be;
+      std::vector<double>& past = past_p_came_from_be[x];
+      if (weight < 0.0 && !past.empty()) {
+        // Remove exactly what was added for a previous x.
+        p_came_from_be = past.back();
+        past.pop_back();
+      } else {
+        p_came_from_be = exp(bb.logp(true) + be->logp(x));
+        past.push_back(p_came_from_be);
+      }
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From ab36cf7d02624fdc82b320563bc6119fbd557242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/28] fix: BigramStringEmission weighted alignments by
 exp(cost) instead of exp(-cost)

---
 cxx/emissions/bigram_string.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..70d6fd0 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -129,8 +129,11 @@ void BigramStringEmission::incorporate(
                   &alignments);
 
   double total_prob = 0.0;
+  double best_cost = alignments[0].cost;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    // Turn all costs (negative log probabilities, cheapest first) into
+    // probabilities relative to the best alignment.
+    a.cost = exp(best_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 6211f1f94caee1655dbc763feffbf6ec207d16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 13/28] fix: BigramStringEmission::log_prob_distance used the
 wrong insertion context

---
 cxx/emissions/bigram_string.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 70d6fd0..02ba979 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -58,15 +58,16 @@ std::string BigramStringEmission::category_to_char(int category) {
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
-       it != alignment.align_pieces.rend();
+  // The context of the last piece is the clean character right before it.
+  for (auto it = std::next(alignment.align_pieces.rbegin());
+       it != alignment.align_pieces.rend() && insertion_context.empty();
        ++it) {
     switch (it->index()) {
       case 0: // Deletion
         insertion_context = std::get<Deletion>(*it).deleted_char;
         break;
       case 1: // Insertion
-        continue;
+        break;
       case 2: // Substitution
         insertion_context = std::get<Substitution>(*it).original;
         break;
-- 
2.43.0


From 86207776be73be52b54ef2ac565a8ccadeb44a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/28] fix: BigramStringEmission::propose_clean dropped the
 votes behind an unpaired string

---
 cxx/emissions/bigram_string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 02ba979..a8ba3b5 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -325,7 +325,7 @@ std::string BigramStringEmission::propose_clean_with_weights(
   }
   if (corrupted.size() % 2 == 1) {
     winners.push_back(corrupted.back());
-    new_weights.push_back(1.0);
+    new_weights.push_back(weights.back());
   }
   return propose_clean_with_weights(winners, new_weights);
 }
-- 
2.43.0


From 21269d1a003ea3f69867ac570b6837e1e99861db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 15/28] fix: Bigram and StringNat nearest could return a string
 longer than max_length

---
 cxx/distributions/bigram.cc     | 13 +++++++++++++
 cxx/distributions/bigram.hh     |  3 +++
 cxx/distributions/string_nat.hh | 11 ++---------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index 1f6b3a2..5101f7f 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -129,3 +129,16 @@ void Bigram::transition_hyperparameters(std::mt19937* prng) {
     set_alpha(alphas[i]);
   }
 }
+
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if (max_length > 0 && s.length() == max_length) {
+      break;
+    }
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  return s;
+}
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..8fdb371 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -47,4 +47,7 @@ class Bigram : public Distribution<std::string> {
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
+
+  // The characters of x that are in [min_char, max_char], up to max_length.
+  std::string nearest(const std::string& x) const;
 };
diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..dfadd76 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -3,8 +3,6 @@
 
 #pragma once
 
-#include <cctype>
-
 #include "distributions/bigram.hh"
 
 // A distribution over natural numbers represented as strings of digits.
@@ -16,12 +14,7 @@ class StringNat : public Bigram {
   StringNat(size_t _max_length = 20): Bigram(_max_length, '0', '9') {}
 
   std::string nearest(const std::string& x) const {
-    std::string s;
-    for (const char& c : x) {
-      if (std::isdigit(c)) {
-        s += c;
-      }
-    }
-    return s;
+    // Keep the digits.
+    return Bigram::nearest(x);
   }
 };
-- 
2.43.0


From 97277ea256cde2a9e55132f26f27fdb0ba8a162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 16/28] fix: observations of a base relation were incorporated
 again for each of its noisy relations

---
 cxx/util_io.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..e5c1280 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -350,9 +350,14 @@ void incorporate_observations_relation(
           },
           rel_var);
     }
-    incorporate_observations_relation(prng, base_name, h_irm, observations,
-                                      noisy_to_base, relation_items,
-                                      completed_relations);
+    // The observations of an observed base relation are incorporated only once.
+    // An unobserved base relation may need values for further items.
+    if (!observations.contains(base_name) ||
+        !completed_relations.contains(base_name)) {
+      incorporate_observations_relation(prng, base_name, h_irm, observations,
+                                        noisy_to_base, relation_items,
+                                        completed_relations);
+    }
   }
 
   ObservationVariant ov;
-- 
2.43.0


From c3bd0e972222e33f641ae1574a224b44af139ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 17/28] fix: IRM and from_txt failed when a noisy relation is
 named before its base relation

---
 cxx/irm.cc     | 23 +++++++++++++++++++++--
 cxx/irm.hh     |  4 ++++
 cxx/util_io.cc |  9 +++++----
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 258ab2b..615c550 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -29,10 +29,29 @@ RelationVariant clean_relation_from_spec(const std::string& name,
   }
 }
 
+std::vector<std::string> base_relations_first(const T_schema& schema) {
+  std::vector<std::string> names;
+  std::unordered_set<std::string> seen;
+  std::function<void(const std::string&)> visit = [&](const std::string& name) {
+    if (!seen.insert(name).second) {
+      return;
+    }
+    if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+      visit(noisy->base_relation);
+    }
+    names.push_back(name);
+  };
+  for (const auto& [name, unused_relation] : schema) {
+    visit(name);
+  }
+  return names;
+}
+
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  for (const std::string& name : base_relations_first(init_schema)) {
+    std::visit([&](auto trel) { this->add_relation(name, trel); },
+               init_schema.at(name));
   }
   assert(schema.size() == relations.size());
 }
diff --git a/cxx/irm.hh b/cxx/irm.hh
index c82ae70..3cbbbf7 100644
--- a/cxx/irm.hh
+++ b/cxx/irm.hh
@@ -18,6 +18,10 @@ using RelationVariant = std::variant<Relation<std::string>*, Relation<double>*,
 // Map from names to T_relation's.
 typedef std::map<std::string, T_relation> T_schema;
 
+// Returns the names of the relations in schema, with every base relation
+// listed before the noisy relations that observe it.
+std::vector<std::string> base_relations_first(const T_schema& schema);
+
 class IRM {
  public:
   T_schema schema;                                   // schema of relations
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index e5c1280..668a112 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -651,8 +651,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -682,8 +683,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From ad413e79d6d6f5f05a52d75026f240e458ee83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 18/28] fix: from_csv dropped the last empty cell of a first
 data row and overran rows with empty or extra cells

---
 cxx/pclean/csv.cc | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..7d694c2 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -39,33 +39,36 @@ DataFrame DataFrame::from_csv(
       continue;
     }
 
+    const bool is_header = first_line && column_names.empty();
     std::stringstream ss(line);
     std::string part;
-    size_t i = 0;
+    std::vector<std::string> parts;
     // TODO(thomaswc): Handle quoted fields
     while (std::getline(ss, part, ',')) {
       // Erase white space from end of part
-      while (isspace(part.back())) {
+      while (!part.empty() && isspace((unsigned char)part.back())) {
         part.pop_back();
       }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
-      }
-
-      df.data[df.columns[i++]].push_back(part);
+      parts.push_back(part);
     }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
+    if (line.back() == ',') {
+      // std::getline is broken and won't let the last field be empty.
+      parts.push_back("");
+    }
+    if (is_header) {
+      for (const auto& column : parts) {
+        df.columns.push_back(column);
+        df.data[column] = {};
       }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
+    } else {
+      if (parts.size() != df.columns.size()) {
+        printf("Found %ld instead of %ld expected columns in line\n%s\n",
+               parts.size(), df.columns.size(), line.c_str());
         assert(false);
       }
+      for (size_t i = 0; i < parts.size(); ++i) {
+        df.data[df.columns[i]].push_back(parts[i]);
+      }
     }
     first_line = false;
   }
-- 
2.43.0


From dae3f4aab20424319bcdb737d6ca42482f93144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 19/28] fix: resolve_variable_definition read past the tokens
 of an unfinished parameter list

---
 cxx/pclean/io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..b48262d 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -36,7 +36,7 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
   for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
-- 
2.43.0


From 7570bf1147f5dd76a96fba9d3b25ecee5d2c31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 20/28] fix: held-out rows reused the row ids of the training
 rows

---
 cxx/pclean/pclean.cc     | 9 +++++++--
 cxx/pclean/pclean_lib.cc | 9 +++++----
 cxx/pclean/pclean_lib.hh | 6 ++++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..f871af5 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -93,6 +93,7 @@ int main(int argc, char** argv) {
   // Incorporate observations.
   std::cout << "Incorporating observations ...\n";
   incorporate_observations(&prng, &gendb, df);
+  int num_rows = df.data.empty() ? 0 : df.data.begin()->second.size();
 
   // Run inference
   std::cout << "Running inference ...\n";
@@ -121,7 +122,11 @@ int main(int argc, char** argv) {
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    // Held out rows must not reuse the ids of the rows already added.
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    if (!heldout_df.data.empty()) {
+      num_rows += heldout_df.data.begin()->second.size();
+    }
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +136,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..3910eec 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,8 +11,9 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
-  int num_rows = df.data.begin()->second.size();
+                              const DataFrame& df,
+                              int start_row) {
+  int num_rows = df.data.empty() ? 0 : df.data.begin()->second.size();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
     for (const auto& col : df.data) {
@@ -33,7 +34,7 @@ void incorporate_observations(std::mt19937* prng,
 
       // Don't allow non-printable characters in val.
       for (const char c: val) {
-        if (!std::isprint(c)) {
+        if (!std::isprint(static_cast<unsigned char>(c))) {
           printf("Found non-printable character with ascii value %d on line "
                  "%d of column %s in value `%s`.\n",
                  (int) c, i + 2, col_name.c_str(), val.c_str());
@@ -50,7 +51,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..4dd66e3 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,12 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The i-th row of df gets the id start_row + i; all rows
+// already added to gendb should have ids < start_row.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 25d60220fc7e2ef5d9953e0c2d56df8f27b443e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 21/28] fix: tables of samples had no columns and were written
 empty

---
 cxx/pclean/pclean_lib.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 3910eec..fba22de 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -74,6 +74,9 @@ void make_pclean_sample(
 DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
                               std::mt19937* prng) {
   DataFrame df;
+  for (const auto& [name, query_field] : gendb->schema.query.fields) {
+    df.columns.push_back(name);
+  }
   for (int i = 0; i < num_samples; i++) {
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
-- 
2.43.0


From e70dcb6bb0f984227cfcca1d9b021471933e3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 22/28] fix: reference fields of one class leaked into the
 reference indices of another

---
 cxx/gendb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..ac6fad7 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
-- 
2.43.0


From 969221917312c32c0ba16ea7238bf6c836282094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 23/28] fix: queried attributes of a clean record class lost
 their reference indices

---
 cxx/gendb.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index ac6fad7..ff294da 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -999,6 +999,12 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      // The renamed relation keeps its reference indices.
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+      }
+      relation_reference_indices.erase(base_relation_name);
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
-- 
2.43.0


From d9401e644c9914bed7a171447995b4e058e5e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 24/28] fix: final emissions lost the reference indices of
 their query path

---
 cxx/gendb.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index ff294da..0347ecb 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1036,8 +1036,10 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
     // If the record class is the only class in the schema, there will be
     // no entries in `relation_reference_indices`.
     if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
+      for (const auto& [ind, ref] :
+           relation_reference_indices.at(base_relation_name)) {
+        relation_reference_indices[f.name][ind] = ref;
+      }
     }
     return;
   }
-- 
2.43.0


From 626dbd1aabf23babddc3f8c7bdf0ecc9ad8aa577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 25/28] fix: observing an attribute of a noisy record class
 recursed without end

---
 cxx/gendb.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 0347ecb..edd584a 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -190,7 +190,19 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
     const std::vector<std::string>& domains =
         std::visit([&](auto tr) { return tr.domains; },
                    hirm->schema.at(t_query_rel->base_relation));
-    sample_and_incorporate_for_class(prng, domains.back(), base_items.back());
+    if (domains.back() == t_query_rel->domains.back()) {
+      // The base relation is an attribute of the queried row itself; the row's
+      // other relations get their own observations.
+      bool contains_base_items = std::visit(
+          [&](auto rel) { return rel->get_data().contains(base_items); },
+          hirm->get_relation(t_query_rel->base_relation));
+      if (!contains_base_items) {
+        hirm->sample_and_incorporate_relation(prng, t_query_rel->base_relation,
+                                              base_items);
+      }
+    } else {
+      sample_and_incorporate_for_class(prng, domains.back(), base_items.back());
+    }
   }
   hirm->incorporate(prng, query_rel_name, items, value);
 }
-- 
2.43.0


From 0b3b4857d4d91269382a86785ac7fd69be4a7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 26/28] fix: rows with new entities could share entities
 through references that are not queried

---
 cxx/gendb.cc | 31 +++++++++++++++++++++++++++++++
 cxx/gendb.hh |  5 +++++
 2 files changed, 36 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index edd584a..813c30a 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -68,6 +68,19 @@ void GenDB::incorporate(
           [&](auto tr) { return tr.domains; }, hirm->schema.at(query_rel));
       items.resize(domains.size());
       get_unique_entities_relation(query_rel, items.size() - 1, id, items);
+      // The attributes of the row's entities are sampled along with the value,
+      // so all references of those entities must be populated now.
+      if (class_path.size() > 1) {
+        const std::string& record_class = schema.query.record_class;
+        const std::string& ref_class =
+            std::get<ClassVar>(schema.classes.at(record_class)
+                                   .vars.at(class_path[0])
+                                   .spec)
+                .class_name;
+        populate_unique_ancestors(
+            ref_class,
+            reference_values.at(record_class).at({class_path[0], id}));
+      }
     } else {
       items =
           sample_entities_relation(prng, schema.query.record_class,
@@ -105,6 +118,24 @@ void GenDB::get_unique_entities_relation(const std::string& rel_name,
   }
 }
 
+void GenDB::populate_unique_ancestors(const std::string& class_name,
+                                      const int class_item) {
+  for (const auto& [name, var] : schema.classes.at(class_name).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      if (!reference_values.at(class_name).contains({name, class_item})) {
+        CRP& crp = entity_crps.at(cv->class_name);
+        int new_val = crp.max_table() + 1;
+        crp.incorporate(get_reference_id(class_name, name, class_item),
+                        new_val);
+        reference_values.at(class_name)[{name, class_item}] = new_val;
+      }
+      populate_unique_ancestors(
+          cv->class_name,
+          reference_values.at(class_name).at({name, class_item}));
+    }
+  }
+}
+
 // This function walks the class_path of the query, populates the global
 // reference_values table if necessary, and returns a sampled set of items
 // for the query relation that corresponds to the class path. class_path_start
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..449f353 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -48,6 +48,11 @@ class GenDB {
   void get_unique_entities_relation(const std::string& rel_name, const int ind,
                                     const int class_item, T_items& items);
 
+  // Recursively populates the reference fields of class_name at class_item that
+  // have no value yet, each with a new entity.
+  void populate_unique_ancestors(const std::string& class_name,
+                                 const int class_item);
+
   // Samples a set of entities in the domains of the relation corresponding to
   // class_path.
   T_items sample_entities_relation(
-- 
2.43.0


From 0d10ad790c53f30ae5eaac9459049096532c5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 27/28] fix: moving a reference lost, leaked or misplaced data
 of entities with references of their own

Relations outside of the queried ones kept their old entity tuples, entities
that lost their last reference kept their own references and attributes, and
base values were removed before the values that are scored given them.
---
 cxx/gendb.cc | 270 ++++++++++++++++++++++++++++-----------------------
 cxx/gendb.hh |  20 ++--
 2 files changed, 161 insertions(+), 129 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 813c30a..337f221 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -5,6 +5,7 @@
 
 #include <map>
 #include <random>
+#include <set>
 #include <string>
 #include <variant>
 
@@ -327,21 +328,37 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
   }
 }
 
+// Returns the items of the relation whose primary key is class_item. All the
+// references that determine them must be populated.
+T_items GenDB::get_entity_items(const std::string& rel_name,
+                                const int class_item) const {
+  const size_t num_domains = std::visit(
+      [&](const auto& tr) { return tr.domains.size(); },
+      hirm->schema.at(rel_name));
+  T_items items(num_domains);
+  get_relation_items(rel_name, num_domains - 1, class_item, items);
+  return items;
+}
+
 // Returns a map of relation name to the indices (in the items vector) where
 // the reference field appears.
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, trel] : hirm->schema) {
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
-    std::vector<std::string> domains = std::visit(
-        [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
+    const auto& ref_indices = relation_reference_indices.at(rel_name);
+    std::vector<std::string> domains =
+        std::visit([&](auto& trel) { return trel.domains; }, trel);
     for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+      if (domains[i] == class_name && ref_indices.contains(i) &&
+          ref_indices.at(i).contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -361,34 +378,28 @@ double GenDB::unincorporate_reference(
         stored_value_map,
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains) {
-  double logp_relations = 0.;
-  for (auto [rel_name, inds] : domain_inds) {
-    RelationVariant r = hirm->get_relation(rel_name);
-    bool data_r_contains_item = std::visit(
+  // Find the items, in every relation, that contain the entity linkage.
+  std::map<std::string, std::unordered_set<T_items, H_items>> items_to_remove;
+  for (const auto& [rel_name, inds] : domain_inds) {
+    std::visit(
         [&](auto rel) {
-          return rel->get_data_r().at(class_name).contains(class_item);
-        },
-        r);
-    if (data_r_contains_item) {
-      const std::unordered_set<T_items, H_items>& items = std::visit(
-          [&](auto rel) {
-            return rel->get_data_r().at(class_name).at(class_item);
-          },
-          r);
-
-      for (const size_t ind : inds) {
-        for (const auto& item : items) {
-          if (item[ind] == class_item) {
-            auto f = [&](auto rel) {
-              logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
-            };
-            std::visit(f, r);
+          const auto& data_r = rel->get_data_r().at(class_name);
+          if (!data_r.contains(class_item)) {
+            return;
           }
-        }
-      }
-    }
+          for (const T_items& items : data_r.at(class_item)) {
+            for (const size_t ind : inds) {
+              if (items[ind] == class_item) {
+                items_to_remove[rel_name].insert(items);
+                break;
+              }
+            }
+          }
+        },
+        hirm->get_relation(rel_name));
   }
+  double logp_relations =
+      unincorporate_items(std::move(items_to_remove), stored_value_map);
 
   // Check if any entities need to be removed from IRM domain clusters (after
   // they've been unincorporated from relations) and compute the change in logp.
@@ -405,40 +416,58 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
-// Recursively unincorporates from base relations and stores values.
-template <typename T>
-double GenDB::unincorporate_reference_relation(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    const size_t ind,
+// Unincorporates items from relations and stores their values. A noisy relation
+// is handled before its base relation, since its values are scored given the
+// values of the base relation.
+double GenDB::unincorporate_items(
+    std::map<std::string, std::unordered_set<T_items, H_items>> items_to_remove,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
-  if (!rel->get_data().contains(items) || ind >= items.size()) {
-    return 0.;
+  double logp = 0.;
+  while (!items_to_remove.empty()) {
+    // Find a relation that isn't the base of another one in items_to_remove.
+    std::string rel_name;
+    for (const auto& [r, unused_items] : items_to_remove) {
+      bool is_base = false;
+      for (const auto& [s, unused_items_s] : items_to_remove) {
+        const T_noisy_relation* t_rel =
+            std::get_if<T_noisy_relation>(&hirm->schema.at(s));
+        is_base = is_base || (t_rel != nullptr && t_rel->base_relation == r);
+      }
+      if (!is_base) {
+        rel_name = r;
+        break;
+      }
+    }
+    std::visit(
+        [&](auto rel) {
+          for (const T_items& items : items_to_remove.at(rel_name)) {
+            logp += unincorporate_relation_items(rel, rel_name, items,
+                                                 stored_value_map);
+          }
+        },
+        hirm->get_relation(rel_name));
+    items_to_remove.erase(rel_name);
   }
+  return logp;
+}
 
-  // Store the items/value and unincorporate them.
+// Unincorporates and stores a single value of a relation.
+template <typename T>
+double GenDB::unincorporate_relation_items(
+    Relation<T>* rel, const std::string& rel_name, const T_items& items,
+    std::map<std::string,
+             std::unordered_map<T_items, ObservationVariant, H_items>>&
+        stored_value_map) {
   T value = rel->get_value(items);
   stored_value_map[rel_name][items] = value;
 
   rel->unincorporate_from_cluster(items);
-  std::mt19937* prng = nullptr;  // unused
+  std::mt19937* prng = nullptr;  // unused, since the cluster exists
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
-  }
   return logp_rel;
 }
 
@@ -505,6 +534,15 @@ void GenDB::incorporate_reference_relation(
       incorporate_reference_relation(prng, noisy_rel->base_relation,
                                      trel->base_relation, stored_values);
     }
+    // The observed entity may not have a value of the attribute yet.
+    NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+    for (const auto& [items, value] : stored_values.at(rel_name)) {
+      const T_items base_items = noisy_rel->get_base_items(items);
+      if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+        hirm->sample_and_incorporate_relation(prng, trel->base_relation,
+                                              base_items);
+      }
+    }
   }
   for (const auto& [items, value] : stored_values.at(rel_name)) {
     // A base relation may have already been reincorporated by a different noisy
@@ -556,6 +594,9 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
+      if (!reference_values.at(ref_class).contains({name, item})) {
+        continue;
+      }
       int ref_item = reference_values.at(ref_class).at({name, item});
       logp_adj += unincorporate_from_domain_cluster_relation(r, ref_item, r_ind,
                                                              unincorporated);
@@ -597,9 +638,14 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
-      if (std::holds_alternative<ClassVar>(var.spec)) {
+      if (std::holds_alternative<ClassVar>(var.spec) &&
+          reference_values.at(ref_class).contains({name, ref_item})) {
         // If this reference value was the only one in its entity_crp table,
         // then the entity is removed from its class and we need to
         // recursively unincorporate *its* reference values.
@@ -607,54 +653,10 @@ double GenDB::unincorporate_from_entity_cluster(
                                                       unincorporated);
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
 
-// Recursively unincorporates from base relations and stores values.
-template <typename T>
-double GenDB::unincorporate_reference_relation_singleton(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    std::map<std::string,
-             std::unordered_map<T_items, ObservationVariant, H_items>>&
-        stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
-  const std::vector<std::string>& domains = std::visit(
-      [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-  if (!rel->get_data().contains(items) ||
-      entity_crps.at(domains.back()).tables.contains(items.back())) {
-    return 0.;
-  }
-
-  // Store the items/value and unincorporate them.
-  T value = rel->get_value(items);
-  stored_value_map[rel_name][items] = value;
-
-  rel->unincorporate_from_cluster(items);
-  // Unused prng, since the cluster should exist.
-  std::mt19937* prng = nullptr;
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
-  // Clean up data but leave empty clusters in case they are re-populated later.
-  rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
-  }
-  return logp_rel;
-}
-
 // When unincorporating the only reference to a given entity, we additionally
 // need to unincorporate data from relations corresponding to attributes of the
 // entity's class (or noisy observations of ancestor attributes by the entity's
@@ -676,26 +678,52 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // Find the entities that no reference points to any more: the referenced one,
+  // and those that were only referenced by such an entity.
+  std::set<std::pair<std::string, int>> removed_entities;
+  if (!entity_crps.at(ref_class).tables.contains(ref_val)) {
+    removed_entities.insert({ref_class, ref_val});
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+  for (const auto& [ref, ref_item] : unincorporated_from_entity_crps) {
+    const auto& [r_class, r_field, unused_item] = ref;
+    const std::string& c =
+        std::get<ClassVar>(schema.classes.at(r_class).vars.at(r_field).spec)
+            .class_name;
+    if (!entity_crps.at(c).tables.contains(ref_item)) {
+      removed_entities.insert({c, ref_item});
+    }
+  }
+
+  // Unincorporate their attributes.
+  std::map<std::string, std::unordered_set<T_items, H_items>> items_to_remove;
+  for (const auto& [c, entity] : removed_entities) {
+    for (const std::string& rel : class_to_relations[c]) {
+      std::visit(
+          [&](auto r) {
+            const auto& data_r = r->get_data_r().at(c);
+            if (!data_r.contains(entity)) {
+              return;
+            }
+            for (const T_items& items : data_r.at(entity)) {
+              if (items.back() == entity) {
+                items_to_remove[rel].insert(items);
+              }
+            }
+          },
+          hirm->get_relation(rel));
+    }
+  }
+  logp_refclass +=
+      unincorporate_items(std::move(items_to_remove), stored_value_map);
+
+  for (const auto& [c, entity] : removed_entities) {
+    for (const std::string& rel : class_to_relations[c]) {
+      const size_t num_domains =
+          std::visit([&](const auto& tr) { return tr.domains.size(); },
+                     hirm->schema.at(rel));
+      logp_refclass += unincorporate_from_domain_cluster_relation(
+          rel, entity, num_domains - 1, unincorporated_from_domains);
+    }
   }
   return logp_refclass;
 }
@@ -794,11 +822,8 @@ void GenDB::transition_reference(std::mt19937* prng,
       // Sample and incorporate values into the relations corresponding to
       // the reference class. This may also incorporate new values into the IRM
       // domain clusters.
-      for (auto& rel : class_to_relations.at(ref_class)) {
-        const std::vector<std::string>& domains = std::visit(
-            [&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-        T_items base_items(domains.size());
-        get_relation_items(rel, base_items.size() - 1, table, base_items);
+      for (auto& rel : class_to_relations[ref_class]) {
+        const T_items base_items = get_entity_items(rel, table);
         bool c = std::visit(
             [&](auto r) { return r->get_data().contains(base_items); },
             hirm->get_relation(rel));
@@ -808,6 +833,9 @@ void GenDB::transition_reference(std::mt19937* prng,
       }
     }
 
+    // An existing entity may not have all of its references populated yet.
+    sample_class_ancestors(prng, ref_class, table);
+
     // Get items and values with new entity linkages.
     decltype(stored_values) updated_values_i = update_reference_items(
         stored_values, class_name, ref_field, class_item, table);
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 449f353..24beef8 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -76,6 +76,10 @@ class GenDB {
   void get_relation_items(const std::string& rel_name, const int ind,
                           const int class_item, T_items& items) const;
 
+  // Returns the items of the relation whose primary key is class_item.
+  T_items get_entity_items(const std::string& rel_name,
+                           const int class_item) const;
+
   // Returns a map of relation name to the indices (in the items vector) where
   // the reference field appears.
   std::map<std::string, std::vector<size_t>> get_domain_inds(
@@ -93,19 +97,19 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains);
 
-  // Unincorporates and stores items/values from a relation.
-  template <typename T>
-  double unincorporate_reference_relation(
-      Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      const size_t ind,
+  // Unincorporates items from relations and stores their values. Returns the
+  // logp of the unincorporated values.
+  double unincorporate_items(
+      std::map<std::string, std::unordered_set<T_items, H_items>>
+          items_to_remove,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
 
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
+  // Unincorporates and stores a single value of a relation. Returns the logp of
+  // the unincorporated value.
   template <typename T>
-  double unincorporate_reference_relation_singleton(
+  double unincorporate_relation_items(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
-- 
2.43.0


From 0d8ba34d92a30c535021f849ea874f339c5fc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 28/28] fix: rows had no name in the encoding used to save a
 GenDB's clusters

---
 cxx/pclean/pclean_lib.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index fba22de..390edd7 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -100,5 +100,14 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
     }
   }
 
+  // The entities of the record class are rows, and aren't in any entity CRP.
+  for (const auto& [code, irm] : gendb.hirm->irms) {
+    for (const auto& [name, domain] : irm->domains) {
+      for (const T_item item : domain->items) {
+        code_to_item[name][item] = name + ":" + std::to_string(item);
+      }
+    }
+  }
+
   return std::make_pair(item_to_code, code_to_item);
 }
-- 
2.43.0

