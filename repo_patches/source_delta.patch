From 8e074ce0e0889067d61f3cc71d3e88121fd3e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:51 +0000
Subject: [PATCH 01/26] fix: messages read the binary factor with sender and
 receiver swapped

fill_message() exchanged the positions of the sending and of the receiving
variable, so non symmetric tables were propagated transposed and tables over
variables of different sizes were read out of range.
---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 4aaf10704780f7cd9e680f9cde6743b40b6d340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:20 +0000
Subject: [PATCH 02/26] fix: removing an evidence re-activated the connections
 to nodes still observed

The connection between two observed nodes was activated when only one of them
was released, linking a hidden node to an observed one: queries then crashed or
ignored the remaining evidence. Also compute the marginalized evidences when a
factor is added between two observed nodes.
---
 src/src/structure/EvidenceManager.cpp    | 15 +++++++++++----
 src/src/structure/bases/FactorsAware.cpp |  9 +++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..50a9e1b 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -76,10 +76,17 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
   resetBelief();
   state.evidences.erase(evidence_it);
   auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  // connections toward nodes that are still observed must remain disabled
+  std::vector<Node *> hidden_neighbours;
+  for (const auto &[neighbour, connection] : node.disabled_connections) {
+    if (state.evidences.find(neighbour->variable) == state.evidences.end()) {
+      hidden_neighbours.push_back(neighbour);
+    }
+  }
+  for (auto *neighbour : hidden_neighbours) {
+    neighbour->merged_unaries.reset();
+    Node::activate(node, *neighbour,
+                   node.disabled_connections.find(neighbour)->second.factor);
   }
   node.merged_unaries.reset();
 }
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..fd06bd0 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -126,9 +126,14 @@ void FactorsAware::addBinaryDistribution(
               hybrid_insertion(nodeB, nodeA, evidenceA_location->second,
                                binary_factor);
             },
-            [&](const Evidences::iterator &) {
+            [&](const Evidences::iterator &evidenceB_location) {
               // both are evidences
-              Node::disable(*nodeA, *nodeB, binary_factor);
+              auto [connA, connB] =
+                  Node::disable(*nodeA, *nodeB, binary_factor);
+              connA->message = std::make_unique<factor::Evidence>(
+                  *binary_factor, nodeB->variable, evidenceB_location->second);
+              connB->message = std::make_unique<factor::Evidence>(
+                  *binary_factor, nodeA->variable, evidenceA_location->second);
             }}
             .visit(nodeB_location.location);
       }}
-- 
2.43.0


From 54ab16c19fb58e8338dd9d285df3b6967ebc2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:38 +0000
Subject: [PATCH 03/26] fix: joint distribution of several observed variables
 used dangling pointers

The indicator factors were stored in a growing vector while their addresses
were kept in the set of contributions.
---
 src/src/structure/QueryManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..947b242 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -115,6 +115,7 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
 
   std::unordered_set<const factor::Immutable *> contributions;
   std::vector<factor::Indicator> indicators;
+  indicators.reserve(locations.size()); // pointers to the elements are stored
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From 2bfb83617e6cf90fce68861a6c93582e01296697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:48 +0000
Subject: [PATCH 04/26] fix: removing a set of evidences was partially applied
 when rejected

removeEvidences() released some of the variables and then threw without
updating the clusters, leaving variables neither hidden nor observed.
---
 src/src/structure/EvidenceManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 50a9e1b..b24498b 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -105,6 +105,12 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  // check all the variables before changing anything
+  for (const auto &variable : variables) {
+    if (state().evidences.find(variable) == state().evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From ac197bb36f4bde3849f5aae48e1ec287f33c234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 05/26] fix: a pool that can't be built left the model without
 any pool

Asking for 0 threads, or failing to start one of the workers, destroyed the pool
in use before building the new one: the model was left unusable, or the process
terminated because of the workers already running.
---
 .../structure/bases/PoolAware.h               |  8 +++++---
 src/src/structure/bases/PoolAware.cpp         | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..af5d062 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -9,8 +9,8 @@
 
 #include <atomic>
 #include <functional>
+#include <memory>
 #include <mutex>
-#include <optional>
 #include <thread>
 #include <vector>
 
@@ -29,6 +29,8 @@ public:
   std::size_t size() const { return ctxt.pool_size; }
 
 private:
+  void stop();
+
   struct Context {
     std::size_t pool_size;
     std::atomic_bool life = true;
@@ -57,7 +59,7 @@ protected:
 
   void resetPool();
 
-  Pool &getPool() { return pool.value(); }
+  Pool &getPool() { return *pool; }
   void setPoolSize(std::size_t new_size);
 
   class ScopedPoolActivator {
@@ -73,6 +75,6 @@ protected:
   };
 
 private:
-  std::optional<Pool> pool;
+  std::unique_ptr<Pool> pool;
 };
 } // namespace EFG::strct
diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..dcf31a0 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -34,12 +34,20 @@ Pool::Pool(const std::size_t size) {
     throw Error{"Invalid Pool size"};
   }
   ctxt.pool_size = size;
-  for (std::size_t k = 1; k < size; ++k) {
-    workers.emplace_back(std::make_unique<Worker>(k, ctxt));
+  workers.reserve(size - 1);
+  try {
+    for (std::size_t k = 1; k < size; ++k) {
+      workers.emplace_back(std::make_unique<Worker>(k, ctxt));
+    }
+  } catch (...) {
+    stop();
+    throw;
   }
 }
 
-Pool::~Pool() {
+Pool::~Pool() { stop(); }
+
+void Pool::stop() {
   ctxt.life.store(false);
   for (auto &worker : workers) {
     // if (worker->loop.joinable()) {
@@ -71,12 +79,13 @@ PoolAware::PoolAware() { resetPool(); }
 
 PoolAware::~PoolAware() = default;
 
-void PoolAware::resetPool() { pool.emplace(1); }
+void PoolAware::resetPool() { pool = std::make_unique<Pool>(1); }
 
 void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
-  pool.emplace(new_size);
+  // the current pool is kept in case the new one can't be built
+  pool = std::make_unique<Pool>(new_size);
 }
 } // namespace EFG::strct
-- 
2.43.0


From e54a0a5b2d5652ee0e04f40f51624b6981866dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:33 +0000
Subject: [PATCH 06/26] fix: worker threads were started before their task slot
 was initialized

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index af5d062..7898aa9 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -42,9 +42,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
     std::atomic<const Tasks *> to_process = nullptr;
+
+    // last member: the thread uses the previous ones
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From da5f3a1f788a6437eb88aac91600c64aade4dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:35 +0000
Subject: [PATCH 07/26] fix: groups accepted variables with the same name but
 different sizes

The documentation forbids variables sharing the name; the check compared also
the sizes. Group::replaceVariables() also read out of range when the passed
collection contained repetitions.
---
 src/src/categoric/Group.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..64ea407 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -8,6 +8,10 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/categoric/Group.h>
 
+#include <algorithm>
+#include <string>
+#include <unordered_set>
+
 namespace EFG::categoric {
 VariablesSet to_vars_set(const VariablesSoup &soup) {
   VariablesSet result;
@@ -17,12 +21,24 @@ VariablesSet to_vars_set(const VariablesSoup &soup) {
   return result;
 }
 
+namespace {
+bool has_repeated_names(const VariablesSoup &soup) {
+  std::unordered_set<std::string> names;
+  for (const auto &var : soup) {
+    if (!names.emplace(var->name()).second) {
+      return true;
+    }
+  }
+  return false;
+}
+} // namespace
+
 Group::Group(const VariablesSoup &group)
     : group(group), group_sorted(to_vars_set(group)) {
   if (group.empty()) {
     throw Error{"Variables group can't be empty"};
   }
-  if (group.size() != group_sorted.size()) {
+  if (has_repeated_names(group)) {
     throw Error{"Variables group with multiple variables with same name"};
   }
 }
@@ -33,10 +49,16 @@ Group::Group(const VariablePtr &var) {
 }
 
 void Group::add(const VariablePtr &var) {
-  auto it = group_sorted.find(var);
-  if (it == group_sorted.end()) {
-    group.push_back(var);
+  if (nullptr == var) {
+    throw Error{"null variable can't be part of a group"};
+  }
+  auto it = std::find_if(group.begin(), group.end(),
+                         [&var](const VariablePtr &element) {
+                           return element->name() == var->name();
+                         });
+  if (it == group.end()) {
     group_sorted.emplace(var);
+    group.push_back(var);
     return;
   }
   throw Error::make(var->name(),
@@ -45,7 +67,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if ((new_variables.size() != group.size()) ||
+      has_repeated_names(new_variables)) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From 4376532396b73c8959798bcce7cabf289ece4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:53 +0000
Subject: [PATCH 08/26] fix: rejected factors left new variables in the model

A binary factor refused because of its second variable had already added the
first one. Variables sharing the name with one in the model but having another
size were accepted.
---
 .../structure/bases/FactorsAware.h            |  3 ++
 src/src/structure/bases/FactorsAware.cpp      | 38 ++++++++++++++-----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index f796d7b..29d2864 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -22,6 +22,9 @@ protected:
   void addDistribution(const EFG::factor::ImmutablePtr &distribution);
 
 private:
+  std::optional<NodeLocation>
+  findNode(const categoric::VariablePtr &var) const;
+
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
   void addUnaryDistribution(const EFG::factor::ImmutablePtr &unary_factor);
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index fd06bd0..aa72665 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -47,10 +47,24 @@ void check_is_same_variable(const categoric::VariablePtr &a,
 }
 } // namespace
 
-StateAware::NodeLocation
-FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
+std::optional<StateAware::NodeLocation>
+FactorsAware::findNode(const categoric::VariablePtr &var) const {
   if (auto info = locate(var); info.has_value()) {
     check_is_same_variable(var, info.value().node->variable);
+    return info;
+  }
+  // a different variable with the same name can't be part of the model
+  for (const auto &existing : getAllVariables()) {
+    if (existing->name() == var->name()) {
+      check_is_same_variable(var, existing);
+    }
+  }
+  return std::nullopt;
+}
+
+StateAware::NodeLocation
+FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
+  if (auto info = findNode(var); info.has_value()) {
     return *info;
   }
   // create this node
@@ -88,19 +102,23 @@ void hybrid_insertion(Node *node_hidden, Node *node_evidence,
 void FactorsAware::addBinaryDistribution(
     const EFG::factor::ImmutablePtr &binary_factor) {
   const auto &vars = binary_factor->function().vars().getVariables();
+  // check everything before creating nodes
+  const auto existingA = findNode(vars.front());
+  const auto existingB = findNode(vars.back());
+  if (existingA.has_value() && existingB.has_value() &&
+      ((existingA->node->active_connections.find(existingB->node) !=
+        existingA->node->active_connections.end()) ||
+       (existingA->node->disabled_connections.find(existingB->node) !=
+        existingA->node->disabled_connections.end()))) {
+    throw Error::make(vars.front()->name(), " and ", vars.back()->name(),
+                      " are already connected");
+  }
+
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
   auto *nodeB = nodeB_location.node;
 
-  if ((nodeA->active_connections.find(nodeB) !=
-       nodeA->active_connections.end()) ||
-      (nodeA->disabled_connections.find(nodeB) !=
-       nodeA->disabled_connections.end())) {
-    throw Error::make(nodeA->variable->name(), " and ", nodeB->variable->name(),
-                      " are already connected");
-  }
-
   VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
       [&](const HiddenClusters::iterator &hiddenA_location) {
         VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-- 
2.43.0


From 492301d1e6cebfb061478615bfb9f5cb25f97df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:03 +0000
Subject: [PATCH 09/26] fix: a tunable factor refused for its sharing group was
 still inserted

---
 src/src/trainable/FactorsTunableManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..c5076f5 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -119,6 +119,10 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  // search the tuner before inserting, since the search might throw
+  auto other_it = (std::nullopt == group_sharing_weight)
+                      ? tuners.end()
+                      : findTuner(*group_sharing_weight);
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
@@ -126,7 +130,6 @@ void FactorsTunableInserter::addTunableFactor(
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
-- 
2.43.0


From e8211d52b1660761fb7cf2dd753ae4d98e3c0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:23 +0000
Subject: [PATCH 10/26] fix: changing the weights did not update unary factors
 and evidences

setWeights() only invalidated the messages: the merged unary factors and the
marginalized evidences computed with the old weights were still used.
---
 .../structure/bases/FactorsAware.h            |  5 +++++
 src/src/structure/bases/FactorsAware.cpp      | 20 +++++++++++++++++++
 src/src/trainable/FactorsTunableManager.cpp   |  5 +++++
 3 files changed, 30 insertions(+)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index 29d2864..71e2fb2 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -21,6 +21,11 @@ public:
 protected:
   void addDistribution(const EFG::factor::ImmutablePtr &distribution);
 
+  // to call after changing the image of a factor already in the model:
+  // recomputes the quantities obtained from that factor that don't depend on
+  // the belief propagation
+  void updateStaticDependencies(const EFG::factor::Immutable &distribution);
+
 private:
   std::optional<NodeLocation>
   findNode(const categoric::VariablePtr &var) const;
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index aa72665..896cd10 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -157,4 +157,24 @@ void FactorsAware::addBinaryDistribution(
       }}
       .visit(nodeA_location.location);
 }
+
+void FactorsAware::updateStaticDependencies(
+    const EFG::factor::Immutable &distribution) {
+  const auto &vars = distribution.function().vars().getVariables();
+  const auto &evidences = state().evidences;
+  for (const auto &var : vars) {
+    auto &node = *locate(var)->node;
+    node.merged_unaries.reset();
+    for (auto &[neighbour, connection] : node.disabled_connections) {
+      if (connection.factor.get() != &distribution) {
+        continue;
+      }
+      auto evidence_it = evidences.find(neighbour->variable);
+      if (evidence_it != evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            distribution, neighbour->variable, evidence_it->second);
+      }
+    }
+  }
+}
 } // namespace EFG::strct
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index c5076f5..cd3b494 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,6 +58,9 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
+  for (const auto &factor : tunable_factors) {
+    updateStaticDependencies(*factor);
+  }
   resetBelief();
 }
 
@@ -143,6 +146,8 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  // the weight of the inserted factor might be different from the initial one
+  updateStaticDependencies(*factor);
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From ee915341a5084e91fd999be2d61c9757f8f7afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:30 +0000
Subject: [PATCH 11/26] fix: conditional gradient took the evidences from wrong
 positions

The positions of the evidences were computed with the order of the variables of
the source model and of a set built apart, while they were used with the order
of the variables and of the evidences of the conditional model.
---
 .../model/ConditionalRandomField.h            |  4 ++-
 src/src/model/ConditionalRandomField.cpp      | 32 ++++++-------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..6608c53 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -84,6 +84,8 @@ private:
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
 
-  const std::vector<std::size_t> evidence_vars_positions;
+  // positions of the evidences in getAllVariables(), with the same order of
+  // getEvidences()
+  std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..58c4202 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -16,32 +16,15 @@
 #include <math.h>
 
 namespace EFG::model {
-namespace {
-std::vector<std::size_t>
-find_positions(const categoric::VariablesSoup &all_vars,
-               const categoric::VariablesSet &to_find) {
-  std::vector<std::size_t> result;
-  result.reserve(to_find.size());
-  for (const auto &var : to_find) {
-    auto it = std::find(all_vars.begin(), all_vars.end(), var);
-    result.push_back(std::distance(all_vars.begin(), it));
-  }
-  return result;
-}
-} // namespace
-
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -60,6 +43,12 @@ void ConditionalRandomField::absorb(const SourceStructure &source, bool copy) {
   for (const auto &[var, val] : evidences) {
     setEvidence(findVariable(var->name()), val);
   }
+  // the same order of the evidences of this model, which never change
+  const auto &all_vars = getAllVariables();
+  for (const auto &[var, val] : getEvidences()) {
+    auto it = std::find(all_vars.begin(), all_vars.end(), var);
+    evidence_vars_positions.push_back(std::distance(all_vars.begin(), it));
+  }
   // replace tuners of factors connected to an evidence
   for (auto &tuner : tuners) {
     train::visitTuner(
@@ -191,9 +180,6 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     throw Error{"Invalid range percentage"};
   }
 
-  std::vector<std::size_t> hidden_vars_position =
-      find_positions(getAllVariables(), getHiddenVariables());
-
   std::vector<std::vector<std::size_t>> result;
   auto emplace_samples = [&](const auto &ev) {
     this->setEvidences(ev);
-- 
2.43.0


From a1d1da2373fb8fba0c062b31d00d6cb12daa5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:40 +0000
Subject: [PATCH 12/26] fix: conditional evidences were not assigned in the
 documented order

ConditionalRandomField::setEvidences() followed the internal order of the
evidences instead of the one of getObservedVariables(), and applied part of the
values before refusing an invalid one.
---
 src/src/model/ConditionalRandomField.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 58c4202..b2df858 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -109,13 +109,22 @@ void ConditionalRandomField::replaceIfNeeded(train::TunerPtr &container,
 
 void ConditionalRandomField::setEvidences(
     const std::vector<std::size_t> &values) {
-  const auto &state = this->state();
-  if (values.size() != state.evidences.size()) {
-    throw Error::make("Expected ", std::to_string(state.evidences.size()),
+  const auto observed = getObservedVariables();
+  if (values.size() != observed.size()) {
+    throw Error::make("Expected ", std::to_string(observed.size()),
                       " evidences, but got instead ", values.size());
   }
+  // check everything before changing anything
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
-- 
2.43.0


From a732b1e6f164177796e9fa54b29a7bd62b5c8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:50 +0000
Subject: [PATCH 13/26] fix: division by zero making a train set over a small
 range of evidences

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index b2df858..58b6b84 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -205,8 +205,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1,
+        static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From 0f7aa87938d0aaaecf950d4282bb5610ae5d7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:40 +0000
Subject: [PATCH 14/26] fix: sampling from a discrete distribution could draw
 impossible values

---
 src/src/structure/GibbsSampler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..836f857 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -21,13 +21,20 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  // the cumulative might end slightly below 1, due to roundings: the last
+  // value having a non null probability is picked in that case
+  std::size_t result = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
+    if (distribution[k] == 0.f) {
+      continue;
+    }
+    result = k;
     cumul += distribution[k];
     if (s <= cumul) {
-      return k;
+      break;
     }
   }
-  return distribution.size() - 1;
+  return result;
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0


From 4b94db265edd50a7ad37cd743bbfa0dbc7050ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:51 +0000
Subject: [PATCH 15/26] fix: without a seed all the sampling threads used the
 same random stream

---
 src/src/structure/GibbsSampler.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 836f857..362d696 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -111,12 +111,13 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  if (std::nullopt != seed) {
-    std::size_t s = *seed;
-    for (auto &engine : engines) {
-      engine.resetSeed(s);
-      s += 5;
-    }
+  // engines of different threads should never use the same seed
+  std::size_t s = (std::nullopt != seed)
+                      ? *seed
+                      : static_cast<std::size_t>(time(NULL));
+  for (auto &engine : engines) {
+    engine.resetSeed(s);
+    s += 5;
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From 7921ce12bb17d09d5db365f6030c8905c9437b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 16/26] fix: train sets were imported from file with altered
 combinations

---
 src/src/io/TrainSetImport.cpp |  4 ++--
 src/src/io/Utils.cpp          | 18 ++++++++++++++++++
 src/src/io/Utils.h            | 16 ++++++++++++----
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..6eb59bd 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -17,13 +17,13 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      auto combination = parse_combination(line);
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..a70968a 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -29,6 +29,24 @@ parse_combination_image(const std::string &line) {
                         static_cast<float>(std::atof(tokens.back().c_str())));
 }
 
+std::size_t parse_size(const std::string &subject) {
+  if (subject.empty() ||
+      (subject.find_first_not_of("0123456789") != std::string::npos)) {
+    throw Error::make(subject, " is not a valid non negative integer");
+  }
+  return static_cast<std::size_t>(std::stoull(subject));
+}
+
+std::vector<std::size_t> parse_combination(const std::string &line) {
+  std::stringstream buff{line};
+  std::vector<std::size_t> comb;
+  std::string token;
+  while (buff >> token) {
+    comb.push_back(parse_size(token));
+  }
+  return comb;
+}
+
 void import_values(factor::Factor &recipient,
                    const std::filesystem::path &file_name) {
   useInStrem(file_name, [&](std::ifstream &stream) {
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..b6a257d 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -42,16 +42,24 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
-    pred(line);
+  while (std::getline(stream, line)) {
+    // blank lines (as for example the last one) don't describe anything
+    if (line.find_first_not_of(" \t\r") != std::string::npos) {
+      pred(line);
+    }
   }
 }
 
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
+/**
+ * @throw in case the passed string is not a non negative integer
+ */
+std::size_t parse_size(const std::string &subject);
+
+std::vector<std::size_t> parse_combination(const std::string &line);
+
 /**
  * @brief Fill the passed factor with the combinations found in the passed file.
  * The file should be a matrix of raw values.
-- 
2.43.0


From 5ebc270f9ef5d2009fd73b7325c51498688e0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:06 +0000
Subject: [PATCH 17/26] fix: json export lost the precision of values and
 weights

---
 src/src/io/json/Exporter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..ae1b255 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -11,6 +11,8 @@
 
 #include "../Utils.h"
 
+#include <cstdio>
+
 namespace EFG::io::json {
 void Exporter::exportToFile(const nlohmann::json &source,
                             const std::filesystem::path &out) {
@@ -19,6 +21,13 @@ void Exporter::exportToFile(const nlohmann::json &source,
 }
 
 namespace {
+// enough digits to get back exactly the same value when importing
+std::string to_string(float subject) {
+  char buffer[32];
+  std::snprintf(buffer, sizeof(buffer), "%.9g", subject);
+  return buffer;
+}
+
 void printVariable(const categoric::VariablePtr &var,
                    nlohmann::json &recipient) {
   recipient["name"] = var->name();
@@ -40,7 +49,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_string(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +61,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_string(distr.getWeight());
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From 70bf58864f5ce53bc60c371c84bda5bb8cbc0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 18/26] fix: json import altered names containing escaped
 characters

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From b53154fdb07e7892c65eacafe79fe62f5269656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:14 +0000
Subject: [PATCH 19/26] fix: malformed json descriptions crashed or were
 silently altered

---
 src/src/io/Utils.cpp         | 10 +++++++
 src/src/io/Utils.h           |  5 ++++
 src/src/io/json/Importer.cpp | 54 ++++++++++++++++++++++++------------
 3 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index a70968a..549a63f 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -7,6 +7,7 @@
 
 #include "Utils.h"
 
+#include <cstdlib>
 #include <sstream>
 
 namespace EFG::io {
@@ -37,6 +38,15 @@ std::size_t parse_size(const std::string &subject) {
   return static_cast<std::size_t>(std::stoull(subject));
 }
 
+float parse_float(const std::string &subject) {
+  char *end = nullptr;
+  const float res = std::strtof(subject.c_str(), &end);
+  if (subject.empty() || (end != subject.c_str() + subject.size())) {
+    throw Error::make(subject, " is not a valid number");
+  }
+  return res;
+}
+
 std::vector<std::size_t> parse_combination(const std::string &line) {
   std::stringstream buff{line};
   std::vector<std::size_t> comb;
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index b6a257d..9f037ad 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -58,6 +58,11 @@ parse_combination_image(const std::string &line);
  */
 std::size_t parse_size(const std::string &subject);
 
+/**
+ * @throw in case the passed string is not a number
+ */
+float parse_float(const std::string &subject);
+
 std::vector<std::size_t> parse_combination(const std::string &line);
 
 /**
diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index d8afd46..4b91bbd 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -11,6 +11,8 @@
 
 #include "../Utils.h"
 
+#include <algorithm>
+
 namespace EFG::io::json {
 nlohmann::json
 Importer::importJsonFromFile(const std::filesystem::path &file_path) {
@@ -35,6 +37,16 @@ const nlohmann::json &access(const nlohmann::json &subject,
   throw Error::make(name, " is inexistent");
 }
 
+// null is accepted as an empty collection
+const nlohmann::json &access_array(const nlohmann::json &subject,
+                                   const std::string &name) {
+  const auto &res = access(subject, name);
+  if (!res.is_array() && !res.is_null()) {
+    throw Error::make(name, " is not an array");
+  }
+  return res;
+}
+
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
     return subject.get<std::string>();
@@ -55,9 +67,10 @@ categoric::VariablePtr findVariable(const std::string &name,
 }
 
 categoric::Group importGroup(const nlohmann::json &subject,
+                             const std::string &name,
                              const categoric::VariablesSet &variables) {
   categoric::VariablesSoup group;
-  for (const auto &var : subject) {
+  for (const auto &var : access_array(subject, name)) {
     group.push_back(findVariable(to_string(var), variables));
   }
   if ((group.size() != 1) && (group.size() != 2)) {
@@ -69,7 +82,7 @@ categoric::Group importGroup(const nlohmann::json &subject,
 std::shared_ptr<factor::Factor>
 importFactor(const nlohmann::json &subject,
              const categoric::VariablesSet &variables) {
-  auto group = importGroup(access(subject, "Variables"), variables);
+  auto group = importGroup(subject, "Variables", variables);
 
   const auto *corr = try_access(subject, "Correlation");
   if (nullptr != corr) {
@@ -89,13 +102,12 @@ importFactor(const nlohmann::json &subject,
   std::shared_ptr<factor::Factor> result =
       std::make_shared<factor::Factor>(categoric::Group{group.getVariables()});
 
-  for (const auto &comb : access(subject, "Distr_val")) {
+  for (const auto &comb : access_array(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
-      combination.push_back(std::atoi(to_string(v).c_str()));
+    for (const auto &v : access_array(comb, "v")) {
+      combination.push_back(parse_size(to_string(v)));
     }
-    const float val =
-        static_cast<float>(std::atof(to_string(access(comb, "D")).c_str()));
+    const float val = parse_float(to_string(access(comb, "D")));
     result->set(std::move(combination), val);
   }
 
@@ -113,14 +125,19 @@ void importPotential(const nlohmann::json &subject,
   }
 
   auto factor = std::make_shared<factor::FactorExponential>(
-      *shape, static_cast<float>(std::atof(to_string(*w).c_str())));
+      *shape, parse_float(to_string(*w)));
   const auto *tunab = try_access(subject, "tunability");
-  if ((nullptr != tunab) && (to_string(*tunab) == "Y")) {
+  const std::string tunability =
+      (nullptr == tunab) ? "N" : to_string(*tunab);
+  if ((tunability != "Y") && (tunability != "N")) {
+    throw Error("invalid option for tunability");
+  }
+  if (tunability == "Y") {
     const auto *share_tag = try_access(subject, "Share");
     if (nullptr == share_tag) {
       importer.importTunable(factor);
     } else {
-      auto group = importGroup(*share_tag, variables).getVariablesSet();
+      auto group = importGroup(subject, "Share", variables).getVariablesSet();
       importer.importTunable(factor, group);
     }
     return;
@@ -134,24 +151,25 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access_array(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
-    const auto size = to_string(access(var, "Size"));
-    auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-    if (variables.find(new_var) != variables.end()) {
+    const auto size = parse_size(to_string(access(var, "Size")));
+    auto new_var = categoric::make_variable(size, name);
+    if (std::any_of(variables.begin(), variables.end(),
+                    [&name](const categoric::VariablePtr &el) {
+                      return el->name() == name;
+                    })) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
     const auto *obs_flag = try_access(var, "evidence");
     if (nullptr != obs_flag) {
-      const std::size_t val =
-          static_cast<std::size_t>(std::atoi(to_string(*obs_flag).c_str()));
-      evidences.emplace(name, val);
+      evidences.emplace(name, parse_size(to_string(*obs_flag)));
     }
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access_array(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From 6c5cd8c8f4b5375eee157705d281910251b05b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:13 +0000
Subject: [PATCH 20/26] fix: absorbed tunable clusters could share the weight
 of another cluster

---
 .../trainable/FactorsTunableManager.h         |  3 +
 src/src/trainable/FactorsTunableManager.cpp   | 59 ++++++++-----------
 2 files changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index 7b23c52..4c31677 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -127,6 +127,9 @@ protected:
   Tuners::iterator findTuner(const categoric::VariablesSet &tuned_vars_group);
 
 private:
+  void insertTunable(const FactorExponentialPtr &factor,
+                     Tuners::iterator other_it);
+
   TunerPtr makeTuner(const FactorExponentialPtr &factor);
 };
 
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index cd3b494..30b3ca3 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -123,13 +123,17 @@ void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
   // search the tuner before inserting, since the search might throw
-  auto other_it = (std::nullopt == group_sharing_weight)
-                      ? tuners.end()
-                      : findTuner(*group_sharing_weight);
+  insertTunable(factor, (std::nullopt == group_sharing_weight)
+                            ? tuners.end()
+                            : findTuner(*group_sharing_weight));
+}
+
+void FactorsTunableInserter::insertTunable(const FactorExponentialPtr &factor,
+                                           Tuners::iterator other_it) {
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
-  if (std::nullopt == group_sharing_weight) {
+  if (other_it == tuners.end()) {
     tuners.emplace_back(std::move(tuner));
     return;
   }
@@ -159,36 +163,25 @@ void FactorsTunableInserter::copyTunableFactor(
 
 void FactorsTunableInserter::absorbTunableClusters(
     const FactorsTunableGetter &source, bool copy) {
-  auto insertFactor =
-      [copy = copy, this](
-          const FactorExponentialPtr &factor,
-          const std::optional<categoric::VariablesSet> &group_sharing_weight) {
-        if (copy) {
-          copyTunableFactor(*factor, group_sharing_weight);
-        } else {
-          addTunableFactor(factor, group_sharing_weight);
-        }
-      };
-
   for (const auto &cluster : source.getTunableClusters()) {
-    try {
-      VisitorConst<FactorExponentialPtr, TunableClusters>{
-          [&insertFactor](const FactorExponentialPtr &base) {
-            insertFactor(base, std::nullopt);
-          },
-          [&insertFactor](const TunableClusters &composite) {
-            auto front_factor = composite.front();
-            const auto &vars =
-                front_factor->function().vars().getVariablesSet();
-            insertFactor(front_factor, std::nullopt);
-            std::for_each(
-                composite.begin() + 1, composite.end(),
-                [&insertFactor, &vars](const FactorExponentialPtr &tuner) {
-                  insertFactor(tuner, vars);
-                });
-          }}
-          .visit(cluster);
-    } catch (...) {
+    TunableClusters factors;
+    VisitorConst<FactorExponentialPtr, TunableClusters>{
+        [&factors](const FactorExponentialPtr &base) {
+          factors.push_back(base);
+        },
+        [&factors](const TunableClusters &composite) { factors = composite; }}
+        .visit(cluster);
+    // the weight is shared with the tuner created for the first inserted
+    // element: other clusters might tune a factor having the same variables
+    const std::size_t cluster_position = tuners.size();
+    for (const auto &factor : factors) {
+      try {
+        insertTunable(
+            copy ? std::make_shared<factor::FactorExponential>(*factor)
+                 : factor,
+            std::next(tuners.begin(), cluster_position));
+      } catch (...) {
+      }
     }
   }
 }
-- 
2.43.0


From 2541972a991e3301f7178e50c55e07d439a9d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:29 +0000
Subject: [PATCH 21/26] fix: distributions of variables with many neighbours
 overflowed

---
 src/src/structure/QueryManager.cpp   | 14 ++++++++++----
 src/src/structure/SpecialFactors.cpp |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index 947b242..a2ee28d 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -11,6 +11,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
+#include <list>
+
 namespace EFG::strct {
 namespace {
 factor::MergedUnaries gather_incoming_messages(Node &subject) {
@@ -114,21 +116,25 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
+  // pointers to the elements are stored
+  std::list<factor::MergedUnaries> outer_messages;
   std::vector<factor::Indicator> indicators;
-  indicators.reserve(locations.size()); // pointers to the elements are stored
+  indicators.reserve(locations.size());
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-        [&node = node, &subgroup_nodes,
+        [&node = node, &subgroup_nodes, &outer_messages,
          &contributions](const HiddenClusters::iterator &) {
-          contributions.emplace(node->merged_unaries.get());
+          std::vector<const factor::Immutable *> unaries = {
+              node->merged_unaries.get()};
           for (const auto &[connected_node, connection] :
                node->active_connections) {
             if (subgroup_nodes.find(connected_node) == subgroup_nodes.end()) {
-              contributions.emplace(connection.message.get());
+              unaries.push_back(connection.message.get());
             } else {
               contributions.emplace(connection.factor.get());
             }
           }
+          contributions.emplace(&outer_messages.emplace_back(unaries));
         },
         [&node = node, &contributions,
          &indicators](const Evidences::iterator &location) {
diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..100f91d 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -71,8 +71,10 @@ MergedUnaries::MergedUnaries(const std::vector<const Immutable *> &factors)
           factors.front()->function().vars().getVariables().front())) {
   for (const auto *factor : factors) {
     merge(*factor);
+    // normalize at every step, otherwise the product of many factors might
+    // overflow (or underflow)
+    normalize();
   }
-  normalize();
 }
 
 void MergedUnaries::merge(const Immutable &to_merge) {
-- 
2.43.0


From 28ec0b674a7bbd848cd8e909cbcd15a75a9275b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 22/26] fix: xml export lost the precision of values and
 weights

---
 src/src/io/xml/Exporter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/src/io/xml/Exporter.cpp b/src/src/io/xml/Exporter.cpp
index b19b5ef..c421968 100644
--- a/src/src/io/xml/Exporter.cpp
+++ b/src/src/io/xml/Exporter.cpp
@@ -14,8 +14,17 @@
 
 #include <XML-Parser/Tag.h>
 
+#include <cstdio>
+
 namespace EFG::io::xml {
 namespace {
+// enough digits to get back exactly the same value when importing
+std::string to_string(float subject) {
+  char buffer[32];
+  std::snprintf(buffer, sizeof(buffer), "%.9g", subject);
+  return buffer;
+}
+
 xmlPrs::Tag &printVariable(const categoric::VariablePtr &var,
                            xmlPrs::Tag &recipient) {
   auto &var_tag = recipient.addNested("Variable");
@@ -40,7 +49,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
       [&](const auto &comb, float img) {
         auto &comb_val = pot_tag.addNested("Distr_val");
         auto &attributes = comb_val.getAttributes();
-        attributes.emplace("D", std::to_string(img));
+        attributes.emplace("D", to_string(img));
         for (auto v : comb) {
           attributes.emplace("v", std::to_string(v));
         }
@@ -51,7 +60,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
 xmlPrs::Tag &printExpPotential(const factor::FactorExponential &distr,
                                xmlPrs::Tag &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag.getAttributes().emplace("weight", std::to_string(distr.getWeight()));
+  pot_tag.getAttributes().emplace("weight", to_string(distr.getWeight()));
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From fe27198db368be95fc3f36f45511770d3850d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:11 +0000
Subject: [PATCH 23/26] fix: malformed tokens of a file of factor values were
 read as zeros

---
 src/src/io/Utils.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 549a63f..77e2168 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -22,12 +22,11 @@ parse_combination_image(const std::string &line) {
     }
   }
   std::vector<std::size_t> comb;
-  std::for_each(
-      tokens.begin(), tokens.end() - 1, [&comb](const std::string &str) {
-        comb.push_back(static_cast<std::size_t>(std::atoi(str.c_str())));
-      });
-  return std::make_pair(std::move(comb),
-                        static_cast<float>(std::atof(tokens.back().c_str())));
+  std::for_each(tokens.begin(), tokens.end() - 1,
+                [&comb](const std::string &str) {
+                  comb.push_back(parse_size(str));
+                });
+  return std::make_pair(std::move(comb), parse_float(tokens.back()));
 }
 
 std::size_t parse_size(const std::string &subject) {
-- 
2.43.0


From 225d9441d6ed49a6f69b26d95c68be667ee01071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 24/26] fix: memory was allocated when ending a request,
 possibly throwing in a destructor

---
 src/src/structure/bases/PoolAware.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index dcf31a0..1d168e5 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -75,11 +75,11 @@ void Pool::parallelFor(const std::vector<Task> &tasks) {
   } while (keep_wait);
 }
 
-PoolAware::PoolAware() { resetPool(); }
+PoolAware::PoolAware() : pool{std::make_unique<Pool>(1)} {}
 
 PoolAware::~PoolAware() = default;
 
-void PoolAware::resetPool() { pool = std::make_unique<Pool>(1); }
+void PoolAware::resetPool() { setPoolSize(1); }
 
 void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
-- 
2.43.0


From 813afbccb91b58461d40bc607225227b6c21ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:12 +0000
Subject: [PATCH 25/26] fix: an interrupted query left incomplete the topology
 used by the next ones

---
 src/src/structure/Types.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/src/structure/Types.cpp b/src/src/structure/Types.cpp
index 79ea0e5..45c63d0 100644
--- a/src/src/structure/Types.cpp
+++ b/src/src/structure/Types.cpp
@@ -110,8 +110,8 @@ HiddenCluster::TopologyInfo::updateMessage(PropagationKind kind) {
 }
 
 void HiddenCluster::updateConnectivity() {
-  auto &topology = connectivity.reset(
-      std::make_unique<std::vector<HiddenCluster::TopologyInfo>>());
+  // stored only when complete, as what follows might throw
+  auto topology = std::make_unique<std::vector<HiddenCluster::TopologyInfo>>();
   for (auto *sender : nodes) {
     sender->updateMergedUnaries();
     if (sender->active_connections.empty()) {
@@ -122,7 +122,7 @@ void HiddenCluster::updateConnectivity() {
       all_dependencies.emplace(&incoming_connection);
     }
     for (auto &[receiver, incoming_connection] : sender->active_connections) {
-      auto &added = topology.emplace_back();
+      auto &added = topology->emplace_back();
       added.sender = sender;
       added.connection = &receiver->active_connections.find(sender)->second;
       auto deps = all_dependencies;
@@ -131,6 +131,7 @@ void HiddenCluster::updateConnectivity() {
           std::vector<const Node::Connection *>{deps.begin(), deps.end()};
     }
   }
+  connectivity.reset(std::move(topology));
 }
 
 namespace {
-- 
2.43.0


From eea66a834db3f7c7749dd6e78fa614202c66b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:24 +0000
Subject: [PATCH 26/26] fix: after an interrupted query the messages already
 discarded were used by the next ones

---
 src/src/structure/bases/BeliefAware.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/structure/bases/BeliefAware.cpp b/src/src/structure/bases/BeliefAware.cpp
index c019b7f..9ccda0e 100644
--- a/src/src/structure/bases/BeliefAware.cpp
+++ b/src/src/structure/bases/BeliefAware.cpp
@@ -80,6 +80,8 @@ void BeliefAware::propagateBelief(PropagationKind kind) {
 
   auto &clusters = stateMutable().clusters;
   auto &pool = getPool();
+  // the previous result is lost, even if what follows throws
+  resetBelief();
   reset_messages(clusters);
 
   PropagationResult result;
-- 
2.43.0

