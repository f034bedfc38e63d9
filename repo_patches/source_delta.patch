From 4d2f709b428b979692151576a0926add00aabee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 01/90] fix: keep X and Z checks in place when a code is handed
 to a decoder

Decoder::setCode passed hZ as the X checks and hX as the Z checks to the
Code constructor, so every decoder worked with the check matrices of the
other side whenever they differ.
---
 include/Decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
-- 
2.43.0


From e86ebded73ab3804953061fc9d52ce6e65cb1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 02/90] fix: UFDecoder visits every node when it computes
 connected components

The traversal read the back of the queue but removed its front, so nodes
were skipped and a single cluster was reported as several ones.
---
 src/UFDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..1ae60a7 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -317,7 +317,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
             std::queue<std::size_t> stack;
             stack.push(c);
             while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
+                auto curr = stack.front();
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-- 
2.43.0


From f3a4811b1d62f98d242b969de416a79278f12ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 03/90] fix: UFDecoder estimates explain the syndrome of their
 cluster

The cluster estimate was solved over all qubits instead of the interior of
the cluster, its consistency was never checked, and the syndrome of check
nodes was looked up with the wrong offset, so clusters were accepted with
estimates that do not reproduce the syndrome.
---
 src/UFDecoder.cpp | 61 ++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 1ae60a7..fa7134c 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -166,52 +166,47 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    const auto interior = computeInteriorBitNodes(nodeSet);
+    if (interior.empty()) {
         return {};
     }
 
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
-
+    // Only the bits in the interior may be used to satisfy the checks of the cluster (all their checks are in the cluster)
+    gf2Mat                redHz;
+    std::vector<uint64_t> redSyndr;
     for (const auto it : nodeSet) {
         if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+            const auto& row = pcm->pcm->at(it - getCode()->getN());
+            gf2Vec      redRow;
+            redRow.reserve(interior.size());
+            for (const auto bit : interior) {
+                redRow.emplace_back(row.at(bit));
             }
+            redHz.emplace_back(redRow);
+            redSyndr.emplace_back(syndrome.find(it) != syndrome.end() ? 1U : 0U); // If the check node is in the syndrome we need to satisfy check=1
         }
     }
-    auto                  redHzCsc = Utils::toCsc(redHz);
-    std::vector<uint64_t> redSyndInt(redSyndr.size());
-    for (std::size_t i = 0; i < redSyndr.size(); i++) {
-        redSyndInt.at(i) = redSyndr.at(i) ? 1 : 0;
+    if (redHz.empty()) { // the cluster has no check to satisfy
+        return {};
+    }
+    auto pluDec = PluDecomposition(redHz.size(), interior.size(), Utils::toCsc(redHz));
+    auto estim  = pluDec.luSolve(redSyndr); // solves the system redHz*x=redSyndr by x to see if a solution can be found
+
+    // luSolve does not detect inconsistent systems
+    for (std::size_t i = 0; i < redHz.size(); i++) {
+        uint64_t parity = 0U;
+        for (std::size_t j = 0; j < interior.size(); j++) {
+            parity ^= redHz.at(i).at(j) ? estim.at(j) : 0U;
+        }
+        if (parity != redSyndr.at(i)) {
+            return {};
+        }
     }
-    auto pluDec = PluDecomposition(redHz.size(), redHz.at(0).size(), redHzCsc);
-    auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
 
     std::set<std::size_t> res;
     for (std::size_t i = 0; i < estim.size(); i++) {
         if (estim.at(i) != 0U) {
-            res.emplace(i);
+            res.emplace(interior.at(i));
         }
     }
     return res;
-- 
2.43.0


From 86d5a3cdb3de9d5c5f0021f2c3e20a910e859fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 04/90] fix: UFDecoder's single-qubit growth picks an existing
 cluster and can always grow

The index of the random cluster could be one past the end, and only the
first node of a cluster was ever grown, which never terminates once its
neighbours are part of the cluster.
---
 src/UFDecoder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index fa7134c..ab98fa5 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -284,13 +284,17 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
     auto                          it        = ccomps.begin();
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
+    // any node of the cluster may be chosen, otherwise the growth stops once the neighbours of a fixed one are included
+    std::uniform_int_distribution dNode(static_cast<std::size_t>(0U), chosenComponent.size() - 1);
+    auto                          nodeIt = chosenComponent.begin();
+    std::advance(nodeIt, dNode(gen));
+    const auto& nbrs = getCode()->gethZ()->getNbrs(*nodeIt);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
-- 
2.43.0


From 393a1e067f28823e9e57abbdeeebb8b689621dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/90] fix: UFDecoder's smallest-cluster growth does not get
 stuck on a cluster that cannot grow

---
 src/UFDecoder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index ab98fa5..cac44ed 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -234,7 +234,12 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
-        if (cId.size() < smallestSize) {
+        // a cluster without neighbours outside of it cannot grow and must not keep the others from growing
+        const bool canGrow = std::any_of(cId.begin(), cId.end(), [&](const auto node) {
+            const auto nbrs = getCode()->gethZ()->getNbrs(node);
+            return std::any_of(nbrs.begin(), nbrs.end(), [&](const auto nbr) { return cId.find(nbr) == cId.end(); });
+        });
+        if (canGrow && cId.size() < smallestSize) {
             smallestComponent = cId;
             smallestSize      = cId.size();
         }
-- 
2.43.0


From 05d36a3fa555e784d2410d99f42f7b9c90c45a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 06/90] fix: UFDecoder decodes both sides of a two-sided
 syndrome on their own checks

---
 include/UFDecoder.hpp | 12 +++----
 src/UFDecoder.cpp     | 73 ++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..682886b 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,12 +19,12 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index cac44ed..0f3b9f9 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -22,21 +22,22 @@
  * @param syndrome
  */
 void UFDecoder::decode(const gf2Vec& syndrome) {
-    if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
-        std::vector<bool> xSyndr;
-        std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
-        std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
-        std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
+    const auto nrZChecks = this->getCode()->gethZ()->pcm->size();
+    if (syndrome.size() > nrZChecks) {
+        // two-sided: the syndrome and the estimate consist of an X-error part followed by a Z-error part
+        const auto              mid = syndrome.begin() + static_cast<std::int64_t>(nrZChecks);
+        const std::vector<bool> xSyndr(syndrome.begin(), mid);
+        const std::vector<bool> zSyndr(mid, syndrome.end());
         doDecode(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
-        this->reset();
+        auto res = this->result;
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        res.decodingTime += this->result.decodingTime;
+        std::copy(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(),
+                  std::back_inserter(res.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            res.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(res);
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -63,18 +64,18 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                singleClusterSmallestFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -82,7 +83,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -114,7 +115,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
+    auto ccomps = getConnectedComps(nodeSet, pcm);
     return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
         bool const res = isValidComponent(comp, syndrome, pcm);
         if (!res) {
@@ -142,11 +143,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -166,7 +167,7 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    const auto interior = computeInteriorBitNodes(nodeSet);
+    const auto interior = computeInteriorBitNodes(nodeSet, pcm);
     if (interior.empty()) {
         return {};
     }
@@ -216,9 +217,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -229,14 +230,14 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * Grows the node set by the neighbours of the single smallest cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                  ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
         // a cluster without neighbours outside of it cannot grow and must not keep the others from growing
         const bool canGrow = std::any_of(cId.begin(), cId.end(), [&](const auto node) {
-            const auto nbrs = getCode()->gethZ()->getNbrs(node);
+            const auto nbrs = pcm->getNbrs(node);
             return std::any_of(nbrs.begin(), nbrs.end(), [&](const auto nbr) { return cId.find(nbr) == cId.end(); });
         });
         if (canGrow && cId.size() < smallestSize) {
@@ -246,7 +247,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
     }
 
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -255,8 +256,8 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -267,7 +268,7 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
     chosenComponent = *it;
 
     for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -284,8 +285,8 @@ void UFDecoder::reset() {
  * Grows the node set by the neighbours of a single random qubit
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -299,7 +300,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::uniform_int_distribution dNode(static_cast<std::size_t>(0U), chosenComponent.size() - 1);
     auto                          nodeIt = chosenComponent.begin();
     std::advance(nodeIt, dNode(gen));
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*nodeIt);
+    const auto& nbrs = pcm->getNbrs(*nodeIt);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
@@ -309,7 +310,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -325,7 +326,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             stack.push(n);
-- 
2.43.0


From 7ca803c4d4877afbe0d675476676b57a4fd56357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 07/90] fix: UFDecoder rejects the growth variant it does not
 implement instead of looping forever

---
 src/UFDecoder.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 0f3b9f9..6d1730f 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -65,8 +65,6 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components, pcm);
-            } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
                 singleClusterSmallestFirstGrowth(components, pcm);
-- 
2.43.0


From 3148374d11d8a6f2202e76784d2eebeda87dc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 08/90] fix: UFHeuristic decodes both sides of a two-sided
 syndrome on their own checks

---
 src/UFHeuristic.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..49ed0f8 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -45,19 +45,21 @@ std::unordered_set<std::size_t> UFHeuristic::computeInitTreeComponents(const gf2
  * @param syndrome
  */
 void UFHeuristic::decode(const gf2Vec& syndrome) {
-    if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
-        std::vector<bool> xSyndr;
-        std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
-        std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
-        std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
+    const auto nrZChecks = this->getCode()->gethZ()->pcm->size();
+    if (syndrome.size() > nrZChecks) {
+        // two-sided: the syndrome and the estimate consist of an X-error part followed by a Z-error part
+        const auto   mid = syndrome.begin() + static_cast<std::int64_t>(nrZChecks);
+        const gf2Vec xSyndr(syndrome.begin(), mid);
+        const gf2Vec zSyndr(mid, syndrome.end());
         doDecoding(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
-        this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        auto res = this->result;
+        doDecoding(zSyndr, this->getCode()->gethX());
+        res.decodingTime += this->result.decodingTime;
+        std::copy(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(), std::back_inserter(res.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            res.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(res);
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -73,7 +75,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
-- 
2.43.0


From 4855e5b47ee91b859c7ed8feaf83160356c0a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 09/90] fix: UFHeuristic starts every decoding without the
 nodes of earlier ones

---
 src/UFHeuristic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 49ed0f8..b8d6888 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -71,6 +71,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    nodeMap.clear(); // the nodes of an earlier decoding must not influence this one
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
-- 
2.43.0


From ad411d01400b00c72773585d041d4cb7618211b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 10/90] fix: UFHeuristic does not take clusters for valid
 before they have grown

---
 src/UFHeuristic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index b8d6888..c19b157 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -351,7 +351,8 @@ bool UFHeuristic::isValidComponent(const std::size_t& compId, const std::unique_
     for (const auto& checkVertex : compNode->checkVertices) {
         const auto& nbrs = pcm->getNbrs(checkVertex);
         for (const auto& nbr : nbrs) {
-            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
+            // a neighbour that does not belong to the component (yet) cannot cover the check
+            if (TreeNode::Find(getNodeFromIdx(nbr)) == TreeNode::Find(compNode) && compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
                 valid.at(i) = true;
                 break;
             }
-- 
2.43.0


From e940a82c53bbb980bcfa09e5f306bc5995121066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 11/90] fix: Q5Laflamme and Q7Steane measure the measured qubit
 into its classical bit, not vice versa

---
 src/ecc/Q5Laflamme.cpp |  4 ++--
 src/ecc/Q7Steane.cpp   | 13 ++-----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8ddcf0d 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -161,8 +161,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 60ad963a8c4acd1e839ba266c7c41a91c729ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 12/90] fix: Q5Laflamme resets its encoding ancilla for every
 logical qubit

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8ddcf0d..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From 93c06579fd91c7bb35522e1b6cade8265bb24352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 13/90] fix: Q9Surface's logical Hadamard maps the X checks
 onto the Z checks

---
 include/ecc/Q9Surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..814aa2e 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -47,7 +47,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    // rotates the grid by 90 degrees, which maps the X checks onto the Z checks and vice versa
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES = {
+            {{0, 2}, {0, 8}, {0, 6}, {1, 5}, {1, 7}, {1, 3}}};
 };
 } // namespace ecc
-- 
2.43.0


From 2528691658ba36d3bc53ed29fb208933995b28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 14/90] fix: the surface codes decode without overwriting
 classical bits of the circuit

---
 src/ecc/Q18Surface.cpp |  2 +-
 src/ecc/Q9Surface.cpp  | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..484b401 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -79,7 +79,7 @@ void Q18Surface::writeDecoding() {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), qcOriginal->getNcbits());
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..c6c9905 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -104,15 +104,16 @@ void Q9Surface::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits = qcOriginal->getNqubits();
+    const auto nQubits    = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits();
     for (std::size_t i = 0; i < nQubits; i++) {
         // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), clAncStart);
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
     }
     isDecoded = true;
 }
-- 
2.43.0


From 562f8f2e43371c97aca982868fed41b624d0ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 15/90] fix: Q7Steane's controlled Y has the right sign

---
 src/ecc/Q7Steane.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..571c4e4 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -186,6 +186,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                 }
             } else {
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+                    if (gate.getType() == qc::Y) {
+                        // seven physical Y's are a logical -Y, whose sign matters if it is controlled
+                        qcMapped->z(ctrls2.begin()->qubit);
+                    }
                     qcMapped->emplace_back<qc::StandardOperation>(
                             static_cast<Qubit>(i + j * nQubits), gate.getType());
                 }
-- 
2.43.0


From 54656fae4ce92f75474da04b295d2133f052d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 16/90] fix: Q7Steane and Q9Shor reject controlled gates they
 cannot apply transversally

---
 src/ecc/Q7Steane.cpp | 12 +++++++++---
 src/ecc/Q9Shor.cpp   |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 571c4e4..e058e06 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -172,6 +172,9 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::H:
     case qc::Y:
     case qc::Z:
+        if (gate.getNcontrols() > 1U || (gate.getNcontrols() == 1U && gate.getType() == qc::H)) {
+            gateNotAvailableError(gate); // only Paulis with a single control are transversal
+        }
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
                 const auto& ctrls = gate.getControls();
@@ -183,13 +186,13 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                     }
                     qcMapped->emplace_back<qc::StandardOperation>(
                             ctrls2, static_cast<Qubit>(i + j * nQubits), gate.getType());
-                }
-            } else {
-                for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
                     if (gate.getType() == qc::Y) {
                         // seven physical Y's are a logical -Y, whose sign matters if it is controlled
                         qcMapped->z(ctrls2.begin()->qubit);
                     }
+                }
+            } else {
+                for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
                     qcMapped->emplace_back<qc::StandardOperation>(
                             static_cast<Qubit>(i + j * nQubits), gate.getType());
                 }
@@ -199,6 +202,9 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
+        if (gate.getNcontrols() != 0U) {
+            gateNotAvailableError(gate); // not transversal
+        }
         addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..6568c9c 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -149,6 +149,9 @@ void Q9Shor::mapGate(const qc::Operation& gate) {
     if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H) {
         writeEncoding();
     }
+    if (gate.getNcontrols() > 1U) {
+        gateNotAvailableError(gate);
+    }
     const auto nQubits = qcOriginal->getNqubits();
     auto       type    = qc::I;
     switch (gate.getType()) {
-- 
2.43.0


From bb2f2f78030d4280f4bac18f230867033eb33d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 17/90] fix: apply_ecc rejects classically controlled
 operations instead of dropping their condition

---
 src/python/bindings.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 100352d..cf9660c 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -38,6 +38,12 @@ py::dict applyEcc(const py::object& circ, const std::string& eccName, const size
     } else {
         py::object const quantumCircuit = py::module::import("qiskit").attr("QuantumCircuit");
         if (py::isinstance(circ, quantumCircuit)) {
+            for (const auto& instruction : circ.attr("data")) { // the import would drop the conditions
+                const auto operation = instruction.attr("operation");
+                if (py::hasattr(operation, "condition") && !operation.attr("condition").is_none()) {
+                    throw std::invalid_argument("Classically controlled operations are not supported");
+                }
+            }
             qc::qiskit::QuantumCircuit::import(*qc, circ);
         }
     }
-- 
2.43.0


From 93cbb8e63ae954adc0386db11120248c79571e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 18/90] fix: barriers after a measurement do not encode the
 qubits again

---
 src/ecc/Ecc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..a9d4251 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -27,7 +27,10 @@ std::shared_ptr<qc::QuantumComputation> Ecc::apply() {
     std::size_t nInputGates = 0U;
     for (const auto& gate : *qcOriginal) {
         nInputGates++;
-        mapGate(*gate);
+        // a barrier does not use any qubit, i.e., decoded qubits do not have to be encoded again
+        if (!isDecoded || gate->getType() != qc::Barrier) {
+            mapGate(*gate);
+        }
         if (measureFrequency > 0 && nInputGates % measureFrequency == 0) {
             measureAndCorrect();
         }
-- 
2.43.0


From 4fe4f3389d2bf5f88e05b8abbd614eb0dadd9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 19/90] fix: applying an error-correcting code keeps idle
 qubits, whose removal left gaps in the qubit indices

---
 src/ecc/Ecc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index a9d4251..c0959d1 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -7,7 +7,6 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     auto cRegs = qcOriginal->getCregs();
     for (auto const& [regName, regBits] : cRegs) {
-- 
2.43.0


From 2cc36f392e2790c1e22771a775585a729691ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 20/90] fix: applying an error-correcting code keeps the order
 of the classical registers and all register names distinct

---
 src/ecc/Ecc.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index c0959d1..362f4e3 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -3,14 +3,26 @@
 #include "ir/QuantumComputation.hpp"
 
 #include <cstddef>
+#include <map>
 #include <memory>
+#include <string>
+#include <utility>
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
+    std::string qRegName = "q";
+    while (qcOriginal->getCregs().count(qRegName) > 0) { // the names of all registers have to be different
+        qRegName += "_";
+    }
+    qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()), qRegName);
+    // the classical bits keep their indices only if the registers are added in their original order
+    auto                                                       cRegs = qcOriginal->getCregs();
+    std::map<std::size_t, std::pair<std::size_t, std::string>> orderedCRegs;
     for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+        orderedCRegs[regBits.first] = {regBits.second, regName};
+    }
+    for (auto const& [regStart, reg] : orderedCRegs) {
+        qcMapped->addClassicalRegister(reg.first, reg.second);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From be5677da74ec2dcecbd4eaa93a93977abf781582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 21/90] fix: using a code or decoder without the needed check
 matrices raises an error instead of crashing

---
 include/Code.hpp    | 31 ++++++++++++++++++++++++++++---
 include/Decoder.hpp |  3 +++
 src/UFDecoder.cpp   |  7 +++++++
 src/UFHeuristic.cpp |  6 ++++++
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/include/Code.hpp b/include/Code.hpp
index 3801275..4bd04a8 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -112,6 +112,18 @@ private:
     std::unique_ptr<ParityCheckMatrix> hX;
     std::unique_ptr<ParityCheckMatrix> hZ;
 
+    void assertHxSet() const {
+        if (!hX) {
+            throw QeccException("hX not set");
+        }
+    }
+
+    void assertHzSet() const {
+        if (!hZ) {
+            throw QeccException("hZ not set");
+        }
+    }
+
 public:
     std::size_t n = 0U;
     std::size_t k = 0U;
@@ -127,10 +139,12 @@ public:
     }
 
     gf2Mat getHxMat() {
+        assertHxSet();
         return *this->hX->pcm;
     }
 
     gf2Mat getHzMat() {
+        assertHzSet();
         return *this->hZ->pcm;
     }
 
@@ -145,7 +159,9 @@ public:
      * Takes matrix hZ over GF(2) and constructs respective code for X errors with Z checks represented by hZ
      * Convention: Rows in first dim, columns in second
      */
-    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)), n(hZ->pcm->front().size()) {
+    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        Utils::assertMatrixPresent(*hZ->pcm);
+        n = hZ->pcm->front().size();
     }
 
     /*
@@ -153,8 +169,10 @@ public:
      * Convention: Rows in first dim, columns in second
      */
     explicit Code(std::vector<std::vector<bool>>& hx, std::vector<std::vector<bool>>& hz) : hX(std::make_unique<ParityCheckMatrix>(hx)),
-                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)),
-                                                                                            n(hZ->pcm->front().size()) {
+                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        Utils::assertMatrixPresent(*hX->pcm);
+        Utils::assertMatrixPresent(*hZ->pcm);
+        n = hZ->pcm->front().size();
     }
 
     /**
@@ -206,6 +224,7 @@ public:
             return getSyndrome(xerr, zerr);
         }
         // per default X errs only
+        assertHzSet();
         gf2Vec syndr((*hZ->pcm).size(), false);
         Utils::rectMatrixMultiply(*hZ->pcm, err, syndr);
         return syndr;
@@ -220,6 +239,8 @@ public:
         if (xerr.empty() || zerr.empty() || xerr.size() != getN() || zerr.size() != getN()) {
             throw QeccException("Cannot compute syndrome, err empty or wrong size");
         }
+        assertHxSet();
+        assertHzSet();
 
         gf2Vec xsyndr((*hZ->pcm).size(), false);
         Utils::rectMatrixMultiply(*hZ->pcm, xerr, xsyndr);
@@ -253,6 +274,8 @@ public:
      * @return
      */
     [[nodiscard]] bool isStabilizer(const gf2Vec& xest, const gf2Vec& zest) const {
+        assertHxSet();
+        assertHzSet();
         return Utils::isVectorInRowspace(*hX->pcm, xest) && Utils::isVectorInRowspace(*hZ->pcm, zest);
     }
 
@@ -267,7 +290,9 @@ public:
         if (std::all_of(est.begin(), est.end(), [](int i) { return !static_cast<bool>(i); })) { // trivial case, all 0 vector
             return true;
         }
+        assertHxSet();
         if (est.size() > getN()) {
+            assertHzSet();
             std::vector<bool> xEst;
             xEst.reserve(getN());
             std::vector<bool> zEst;
diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 53e6ae1..553ab0f 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -85,6 +85,9 @@ public:
         Decoder::growth = g;
     }
     void setCode(Code& c) {
+        if (c.gethZ() == nullptr) {
+            throw QeccException("hZ not set, cannot set code");
+        }
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6d1730f..63569bb 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -2,6 +2,7 @@
 
 #include "Decoder.hpp"
 #include "GF2.hpp"
+#include "QeccException.hpp"
 #include "Utils.hpp"
 
 #include <algorithm>
@@ -22,8 +23,14 @@
  * @param syndrome
  */
 void UFDecoder::decode(const gf2Vec& syndrome) {
+    if (this->getCode() == nullptr) {
+        throw QeccException("Code not set, cannot decode");
+    }
     const auto nrZChecks = this->getCode()->gethZ()->pcm->size();
     if (syndrome.size() > nrZChecks) {
+        if (this->getCode()->gethX() == nullptr) {
+            throw QeccException("hX not set, cannot decode a two-sided syndrome");
+        }
         // two-sided: the syndrome and the estimate consist of an X-error part followed by a Z-error part
         const auto              mid = syndrome.begin() + static_cast<std::int64_t>(nrZChecks);
         const std::vector<bool> xSyndr(syndrome.begin(), mid);
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index c19b157..152710d 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -45,8 +45,14 @@ std::unordered_set<std::size_t> UFHeuristic::computeInitTreeComponents(const gf2
  * @param syndrome
  */
 void UFHeuristic::decode(const gf2Vec& syndrome) {
+    if (this->getCode() == nullptr) {
+        throw QeccException("Code not set, cannot decode");
+    }
     const auto nrZChecks = this->getCode()->gethZ()->pcm->size();
     if (syndrome.size() > nrZChecks) {
+        if (this->getCode()->gethX() == nullptr) {
+            throw QeccException("hX not set, cannot decode a two-sided syndrome");
+        }
         // two-sided: the syndrome and the estimate consist of an X-error part followed by a Z-error part
         const auto   mid = syndrome.begin() + static_cast<std::int64_t>(nrZChecks);
         const gf2Vec xSyndr(syndrome.begin(), mid);
-- 
2.43.0


From 93d4ab70975e192cb6ed91a6500886e93220803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 22/90] fix: setting a check matrix of a code sets its number
 of qubits

---
 include/Code.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Code.hpp b/include/Code.hpp
index 4bd04a8..ca2c9e5 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -149,11 +149,15 @@ public:
     }
 
     void setHx(std::vector<std::vector<bool>>& hx) {
+        Utils::assertMatrixPresent(hx);
         hX = std::make_unique<ParityCheckMatrix>(hx);
+        n  = hx.front().size();
     }
 
     void setHz(std::vector<std::vector<bool>>& hz) {
+        Utils::assertMatrixPresent(hz);
         hZ = std::make_unique<ParityCheckMatrix>(hz);
+        n  = hz.front().size();
     }
     /*
      * Takes matrix hZ over GF(2) and constructs respective code for X errors with Z checks represented by hZ
-- 
2.43.0


From c83230e127582b8162f72d05481111bc0b449ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 23/90] fix: the statistics file of the word error rate
 simulation is valid JSON

---
 src/DecodingSimulator.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..9b8abce 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,17 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            if (!wordErrRatePerPhysicalErrRate.empty()) {
+                statisticsOutstr << ", ";
+            }
+            statisticsOutstr << R"({ "run": { "physicalErrRate":)" << currPer << ", \"data\": [ ";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -93,6 +98,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +109,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    if (statsOut) {
+        statisticsOutstr << " ] }";
+    }
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 28a5aa0bed5f1bb8c1c4a11a87cfa8c179f0336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 24/90] fix: the union-find decoders reject a syndrome that no
 error causes instead of growing forever

---
 src/UFDecoder.cpp   | 10 ++++++++--
 src/UFHeuristic.cpp |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 63569bb..c151248 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -67,8 +67,14 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             components.insert(s);
         }
 
-        while (containsInvalidComponents(components, syndr, invalidComponents, pcm) &&
-               components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
+        while (containsInvalidComponents(components, syndr, invalidComponents, pcm)) {
+            const bool canGrow = std::any_of(components.begin(), components.end(), [&](const auto node) {
+                const auto nbrs = pcm->getNbrs(node);
+                return std::any_of(nbrs.begin(), nbrs.end(), [&](const auto nbr) { return components.find(nbr) == components.end(); });
+            });
+            if (!canGrow) {
+                throw QeccException("There is no error with the given syndrome");
+            }
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components, pcm);
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 152710d..249185e 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -79,6 +79,11 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
     std::vector<std::size_t> res;
     nodeMap.clear(); // the nodes of an earlier decoding must not influence this one
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
+        for (std::size_t i = 0; i < syndrome.size(); i++) {
+            if (syndrome.at(i) && pcm->getNbrs(getCode()->getN() + i).empty()) {
+                throw QeccException("There is no error with the given syndrome");
+            }
+        }
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-- 
2.43.0


From bbac3de88f0f9aeee051d1263ad00386b5315532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 25/90] fix: UFHeuristic can be reset before a code is set

---
 src/UFHeuristic.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 249185e..ed4aed7 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -401,8 +401,7 @@ void UFHeuristic::reset() {
     nodeMap.clear();
     this->result = {};
     this->growth = GrowthVariant::AllComponents;
-    this->getCode()->gethZ()->nbrCache.clear();
-    if (this->getCode()->gethZ()) {
+    if (this->getCode() && this->getCode()->gethZ()) {
         this->getCode()->gethZ()->nbrCache.clear();
     }
 }
-- 
2.43.0


From 76834bcfeb98ac0b7b61a5eec46cd00ddd4d9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 26/90] fix: the number of logical qubits of a stabilizer code
 does not depend on the signs of dependent generators

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..9b37d05 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From 17086fb5e99aa7a9fbcf7c1f14ce78a862adfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 27/90] fix: two Paulis are stabilizer equivalent only if their
 product is a stabilizer

---
 src/mqt/qecc/codes/stabilizer_code.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 9b37d05..829e5bb 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -99,9 +99,8 @@ class StabilizerCode:
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        v1 = pauli_to_binary(p1)
-        v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        product = (pauli_to_binary(p1) + pauli_to_binary(p2)) % 2
+        return bool(mod2.rank(np.vstack((self.generators, product))) == mod2.rank(self.generators))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From 16ed46fe11d7c1a94c063d290fe56e9eb87d0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 28/90] fix: logical operators of a stabilizer code have to be
 paired one to one

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 829e5bb..7b90dfe 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -156,7 +156,7 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not (np.all(np.sum(commutations, axis=0) == 1) and np.all(np.sum(commutations, axis=1) == 1)):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From 355ed81d2a318a52ae7c69840b166c5528440748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 29/90] fix: equality of stabilizer codes respects signs and
 numbers of qubits and agrees with their hashes

---
 src/mqt/qecc/codes/stabilizer_code.py | 36 +++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 7b90dfe..6c6f79b 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -74,16 +74,30 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        return hash((self.n, self._canonical_generators().tobytes()))
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        rnk = mod2.rank(self.generators)
-        return bool(
-            rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
-        )
+        return self.n == other.n and np.array_equal(self._canonical_generators(), other._canonical_generators())
+
+    def _canonical_generators(self) -> npt.NDArray[np.int8]:
+        """Return the generators in reduced row echelon form. Codes are equal if and only if these generators are."""
+        generators = np.array(self.generators, dtype=np.int8)
+        rank = 0
+        for col in range(2 * self.n):
+            pivots = np.flatnonzero(generators[rank:, col])
+            if pivots.size == 0:
+                continue
+            pivot = rank + pivots[0]
+            generators[[rank, pivot]] = generators[[pivot, rank]]
+            rows = np.flatnonzero(generators[:, col])
+            rows = rows[rows != rank]
+            generators[rows] = multiply_paulis(generators[rows], generators[rank])
+            rank += 1
+        # the remaining rows are the identity (up to a sign, if the generators are not consistent)
+        return generators[: rank + int(generators[rank:].any())]
 
     def get_syndrome(self, error: Pauli) -> npt.NDArray:
         """Compute the syndrome of the error.
@@ -213,6 +227,18 @@ def commute(p1: npt.NDArray[np.int8], p2: npt.NDArray[np.int8]) -> bool:
     return bool(symplectic_inner_product(p1, p2) == 0)
 
 
+def multiply_paulis(ps: npt.NDArray[np.int8], p: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
+    """Multiply every Pauli of a 2d array with a Pauli it commutes with (all in binary representation with phase)."""
+    n = p.shape[0] // 2
+    x1, z1 = ps[:, :n].astype(int), ps[:, n : 2 * n].astype(int)
+    x2, z2 = p[:n].astype(int), p[n : 2 * n].astype(int)
+    # power of the imaginary unit that the product of the Paulis acquires on every qubit
+    powers = x1 * z1 * (z2 - x2) + x1 * (1 - z1) * z2 * (2 * x2 - 1) + (1 - x1) * z1 * x2 * (1 - 2 * z2)
+    product = (ps + p) % 2
+    product[:, -1] = (product[:, -1] + powers.sum(axis=1) // 2) % 2
+    return product
+
+
 def anti_commute(p1: npt.NDArray[np.int8], p2: npt.NDArray[np.int8]) -> bool:
     """Check if two Paulistrings in binary representation anti-commute."""
     return not commute(p1, p2)
-- 
2.43.0


From 32aefa4dcda1c936d515ee76fe09cecc7970fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 30/90] fix: signs do not count as qubits of stabilizer
 generators

---
 src/mqt/qecc/codes/stabilizer_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 6c6f79b..8c235ee 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -122,7 +122,7 @@ class StabilizerCode:
         if len(generators) == 0:
             msg = "Stabilizer code must have at least one generator."
             raise InvalidStabilizerCodeError(msg)
-        if not all(len(generators[0]) == len(g) for g in generators):
+        if not all(get_n_qubits_from_pauli(generators[0]) == get_n_qubits_from_pauli(g) for g in generators):
             msg = "All stabilizer generators must have the same length."
             raise InvalidStabilizerCodeError(msg)
 
@@ -210,14 +210,15 @@ def binary_to_pauli_string(b: npt.NDArray) -> str:
 
 def is_pauli_string(p: str) -> bool:
     """Check if a string is a valid Pauli string."""
-    return len(p) > 0 and all(c in {"I", "X", "Y", "Z"} for c in p[1:]) and p[0] in {"+", "-", "I", "X", "Y", "Z"}
+    paulis = p[1:] if p[:1] in {"+", "-"} else p
+    return len(paulis) > 0 and all(c in {"I", "X", "Y", "Z"} for c in paulis)
 
 
 def get_n_qubits_from_pauli(p: Pauli) -> int:
     """Get the number of qubits from a Pauli string."""
     if isinstance(p, np.ndarray):
         return int(p.shape[0] // 2)
-    if p[0] in {"+", "-"}:
+    if p[:1] in {"+", "-"}:
         return len(p) - 1
     return len(p)
 
-- 
2.43.0


From 7058c31c725fb4e4b0feb07520d65d41b0f7f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 31/90] fix: stabilizer generators have to commute and must not
 generate the negative identity

---
 src/mqt/qecc/codes/stabilizer_code.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 8c235ee..9f6509c 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -135,6 +135,15 @@ class StabilizerCode:
 
     def _check_code_correct(self) -> None:
         """Check if the code is correct. Throws an exception if not."""
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "The stabilizer generators must commute."
+            raise InvalidStabilizerCodeError(msg)
+
+        # if the generators are dependent, their product may be the identity with a negative sign
+        if len(self.generators) > self.n - self.k and len(self._canonical_generators()) > self.n - self.k:
+            msg = "The stabilizer generators must not generate the negative identity."
+            raise InvalidStabilizerCodeError(msg)
+
         if self.Lz is not None or self.Lx is not None:
             if self.Lz is None:
                 msg = "If logical X-operators are given, logical Z-operators must also be given."
-- 
2.43.0


From 25f4a2158ebf4d2cf84c9c02deeaef58a4a19467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 32/90] fix: a CSS code is self-dual if its X and Z checks span
 the same space, however many checks are given

---
 src/mqt/qecc/codes/css_code.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..eb91fc1 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -136,11 +136,9 @@ class CSSCode(StabilizerCode):
 
     def is_self_dual(self) -> bool:
         """Check if the code is self-dual."""
-        if self.Hx is None or self.Hz is None:
-            return False
-        return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
-        )
+        if self.Hx.shape[0] == 0 or self.Hz.shape[0] == 0:
+            return self.Hx.shape[0] == self.Hz.shape[0]
+        return bool(mod2.rank(self.Hx) == mod2.rank(self.Hz) == mod2.rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
-- 
2.43.0


From 5e7019320784d0e1cd559f2f726c78a9f4d95c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 33/90] fix: asking for stabilizers of a CSS code without
 checks of one type does not fail

---
 src/mqt/qecc/codes/css_code.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index eb91fc1..dbe89f9 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -104,8 +104,7 @@ class CSSCode(StabilizerCode):
 
     def check_if_x_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
-        assert self.Hx is not None
-        return bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))
+        return self.stabilizer_eq_x_error(pauli, np.zeros_like(pauli))
 
     def check_if_logical_z_error(self, residual: npt.NDArray[np.int8]) -> bool:
         """Check if the residual is a logical error."""
@@ -113,8 +112,7 @@ class CSSCode(StabilizerCode):
 
     def check_if_z_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
-        assert self.Hz is not None
-        return bool(mod2.rank(np.vstack((self.Hz, pauli))) == mod2.rank(self.Hz))
+        return self.stabilizer_eq_z_error(pauli, np.zeros_like(pauli))
 
     def stabilizer_eq_x_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
         """Check if two X errors are in the same coset."""
-- 
2.43.0


From ed979bcea1691183796de61f9736511742b9298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 34/90] fix: ColorCode.check_if_logical_error reports logical
 errors

---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From 63f3cb1a61a536e0d7efefb778ee1d28dbabfa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 35/90] fix: the bivariate bicycle codes do not swap the sizes
 of their two cyclic shifts

---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From 8699b78a3e893bd02acc83c4fa84d357ccdf43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 36/90] fix: decoding lights does not change the caller's list
 of lights

---
 src/mqt/qecc/cc_decoder/decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..c5388f7 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -77,6 +77,7 @@ class LightsOut:
     def validate_model(self, model: ModelRef, lights: list[bool]) -> bool:
         """Validate the model by checking if pressing the switches turns off all lights."""
         assert self.switch_vars is not None
+        lights = list(lights)
         for i, var in enumerate(self.switch_vars):
             if model[var]:
                 # flip all lights that are controlled by this switch
-- 
2.43.0


From 3ee788de59af9f8d35874d4773ec16d7a9f7fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 37/90] fix: an unsolvable lights pattern leaves no constraints
 behind

---
 src/mqt/qecc/cc_decoder/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index c5388f7..f1e950b 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -110,6 +110,8 @@ class LightsOut:
             start = timer()
             result = self.optimizer.check()
             solve_time = timer() - start
+            if str(result) != "sat":
+                self.optimizer.pop()
             assert str(result) == "sat", "No solution found"
 
             # validate the model
-- 
2.43.0


From 4a50107bac7fe83220664411f1821d24543e7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 38/90] fix: state preparation rejects codes without checks of
 one type

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 +-
 src/mqt/qecc/ft_stateprep/state_prep.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..68c7864 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -40,7 +40,7 @@ class NoisyNDFTStatePrepSimulator:
             zero_state: Whether thezero state is prepared or nor.
             parallel_gates: Whether to allow for parallel execution of gates.
         """
-        if code.Hx is None or code.Hz is None:
+        if len(code.Hx) == 0 or len(code.Hz) == 0:
             msg = "The code must have both X and Z checks."
             raise InvalidCSSCodeError(msg)
 
diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..c367656 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -45,7 +45,7 @@ class StatePrepCircuit:
         self.code = code
         self.zero_state = zero_state
 
-        if code.Hx is None or code.Hz is None:
+        if len(code.Hx) == 0 or len(code.Hz) == 0:
             msg = "The CSS code must have both X and Z checks."
             raise InvalidCSSCodeError(msg)
 
@@ -203,7 +203,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         zero_state: If True, prepare the +1 eigenstate of the Z basis. If False, prepare the +1 eigenstate of the X basis.
     """
     logging.info("Starting heuristic state preparation.")
-    if code.Hx is None or code.Hz is None:
+    if len(code.Hx) == 0 or len(code.Hz) == 0:
         msg = "The code must have both X and Z stabilizers defined."
         raise InvalidCSSCodeError(msg)
     checks = code.Hx.copy() if zero_state else code.Hz.copy()
@@ -398,7 +398,7 @@ def _optimal_circuit(
         min_timeout: minimum timeout to start with
         max_timeout: maximum timeout to reach
     """
-    if code.Hx is None or code.Hz is None:
+    if len(code.Hx) == 0 or len(code.Hz) == 0:
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
     checks = code.Hx if zero_state else code.Hz
@@ -1247,7 +1247,7 @@ def _remove_stabilizer_equivalent_faults(
 
 def naive_verification_circuit(sp_circ: StatePrepCircuit) -> QuantumCircuit:
     """Naive verification circuit for a state preparation circuit."""
-    if sp_circ.code.Hx is None or sp_circ.code.Hz is None:
+    if len(sp_circ.code.Hx) == 0 or len(sp_circ.code.Hz) == 0:
         msg = "Code must have stabilizers defined."
         raise ValueError(msg)
 
-- 
2.43.0


From ef0e955cc70ed6df0f51061b7c9300a18973746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 39/90] fix: the heuristic state preparation keeps the order of
 the qubits at a local minimum

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index c367656..34d7e84 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From 16cc27687a0145c426639cc09df482b7fbb9997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 40/90] fix: optimal state preparation works with linearly
 dependent checks

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 34d7e84..8d93fef 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -401,7 +401,7 @@ def _optimal_circuit(
     if len(code.Hx) == 0 or len(code.Hz) == 0:
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
-    checks = code.Hx if zero_state else code.Hz
+    checks = mod2.row_basis(code.Hx if zero_state else code.Hz)
 
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
-- 
2.43.0


From 2f8f00f49fbbca6e0cdf92e7b7f10e6552f33192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 41/90] fix: optimal state preparation finds circuits with
 fewer than two gates

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 8d93fef..186aaba 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -403,6 +403,9 @@ def _optimal_circuit(
         raise ValueError(msg)
     checks = mod2.row_basis(code.Hx if zero_state else code.Hz)
 
+    if np.count_nonzero(np.any(checks, axis=0)) == len(checks):  # already reduced, no CNOTs needed
+        return StatePrepCircuit(_build_circuit_from_list_and_checks([], checks, zero_state), code, zero_state)
+
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
 
@@ -424,7 +427,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From d8ddd362520740b7e94183f5d522f6bcb2ce1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 42/90] fix: fault sets contain the errors before the first
 gate they spread through

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 186aaba..74e1429 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1188,7 +1188,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 8eb3970621dc78aa98aba4d97fef8594a1506071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 43/90] fix: fault sets take the faults of CNOTs at the start
 of a circuit into account

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 74e1429..d108e9c 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -93,7 +93,8 @@ class StatePrepCircuit:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
             for node in dag.front_layer():  # remove hadamards
-                dag.remove_op_node(node)
+                if node.op.name == "h":
+                    dag.remove_op_node(node)
             fault_list = []
             # propagate every error before a control
             nodes = list(dag.topological_op_nodes())
-- 
2.43.0


From f3fa927dc563ceb2fbe0696a2e0c92737784ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 44/90] fix: fault sets of circuits without CNOTs can be
 computed

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index d108e9c..0f5da2d 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -101,7 +101,7 @@ class StatePrepCircuit:
             for i in range(len(nodes)):
                 error = _propagate_error(nodes[i:], dag.num_qubits(), x_errors=x_errors)
                 fault_list.append(error)
-            faults = np.array(fault_list, dtype=np.int8)
+            faults = np.array(fault_list, dtype=np.int8).reshape(-1, self.num_qubits)
             faults = np.unique(faults, axis=0)
 
             if x_errors and self.x_fault_sets_unreduced[1] is None:
-- 
2.43.0


From 669aade4dc4eb4c758a5b9a2cee7b732595855a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 45/90] fix: two-flagged stabilizer measurements work for every
 weight above four

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 0f5da2d..d486939 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1428,18 +1428,18 @@ def measure_stab_two_flagged(
     _flag_init(qc, flag_reg[1], z_measurement)
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
 
+    # flag i is switched on after 2i and off after 2i + 3 CNOTs, only the first two are switched off near the end
     cnots = 2
-    flags = 2
     for q in stab[2:-2]:
         _ancilla_cnot(qc, q, ancilla, z_measurement)
         cnots += 1
         if cnots % 2 == 0 and cnots < len(stab) - 2:
-            _flag_init(qc, flag_reg[flags], z_measurement)
-            _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            _flag_init(qc, flag_reg[cnots // 2], z_measurement)
+            _ancilla_cnot(qc, flag_reg[cnots // 2], ancilla, z_measurement)
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            flag = (cnots - 3) // 2
+            _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1448,8 +1448,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        flag = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1458,8 +1459,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        flag = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From a2f1b4318c2921a1f300227bc4db52da3381ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 46/90] fix: stabilizers of weight three can be measured when
 protecting from two errors

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index d486939..6a37c43 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1341,7 +1341,7 @@ def measure_flagged(
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
+    if w < 4 and t == 2:
         _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-- 
2.43.0


From 68674574ad5cf46d5a50380f663a442b34ba8a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 47/90] fix: the flagged measurement of a single qubit measures
 it once

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 6a37c43..a22ae15 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1337,6 +1337,10 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
+    if w == 1:
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+        return
+
     if t == 1:
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
-- 
2.43.0


From 0793642ddec710750f180806d28a500197d96fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 48/90] fix: optimal verification stabilizers detect errors
 with any odd overlap

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index a22ae15..930e5bd 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1103,7 +1103,11 @@ def _symbolic_vector_add(
 
 def _odd_overlap(v_sym: npt.NDArray[z3.BoolRef | bool], v_con: npt.NDArray[np.int8]) -> z3.BoolRef:
     """Return True if the overlap of symbolic vector with constant vector is odd."""
-    return z3.PbEq([(v_sym[i], 1) for i, c in enumerate(v_con) if c == 1], 1)
+    parity = z3.BoolVal(False)
+    for i, c in enumerate(v_con):
+        if c == 1:
+            parity = z3.Xor(parity, v_sym[i])
+    return parity
 
 
 def _symbolic_vector_eq(v1: npt.NDArray[z3.BoolRef | bool], v2: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
-- 
2.43.0


From b3e466f7b1626934502bc2cb406db24f6ffecf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 49/90] fix: hook errors of a verification measurement spread
 to all remaining qubits

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 930e5bd..cc77844 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1622,5 +1622,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From 4ed40ba75897ccb8df8ed69acad90f6b74286f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 50/90] fix: optimal verification of codes with an empty check
 terminates

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index cc77844..5693fb3 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -622,7 +622,7 @@ def gate_optimal_verification_stabilizers(
         # Minimal CNOT solution must be achievable with these
         num_anc = max_ancillas
         checks = sp_circ.z_checks if x_errors else sp_circ.x_checks
-        min_cnots: int = np.min(np.sum(checks, axis=1))
+        min_cnots: int = max(np.min(np.sum(checks, axis=1)), 1)  # the search needs a positive start
         max_cnots: int = np.sum(checks)
 
         logging.info(
-- 
2.43.0


From ec2da5e1851ae35bfc2213d216fe05568a425ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 51/90] fix: flagged Z measurements of a verification circuit
 are read out once

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 5693fb3..69a4098 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -959,7 +959,8 @@ def _measure_ft_z(qc: QuantumCircuit, z_measurements: list[npt.NDArray[np.int8]]
             measure_flagged(qc, stab, z_anc[i], z_c[i], z_measurement=True, t=t)
         else:
             qc.cx(stab, [z_anc[i]] * len(stab))
-    qc.measure(z_anc, z_c)
+    if not flags:
+        qc.measure(z_anc, z_c)
 
 
 def _measure_ft_stabs(
-- 
2.43.0


From 7405ed2041bab1cab4ae65641eaa9386864f0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 52/90] fix: the naive verification ignores empty checks

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 69a4098..de36bc3 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1260,8 +1260,8 @@ def naive_verification_circuit(sp_circ: StatePrepCircuit) -> QuantumCircuit:
         msg = "Code must have stabilizers defined."
         raise ValueError(msg)
 
-    z_measurements = list(sp_circ.code.Hx)
-    x_measurements = list(sp_circ.code.Hz)
+    z_measurements = [check for check in sp_circ.code.Hx if np.any(check)]
+    x_measurements = [check for check in sp_circ.code.Hz if np.any(check)]
     reps = sp_circ.max_errors
     return _measure_ft_stabs(sp_circ, z_measurements * reps, x_measurements * reps)
 
-- 
2.43.0


From 81b2e5dca3418ae613bf06bf864ac1b0cb23f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 53/90] fix: the lookup-table decoder accepts syndromes of
 every integer type

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 68c7864..952080e 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -361,13 +361,13 @@ class LutDecoder:
         """Decode the X errors given a syndrome."""
         if len(self.x_lut) == 0:
             self.generate_x_lut()
-        return self.x_lut[syndrome.tobytes()]
+        return self.x_lut[syndrome.astype(np.int8).tobytes()]
 
     def decode_z(self, syndrome: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
         """Decode the Z errors given a syndrome."""
         if len(self.z_lut) == 0:
             self.generate_z_lut()
-        return self.z_lut[syndrome.tobytes()]
+        return self.z_lut[syndrome.astype(np.int8).tobytes()]
 
     def generate_x_lut(self) -> None:
         """Generate the lookup table for the X errors."""
-- 
2.43.0


From 64f96035532b4e854445ba08f276fe255939b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 54/90] fix: generating the Z lookup table of a self-dual code
 first does not lose it

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 952080e..495ebb5 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -387,7 +387,7 @@ class LutDecoder:
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
         if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From b32eca3c4e346f9f267e038586ccf0b087786f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 55/90] fix: the lookup tables of X and Z errors are shared
 only if the checks have the same rows

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 495ebb5..3e12b81 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,7 +386,7 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.x_lut = self.z_lut
 
     @staticmethod
-- 
2.43.0


From 21cbb438c70e72021bcce7346b5c454a42f1467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 56/90] fix: the number of simulated shots does not count a
 batch that was not run

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 3e12b81..3d4b881 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -261,6 +261,8 @@ class NoisyNDFTStatePrepSimulator:
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
             i += 1
+        else:
+            i -= 1  # all batches are done, i is already the number of the next one
 
         return p_l / self.code.k, r_a, num_logical_errors, i * batch
 
-- 
2.43.0


From ecc5dc7ac37776bfbebc2e9bb4826c5ab38e9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 57/90] fix: the state preparation simulator applies Hadamards
 to qubits that are targets first

---
 src/mqt/qecc/ft_stateprep/simulation.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 3d4b881..a96dd7e 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -101,7 +101,7 @@ class NoisyNDFTStatePrepSimulator:
         """
         initialized = [False for _ in self.circ.qubits]
         stim_circuit = stim.Circuit()
-        ctrls = []
+        plus: set[int] = set()  # qubits initialized in the X basis that were not used yet
 
         def idle_error(used_qubits: list[int]) -> None:
             for q in self.circ.qubits:
@@ -125,8 +125,9 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
-                    if initialized[qubit]:
+                    if not initialized[qubit]:
+                        plus ^= {qubit}
+                    else:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
                         if not self.parallel_gates:
@@ -138,16 +139,16 @@ class NoisyNDFTStatePrepSimulator:
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
-                    if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
+                    for qubit in (ctrl, target):
+                        if initialized[qubit]:
+                            continue
+                        if qubit in plus:
+                            stim_circuit.append_operation("H", [qubit])
+                            stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                            plus.remove(qubit)
                         else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
-                    if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                            stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                        initialized[qubit] = True
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
-- 
2.43.0


From 1bb4d0cdccf4465d874d4765b79738b5ee826625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 58/90] fix: the state preparation simulator initializes qubits
 without two-qubit gates

---
 src/mqt/qecc/ft_stateprep/simulation.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index a96dd7e..24e946d 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -109,6 +109,15 @@ class NoisyNDFTStatePrepSimulator:
                 if initialized[qubit] and qubit not in used_qubits:
                     stim_circuit.append_operation("DEPOLARIZE1", [self.circ.find_bit(q)[0]], [2 * self.p / 3])
 
+        def initialize(qubit: int) -> None:
+            if qubit in plus:
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                plus.remove(qubit)
+            else:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            initialized[qubit] = True
+
         dag = circuit_to_dag(self.circ)
         layers = dag.layers()
         used_qubits: list[int] = []
@@ -140,15 +149,8 @@ class NoisyNDFTStatePrepSimulator:
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
                     for qubit in (ctrl, target):
-                        if initialized[qubit]:
-                            continue
-                        if qubit in plus:
-                            stim_circuit.append_operation("H", [qubit])
-                            stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
-                            plus.remove(qubit)
-                        else:
-                            stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
-                        initialized[qubit] = True
+                        if not initialized[qubit]:
+                            initialize(qubit)
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
@@ -175,6 +177,11 @@ class NoisyNDFTStatePrepSimulator:
                     if measured[anc] == 2:
                         self._reused_qubits += 1
 
+        # qubits that take part in no gate
+        for qubit in range(self.circ.num_qubits):
+            if not initialized[qubit] and not measured[qubit]:
+                initialize(qubit)
+
         return stim_circuit
 
     def measure_stabilizers(self) -> None:
-- 
2.43.0


From 7545540f69ba4324e9f486c2d180a737a804086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 59/90] fix: the state preparation simulator reads out all data
 qubits however often ancillas are reused

---
 src/mqt/qecc/ft_stateprep/simulation.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 24e946d..d86dfb2 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -77,13 +77,8 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
+        self.num_qubits = self.code.n
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -122,7 +117,7 @@ class NoisyNDFTStatePrepSimulator:
         layers = dag.layers()
         used_qubits: list[int] = []
         targets = set()
-        measured: defaultdict[int, int] = defaultdict(int)
+        measured: set[int] = set()
         for layer in layers:
             layer_circ = dag_to_circuit(layer["graph"])
 
@@ -173,13 +168,11 @@ class NoisyNDFTStatePrepSimulator:
                     else:
                         used_qubits.append(anc)
                     initialized[anc] = False
-                    measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
+                    measured.add(anc)
 
         # qubits that take part in no gate
         for qubit in range(self.circ.num_qubits):
-            if not initialized[qubit] and not measured[qubit]:
+            if not initialized[qubit] and qubit not in measured:
                 initialize(qubit)
 
         return stim_circuit
-- 
2.43.0


From dc304e65c79500faa7c9fd6b7801f165bbe63727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 60/90] fix: batches without accepted shots do not count as
 free of logical errors

---
 src/mqt/qecc/ft_stateprep/simulation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d86dfb2..c504731 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -236,6 +236,7 @@ class NoisyNDFTStatePrepSimulator:
         r_a = 0.0
 
         num_logical_errors = 0
+        num_accepted = 0
 
         if self.zero_state:
             self.decoder.generate_x_lut()
@@ -250,14 +251,11 @@ class NoisyNDFTStatePrepSimulator:
                 logging.INFO,
                 f"Batch {i}: {num_logical_errors_batch} logical errors and {discarded_batch} discarded shots. {batch - discarded_batch} shots used.",
             )
-            p_l_batch = num_logical_errors_batch / (batch - discarded_batch) if discarded_batch != batch else 0.0
-            p_l = ((i - 1) * p_l + p_l_batch) / i
-
-            r_a_batch = 1 - discarded_batch / batch
-
             # Update statistics
             num_logical_errors += num_logical_errors_batch
-            r_a = ((i - 1) * r_a + r_a_batch) / i
+            num_accepted += batch - discarded_batch
+            p_l = num_logical_errors / num_accepted if num_accepted != 0 else 0.0
+            r_a = num_accepted / (i * batch)
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
-- 
2.43.0


From 79740a2ac5472e562ec9902f7238296f5627b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 61/90] fix: results can be merged from a folder given by a
 relative path

---
 .../utils/data_utils.py                       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..b861f17 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -365,16 +365,14 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                file_path = folder_path / filename
-                with file_path.open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -405,15 +403,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -444,8 +441,7 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
@@ -453,7 +449,7 @@ def merge_json_files_z(input_path: str) -> None:
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -484,15 +480,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From 81ac4aa020f2714d2b7daa3956409cec103f7788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 62/90] fix: results with separate X and Z syndrome noise are
 stored in their own folder

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index b861f17..e2b1c77 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -155,7 +155,7 @@ def create_outpath(
         if "sigma" in kwargs:
             path += f"per_{kwargs['data_err_rate']:.3e}_sigma_{kwargs['sigma']:.3e}/"
         if "z_sigma" in kwargs:
-            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}"
+            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}/"
     else:
         path += f"per_{kwargs['data_err_rate']:.3e}_ser_{kwargs['syndr_err_rate']:.3e}/"
 
-- 
2.43.0


From e8643ad7128c024dfa5008b43ba7d929d6fbb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 63/90] fix: the error bar of the word error rate is propagated
 from the logical error rate

---
 .../qecc/analog_information_decoding/utils/data_utils.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index e2b1c77..7a069ff 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -77,7 +77,9 @@ def calculate_error_rates(
     logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)
     word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_params["k"])
     word_error_rate_eb = (
-        logical_err_rate_eb * ((1 - logical_err_rate_eb) ** (1 / code_params["k"] - 1)) / code_params["k"]
+        logical_err_rate_eb * ((1 - logical_err_rate) ** (1 / code_params["k"] - 1)) / code_params["k"]
+        if success_cnt > 0
+        else 0.0
     )
     return (
         logical_err_rate,
@@ -202,7 +204,9 @@ def _update_error_rates(success_cnt: int, runs: int, code_k: int) -> tuple[float
     logical_err_rate = 1.0 - (success_cnt / runs)
     logical_err_rate_eb = np.sqrt((1 - logical_err_rate) * logical_err_rate / runs)
     word_error_rate = 1.0 - (1 - logical_err_rate) ** (1 / code_k)
-    word_error_rate_eb = logical_err_rate_eb * ((1 - logical_err_rate_eb) ** (1 / code_k - 1)) / code_k
+    word_error_rate_eb = (
+        logical_err_rate_eb * ((1 - logical_err_rate) ** (1 / code_k - 1)) / code_k if success_cnt > 0 else 0.0
+    )
     return (
         logical_err_rate,
         logical_err_rate_eb,
-- 
2.43.0


From 6b36ec001bdb0b0e88a4f6ef9951ac9b632625b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 64/90] fix: zero padding of an alist file does not set matrix
 entries

---
 .../qecc/analog_information_decoding/utils/simulation_utils.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index af33225..f73c182 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -34,7 +34,7 @@ def alist2numpy(fname: str) -> NDArray[np.int32]:  # current original implementa
     for i in range(m):
         columns = [item for item in alist_file[i + 4].split() if item.isdigit()]
         columns_two: NDArray[np.int32] = np.array(columns, dtype=np.int32)
-        columns_two -= 1  # convert to zero indexing
+        columns_two = columns_two[columns_two > 0] - 1  # skip padding and convert to zero indexing
         mat[i, columns_two] = 1
 
     return mat
-- 
2.43.0


From 41fc89ec3223ee4a4112018cc2bb1480daade949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 65/90] fix: the seed of the analog simulators determines their
 samples

---
 .../utils/simulation_utils.py                         | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index f73c182..e9c05b4 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -22,6 +22,11 @@ def set_seed(value: float) -> None:
     np.random.seed(value)  # noqa: NPY002
 
 
+def _get_rng() -> np.random.Generator:
+    """Returns a generator that draws from the random state seeded by set_seed."""
+    return np.random.Generator(np.random.get_bit_generator())
+
+
 def alist2numpy(fname: str) -> NDArray[np.int32]:  # current original implementation is buggy
     """Converts an alist file to a numpy array."""
     alist_file: NDArray[np.str_] = np.loadtxt(fname, delimiter=",", dtype=str)
@@ -99,7 +104,7 @@ def generate_err(
     residual_err_z = residual_err[1]
 
     for i in range(nr_qubits):
-        rand = np.random.default_rng().random()  # this returns a random float in [0,1)
+        rand = _get_rng().random()  # this returns a random float in [0,1)
         # e.g. if err channel is p = 0.3, then an error will be applied if rand < p
         if rand < channel_probs_z[i]:  # if probability for z error high enough, rand < p, apply
             # if there is a z error on the i-th bit, flip the bit but take residual error into account
@@ -166,7 +171,7 @@ def generate_syndr_err(channel_probs: NDArray[np.float64]) -> NDArray[np.int32]:
     error: NDArray[np.int32] = np.zeros_like(channel_probs, dtype=np.int32)
 
     for i, p in np.ndenumerate(channel_probs):
-        rand = np.random.default_rng().random()
+        rand = _get_rng().random()
 
         if rand < p:
             error[i] = 1
@@ -187,7 +192,7 @@ def get_noisy_analog_syndrome(perfect_syndr: NDArray[np.int_], sigma: float) ->
     ).astype(float)
 
     # sample from Gaussian with zero mean and sigma std. dev: ~N(0, sigma_sq)
-    return np.array(np.random.default_rng().normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
+    return np.array(_get_rng().normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
 
 
 def error_channel_setup(
-- 
2.43.0


From 3f7dbae155719982c6366451a1607bbbc64c85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 66/90] fix: the single-shot simulator can write its results

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..709ba3d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -700,7 +700,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 2b42ec23434067b06fa73bf07e7d896f3f022862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 67/90] fix: single-stage decoding of hard syndromes does not
 need analog options

---
 .../analog_information_decoding/simulators/simulation.py   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 709ba3d..7e28bf6 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -131,10 +131,9 @@ class SingleShotSimulator:
         self.x_syndr_error_channel = full_x_syndr_err_chnl[0] + full_x_syndr_err_chnl[1]  # x+y
         self.z_syndr_error_channel = full_z_syndr_err_chnl[2] + full_z_syndr_err_chnl[1]  # z+y
 
-        # if we want to decode with analog syndrome noise and an analog decoder
-        if self.analog_info or self.analog_tg:
-            self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
-            self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
+        # syndrome noise strength in case we want to decode with analog syndrome noise and an analog decoder
+        self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
+        self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
 
         # if we want to decode with the analog tanner graph method construct respective matrices.
         # These are assumed to exist in the *_setup() methods
-- 
2.43.0


From 414c3ddb28785d3793039d438e4f3c0ac0f6ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 68/90] fix: two-stage analog decoding of X errors uses the X
 error channel

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 7e28bf6..79e4c1e 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -423,14 +423,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From 92b3c2c02e9ebabeb48ff573e31b54621edee7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 69/90] fix: without logical operators the single-shot
 simulator compares the residual error with the stabilizers

---
 .../analog_information_decoding/simulators/simulation.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 79e4c1e..79d8b5c 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -218,13 +218,13 @@ class SingleShotSimulator:
 
         # check for logical errors
         # check if residual X-error commutes with Z-logical and vice versa
-        # equivalently, check if residual X-error is in rowspace of Hz and vice versa
+        # equivalently, check if residual X-error is in rowspace of Hx and vice versa
         if self._check_logicals:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From 82a39b7199831a70a3766c8451acc11c89cca79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 70/90] fix: analog decoding of noiseless syndromes does not
 invert them

---
 .../qecc/analog_information_decoding/simulators/simulation.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 79d8b5c..553724e 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -240,6 +240,9 @@ class SingleShotSimulator:
                 x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
                 z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
                 z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
+        elif self.analog_info or self.analog_tg:  # analog decoders expect {-1,+1} values
+            x_syndrome_w_err = get_signed_from_binary(x_syndrome).astype(np.float64)
+            z_syndrome_w_err = get_signed_from_binary(z_syndrome).astype(np.float64)
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
-- 
2.43.0


From 14ea2832a25918e48ccc51fe450fc077bdd52ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 71/90] fix: two-stage decoding without meta checks thresholds
 analog syndromes

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 553724e..2731840 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -409,6 +409,8 @@ class SingleShotSimulator:
                 meta_pcm=self.Mx,
                 m_bp=self.mz_bp,
             )
+        elif self.analog_info or self.analog_tg:
+            z_syndrome_repaired = get_binary_from_analog(z_syndrome_w_err)
         else:
             z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
 
@@ -418,6 +420,8 @@ class SingleShotSimulator:
                 meta_pcm=self.Mz,
                 m_bp=self.mx_bp,
             )
+        elif self.analog_info or self.analog_tg:
+            x_syndrome_repaired = get_binary_from_analog(x_syndrome_w_err)
         else:
             x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
 
-- 
2.43.0


From 8c08174fabdc6244a867edeb7464ebb526b8505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 72/90] fix: the quasi-single-shot simulator decodes hard
 syndromes

---
 .../simulators/quasi_single_shot_v2.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..750aba7 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -150,6 +150,7 @@ class QssSimulator:
         channel_probs[self.check_block_size :] = np.array(self.syndr_err_channel.tolist() * (self.repetitions))
 
         # If we do ATG decoding, initialize sigma (syndrome noise strength)
+        self.sigma = 0.0
         if self.analog_tg:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
@@ -173,7 +174,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +196,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From aa7c968e38f179f1990b71c92800b03372a81030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 73/90] fix: measurement errors before the tentative region do
 not flip its first syndrome

---
 .../simulators/memory_experiment_v2.py             | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..b9e7011 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -131,15 +131,8 @@ def decode_multiround(
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-    # extract time correction
 
     if last_round is False:
-        # this corresponds to the decoding on the second block of the H3D matrix
-        time_correction = decoded[pcm.shape[1] * repetitions :].reshape((repetitions, pcm.shape[0])).T
-
-        # append time correction with zeros
-        time_correction = np.hstack((time_correction, np.zeros((pcm.shape[0], 1), dtype=np.int32)))
-
         # correct only in the commit region
         decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]
 
@@ -147,13 +140,10 @@ def decode_multiround(
         corr_syndrome = (pcm @ decoded) % 2
 
         # propagate the syndrome correction through the tentative region
+        # these are recorded (not difference) syndromes, hence they are independent of measurement errors of round
+        # region_size - 1 and only need to be updated according to the space correction
         syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2).astype(np.int32)
 
-        # apply the time correction of round region_size - 1 to the syndrome at the beginning of the tentative region
-        syndrome[:, region_size] = ((syndrome[:, region_size] + time_correction[:, region_size - 1]) % 2).astype(
-            np.int32
-        )
-
     else:
         # correct in the commit and tentative region as the last round stabilizer is perfect
         decoded = (np.cumsum(space_correction, 1) % 2)[:, -1]
-- 
2.43.0


From 5a1d7a83be9340a621170828af4a7128f262f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 74/90] fix: the perfect last round of a sample does not affect
 the decoding of later samples

---
 .../simulators/memory_experiment_v2.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b9e7011..0a8ba13 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -126,6 +126,10 @@ def decode_multiround(
 
     decoded = decoder.decode(diff_syndrome.flatten("F"))
 
+    if last_round and not analog_tg and decoding_method == "bposd":
+        # the decoder object is reused for windows that do not end with a perfect round
+        decoder.update_channel_probs(channel_probs)
+
     if decoding_method == "bposd":
         bp_iter = decoder.iter
 
-- 
2.43.0


From a8aab116fb7866e4c28863e510d7bc9819cea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 75/90] fix: the quasi-single-shot simulator decodes the errors
 of all rounds

---
 .../simulators/quasi_single_shot_v2.py                       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 750aba7..73a81f9 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -227,6 +227,11 @@ class QssSimulator:
             else:  # last round is perfect
                 syndrome = np.copy(noiseless_syndrome)
                 analog_syndrome = get_noisy_analog_syndrome(noiseless_syndrome, 0.0)  # no noise
+                # repeat it until the window is full, such that the errors of all rounds are decoded
+                syndrome_mat[:, cnt:-1] = syndrome[:, None]
+                if analog_syndr_mat is not None:
+                    analog_syndr_mat[:, cnt:-1] = analog_syndrome[:, None]
+                cnt = self.repetitions - 1
 
             # fill the corresponding column of the syndrome/analog syndrome matrix
             syndrome_mat[:, cnt] += syndrome
-- 
2.43.0


From 214d3ecdcdec609c68a5cfa55d43b31836e310dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 76/90] fix: the analog Tanner graph simulator supports perfect
 syndromes

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..6e715b5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -185,12 +185,14 @@ class AtdSimulator:
             error_channel=self.full_error_channel[0] + self.full_error_channel[1],  # x + y errors
             pcm=self.Hz,
             sigma=self.x_sigma,
+            ser=None if self.x_sigma > 0.0 else 0.0,
             bp_params=self.bp_params,
         )
         self.z_decoder = Decoder(
             error_channel=self.full_error_channel[2] + self.full_error_channel[1],  # z + y errors
             pcm=self.Hx,
             sigma=self.z_sigma,
+            ser=None if self.z_sigma > 0.0 else 0.0,
             bp_params=self.bp_params,
         )
         self.x_bp_iterations = 0
-- 
2.43.0


From 8b67162fb0e0d7e19ca74cfb548458385a727827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 77/90] fix: the analog Tanner graph simulator can write its
 results

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index 6e715b5..fa679fd 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -307,6 +308,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From 9e719c7ec9c7e6241fe326aeac5cb36b199fc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 78/90] fix: results with an integer bias array can be written

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 7a069ff..778a889 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -179,7 +179,7 @@ def replace_inf(lst: list[str]) -> list[str]:
         if np.isinf(item):
             new_lst.append("i")
         else:
-            new_lst.append(item)
+            new_lst.append(item.item() if isinstance(item, np.generic) else item)
     return new_lst
 
 
-- 
2.43.0


From 9bc2bfc5be1cac2f2af856367e2fef6343818de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 79/90] fix: the sparse code constructor stores the code it
 constructs

---
 .../code_construction/sparse_code_constructor.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..a4d0fb0 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -175,7 +175,7 @@ def _store_code_params(hx: csr_matrix, hz: csr_matrix, codename: str) -> None:
     code_k = n - mod2.rank(hx) - mod2.rank(hz)
     code_dict["n"] = n
     code_dict["k"] = code_k
-    with Path(f"/codes/generated_codes/{codename}/code_params.txt").open("w", encoding="utf-8") as file:
+    with (Path(create_outpath(codename)) / "code_params.txt").open("w", encoding="utf-8") as file:
         file.write(json.dumps(code_dict))
 
 
@@ -205,9 +205,11 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From 8582c09a6c830add4c6e8d88a822e7206c9d2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 80/90] fix: merging the results of one side does not report
 those of a single data set for the other

---
 .../qecc/analog_information_decoding/utils/data_utils.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 778a889..161f7b2 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -287,6 +287,10 @@ def _merge_datasets_x(_datasets: list[dict[str, Any]]) -> dict[str, Any]:
             merged_data = dict(datasets.pop(i))
             break
 
+    # the results of the other side are not merged
+    for key in ("ler", "ler_eb", "wer", "wer_eb", "success_cnt"):
+        merged_data.pop(f"z_{key}", None)
+
     # Extract and add up the values for "nr_runs", "x_success_cnt", and "z_success_cnt"
     for data in datasets:
         merged_data["nr_runs"] += data.get("nr_runs", 0)
@@ -334,6 +338,10 @@ def _merge_datasets_z(_datasets: list[dict[str, Any]]) -> dict[str, Any]:
             merged_data = dict(datasets.pop(i))
             break
 
+    # the results of the other side are not merged
+    for key in ("ler", "ler_eb", "wer", "wer_eb", "success_cnt"):
+        merged_data.pop(f"x_{key}", None)
+
     # Extract and add up the values for "nr_runs", "x_success_cnt", and "z_success_cnt"
     for data in datasets:
         merged_data["nr_runs"] += data.get("nr_runs", 0)
-- 
2.43.0


From 22e6f18daceb6d8de0e2da1e10c9c2251666a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 81/90] fix: the average runtime of a run does not include the
 samples of the runs before it

---
 src/DecodingSimulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 9b8abce..4812fe4 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -152,10 +152,10 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
     }
     try {
         for (const auto& currPath : codePaths) {
-            std::size_t avgDecodingTimeAcc = 0U;
-            auto        code               = Code(currPath);
-            const auto  codeN              = code.getN();
+            auto       code  = Code(currPath);
+            const auto codeN = code.getN();
             for (std::size_t j = 0; j < nrRuns; j++) {
+                std::size_t avgDecodingTimeAcc = 0U;
                 for (std::size_t i = 0; i < nrSamples; i++) {
                     std::unique_ptr<Decoder> decoder;
                     if (decoderType == DecoderType::UfDecoder) {
-- 
2.43.0


From 7d6c9cf554fee5130c3b06516e98608f6f1181bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 82/90] fix: color codes are equal to and have the hash of
 other codes with their stabilizers

---
 src/mqt/qecc/codes/color_code.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 8d94c97..4281315 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -37,16 +37,6 @@ class ColorCode(CSSCode):
         CSSCode.__init__(self, distance, self.H, self.H)
         self.L = self.Lz
 
-    def __hash__(self) -> int:
-        """Compute a hash for the color code."""
-        return hash(self.H.tobytes())
-
-    def __eq__(self, other: object) -> bool:
-        """Check if two color codes are equal."""
-        if not isinstance(other, ColorCode):
-            return NotImplemented
-        return np.array_equal(self.H, other.H)
-
     def add_qubits(self) -> None:
         """Compute the ancilla and data qubits lists from the lattice type."""
 
-- 
2.43.0


From 47c20399f8c2516a2e1d9d40f22e6ae0a0b08101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 83/90] fix: the wrapper reads the swap and id gates of
 circuits and of encoded circuits

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 058cdea..9597a48 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -7,7 +7,7 @@ import locale
 import pathlib
 from typing import TYPE_CHECKING
 
-from qiskit.qasm2 import dump, load, loads
+from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS, dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
     NoiseModel,
@@ -165,7 +165,7 @@ def main() -> None:
     else:
         noise_model = NoiseModel()
 
-    circ = load(open_qasm_file)
+    circ = load(open_qasm_file, custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
@@ -175,7 +175,7 @@ def main() -> None:
     if ecc is not None:
         # Applying error correction to the circuit
         result = apply_ecc(circ, ecc, ecc_frequency)
-        circ = loads(result["circ"])
+        circ = loads(result["circ"], custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if ecc_export_filename is not None:
         print("Exporting circuit to: " + str(ecc_export_filename))  # noqa: T201
-- 
2.43.0


From 85161234c95544e6371199240f4966d31fa98084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:43 +0000
Subject: [PATCH 84/90] fix: stored evaluation circuits are valid, accept
 without errors and are fault tolerant exactly where their names say so

---
 .../circuits/hamming/plus_ft_heuristic_opt.qasm |  2 +-
 .../circuits/hamming/zero_non_ft_heuristic.qasm | 17 -----------------
 .../circuits/hamming/zero_non_ft_heuristic.stim |  5 +----
 .../plus_ft_heuristic_heuristic.qasm            |  3 ++-
 .../plus_ft_heuristic_heuristic.stim            |  2 +-
 .../plus_ft_heuristic_opt.qasm                  |  3 ++-
 .../plus_ft_heuristic_opt.stim                  |  2 +-
 .../zero_non_ft_heuristic.qasm                  |  4 ----
 .../zero_non_ft_heuristic.stim                  |  2 +-
 9 files changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
index 19cae23..8d75774 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
@@ -40,9 +40,9 @@ h x_anc[0];
 cx x_anc[0],q[5];
 cx x_anc[0],q[10];
 cx x_anc[0],q[12];
+h x_anc[1];
 cx x_anc[1],q[1];
 h x_anc[0];
-h x_anc[1];
 cx x_anc[1],q[3];
 cx x_anc[1],q[8];
 cx x_anc[1],q[14];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
index 67383fb..9c3baff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
@@ -1,8 +1,6 @@
 OPENQASM 2.0;
 include "qelib1.inc";
 qreg q[15];
-qreg z_anc[2];
-creg z_c[2];
 h q[0];
 h q[1];
 h q[3];
@@ -29,18 +27,3 @@ cx q[5],q[13];
 cx q[4],q[12];
 cx q[2],q[10];
 cx q[6],q[14];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[6],z_anc[0];
-cx q[7],z_anc[0];
-cx q[9],z_anc[0];
-cx q[11],z_anc[0];
-cx q[13],z_anc[0];
-cx q[5],z_anc[1];
-cx q[9],z_anc[1];
-cx q[12],z_anc[1];
-cx q[13],z_anc[1];
-cx q[14],z_anc[1];
-measure z_anc[0] -> z_c[0];
-measure z_anc[1] -> z_c[1];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
index 2ed65ad..a83d288 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
 H 0 1 3 7
-CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14 0 15 5 16 2 15 4 15 6 15 7 15 9 15 11 15 9 16 13 15 12 16 13 16
-MR 15
-CX 14 16
-MR 16
+CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14
\ No newline at end of file
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
index d1e48ed..624bd4d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
+cx x_anc[0],q[6];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
index 98e1b25..84aad4c 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 4 9 5 9 6
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
index 98e1b25..0f56339 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 3 9 4 9 5
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
index 201bb88..8299439 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
@@ -13,7 +13,3 @@ cx q[7],q[4];
 cx q[6],q[3];
 cx q[2],q[5];
 cx q[0],q[1];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[5],z_anc[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
index 21c90bf..5a3534b 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
@@ -1,2 +1,2 @@
 H 0 2 5 6
-CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4 0 9 2
+CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4
-- 
2.43.0


From f971aab2f4d207727b514cb5b98470a26e9ba8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 85/90] fix: the evaluation script of state preparation honours
 --no_ver and the distance of color codes

---
 .../eval/estimate_logical_error_rate.py       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..6e2a2b5 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -41,22 +41,28 @@ def main() -> None:
     parser.add_argument("--naive_ver", default=False, action="store_true", help="Use naive verification")
     parser.add_argument("--no_ver", action="store_true", help="Use no verification")
     parser.add_argument(
-        "-d", "--distance", type=int, default=3, help="Code Distance (only required for surface and color codes)"
+        "-d",
+        "--distance",
+        type=int,
+        default=None,
+        help="Code Distance (only required for surface and color codes). Default: 3 (surface), 5 (color)",
     )
     parser.add_argument("--no_parallel_gates", default=False, action="store_true")
 
     args = parser.parse_args()
     code_name = args.code
     if "surface" in code_name:
-        d = args.distance
+        d = args.distance if args.distance is not None else 3
         code = CSSCode.from_code_name("surface", d)
         code_name = f"rotated_surface_d{d}"
     elif "cc_4_8_8" in code_name:
-        d = 5
+        d = args.distance if args.distance is not None else 5
         code = SquareOctagonColorCode(d)
+        code_name = "cc_4_8_8" if d == 5 else f"cc_4_8_8_d{d}"
     elif "cc_6_6_6" in code_name:
-        d = 5
+        d = args.distance if args.distance is not None else 5
         code = HexagonalColorCode(d)
+        code_name = "cc_6_6_6" if d == 5 else f"cc_6_6_6_d{d}"
     elif code_name in available_codes:
         code = CSSCode.from_code_name(code_name)
     else:
@@ -67,8 +73,11 @@ def main() -> None:
     ver_circ_name = ("opt" if args.exact_ver else "heuristic") if not args.naive_ver else "naive"
 
     state_name = "zero" if args.zero_state else "plus"
-    ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    circ_file = (
+        f"{state_name}_non_ft_{sp_circ_name}.qasm"
+        if args.no_ver
+        else f"{state_name}_ft_{sp_circ_name}_{ver_circ_name}.qasm"
+    )
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -80,7 +89,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0


From 0aa82829ec9e664690d216806daffc6cdb3714af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:35 +0000
Subject: [PATCH 86/90] fix: plots of decoding times are in microseconds, show
 incomplete results, and keep thresholds and times in separate axes

The stored times are seconds but were labelled (and limited) as microseconds; curves over the distance failed when some
distances lacked an error rate; the threshold was drawn into the plot of the times (always for the first logical); solvers
of the comparison could share a color.
---
 src/mqt/qecc/cc_decoder/plots.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 02355b6..b5066d0 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -140,7 +140,8 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
         metrics[d]["p"].append(p)
         metrics[d][ler_k].append(result[ler_k])
         metrics[d][ler_eb_k].append(result[ler_eb_k])
-        metrics[d]["avg_total_time"].append(result["avg_total_time"])
+        # convert from seconds to microseconds
+        metrics[d]["avg_total_time"].append(result["avg_total_time"] * 1e6)
         metrics[d][min_wts_k].append(result[min_wts_k])
 
         per_metrics[p][d] = result[ler_k]
@@ -183,7 +184,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(mdata["avg_total_time"][i])
     for p, pdata in sorted(p_data.items()):
-        ax[2][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[1][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -191,8 +192,8 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
     ax[1][1].set_xticks(ds)
     ax[1][1].set_ylim(0, 185000)
     for logical_idx in range(len(mdata[ler_k][0])):
-        calculate_threshold(code_dict=metrics, ax=ax[1][logical_idx], title="Threshold")
-    plot_ler_vs_distance(per_metrics, ax=ax[3][0], pers=[0.01])
+        calculate_threshold(code_dict=metrics, ax=ax[2][logical_idx], title="Threshold", logical_idx=logical_idx)
+    plot_ler_vs_distance(per_metrics, ax=ax[3][0], pers=[p for p in [0.01] if p in per_metrics])
     # save plot as vector graphic
     plt.savefig(results_file, bbox_inches="tight")
 
@@ -251,7 +252,7 @@ def generate_plots_tn(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(t)
     for p, pdata in sorted(p_data.items()):
-        ax[1][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[1][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -278,7 +279,6 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
         "cyan",
         "olive",
     ]
-    idx = 0
     solver_to_col: dict[str, str] = {}
     p_to_col: dict[float, str] = {}
     for subdir, _, files in os.walk(results_dir):
@@ -287,8 +287,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
         data = []
         solver = subdir.split("/")[-1]
         if solver not in solver_to_col:
-            solver_to_col[solver] = cols[idx]
-            idx += 1
+            solver_to_col[solver] = cols[len(solver_to_col)]
         for f in files:
             fp = subdir + "/" + f
             with Path(fp).open(encoding="utf-8") as ff:
@@ -302,7 +301,8 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                 metrics[d] = {"p": [], "avg_total_time": []}
 
             metrics[d]["p"].append(p)
-            metrics[d]["avg_total_time"].append(result["avg_total_time"])
+            # convert from seconds to microseconds
+            metrics[d]["avg_total_time"].append(result["avg_total_time"] * 1e6)
 
         for d, mdata in sorted(metrics.items()):
             if d in {17, 21}:
@@ -332,7 +332,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                     p_data[p]["t"].append(pdata["avg_total_time"][i])
         for p, ppdata in sorted(p_data.items()):
             ax[1].plot(
-                ds,
+                ppdata["d"],
                 ppdata["t"],
                 label="p=" + str(p) + ", " + (solver if solver == "z3" else "CASHWMaxSAT-CorePlus"),
                 color=p_to_col[p],
-- 
2.43.0


From 2aa3e6973a282bd85a1b0a31a4b11e01a1065960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:41 +0000
Subject: [PATCH 87/90] fix: lifted products of one protograph with itself,
 bias-tailored products of rectangular protographs

---
 scripts/numerics/code_construct/lifted_hgp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index e522c66..e111533 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -34,7 +34,7 @@ class LiftedHgp(css_code):
         self.a_m, self.a_n = self.a.shape
 
         if b is None:
-            self.b = pt.copy(self.a)
+            self.b = pt.array(self.a)
         else:
             self.b = b
 
@@ -96,11 +96,11 @@ class BiasTailoredLiftedProduct(stab_code):
         lhgp = LiftedHgp(lift_parameter, a, b)
 
         # Hadamard rotation
-        temp1 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hz2_proto])
-        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp1 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hz2_proto])
+        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hx2_proto.shape)])
         self.hx_proto = pt.vstack([temp1, temp2])
-        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hx2_proto.shape)])
-        temp2 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hx2_proto])
+        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp2 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hx2_proto])
         self.hz_proto = pt.vstack([temp1, temp2])
 
         super().__init__(
-- 
2.43.0


From 4ce797286462394359a15e0778e9e1bcdbeffe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 88/90] fix: compute_distances.sh prints the distances of the
 meta codes under the names create_code reads

---
 .../code_construction/compute_distances.sh                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
index 2b6e4b5..5575407 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
@@ -46,8 +46,8 @@ zcode := CheckMatCode(parityCheckMatrix, GF(2));
 
 
 
-# Print("dMx = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
-Print("dMx = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
-Print("dMz = ", MinimumDistanceLeon(zcode), "\n");
+# Print("dMX = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
+Print("dMX = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
+Print("dMZ = ", MinimumDistanceLeon(zcode), "\n");
 
 EOF
-- 
2.43.0


From 5ddb356d6db12e39d987a904842d1b04492ab495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:04 +0000
Subject: [PATCH 89/90] fix: stored stim circuits for the Hamming code are
 fault tolerant and use no spare qubits, as the OpenQASM ones

---
 .../hamming/plus_ft_heuristic_heuristic.stim      | 14 ++++++--------
 .../circuits/hamming/plus_ft_heuristic_opt.stim   | 15 +++++++++------
 .../eval/circuits/hamming/plus_ft_opt_opt.stim    | 13 ++++++-------
 .../circuits/hamming/plus_non_ft_heuristic.stim   |  7 ++-----
 4 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
index d01a8d8..cd14b36 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
@@ -1,10 +1,8 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 0 16 5 15 4 15 7 15 8 15 9 15 14 16 9
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
 H 15
-CX 16 11
+CX 15 0 15 2 15 4 15 6 15 7 15 9 15 11 15 13
+H 15 16
+CX 16 5 16 9 16 12 16 13 16 14
 H 16
-MR 15
-MR 16
+MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
index 510d666..f500fa2 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
@@ -1,7 +1,10 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 4 16 1 15 9 16 3 15 14 16 5
-H 15 16
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
+H 15
+CX 15 5 15 10 15 12
+H 16
+CX 16 1
+H 15
+CX 16 3 16 8 16 14
+H 16
 MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
index 8f0ae7a..05f8679 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
@@ -1,11 +1,10 @@
-H 0 1 2 4 5 6 7 8 9 12 13 15 16
-CX 4 3 2 11 9 14
-CX 1 2 3 10 11 9 14 4
-CX 5 4 12 3 13 9 7 14
-CX 2 3 0 12 14 10 4 2 6 10 12 11 15 0 8 4 15 13 16 0 3 8 15 14 9 3 8 11
+H 2 3 4 5 6 7 8 9 10 13 14
+CX 10 0 0 1 7 1 3 12 6 10 8 1 4 11 11 3 13 11 9 8 14 0 10 12 3 1 5 6 0 11 6 0 7 0 1 10 11 1 9 4 2 4 4 5
+H 15
+CX 15 0 15 9 15 10
 H 15
-CX 10 11 16 9
 MR 15
-CX 16 10
+H 16
+CX 16 4 16 8 16 11
 H 16
 MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
index 143753f..4482ea2 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
-- 
2.43.0


From 5105a771e92dfed788f99c88da0aae6c9b903df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:45 +0000
Subject: [PATCH 90/90] fix: whether two Paulis are stabilizer equivalent does
 not depend on signs

---
 src/mqt/qecc/codes/stabilizer_code.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 9f6509c..0ea40a1 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -112,9 +112,9 @@ class StabilizerCode:
         return [binary_to_pauli_string(s) for s in self.generators]
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
-        """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        product = (pauli_to_binary(p1) + pauli_to_binary(p2)) % 2
-        return bool(mod2.rank(np.vstack((self.generators, product))) == mod2.rank(self.generators))
+        """Check if two Pauli strings are equivalent up to stabilizers of the code and signs."""
+        product = (pauli_to_symplectic_vec(p1) + pauli_to_symplectic_vec(p2)) % 2
+        return bool(mod2.rank(np.vstack((self.symplectic_matrix, product))) == self.n - self.k)
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0

