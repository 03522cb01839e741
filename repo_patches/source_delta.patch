From 18fa8a2c87be38e916b963b5afcfe7cf3c553e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 01/34] fix: setEdgeSource leaves the graph unchanged when the
 new source is an action

The edge was unregistered from its old source before the attempt to register
it to the new one threw, leaving an edge whose source did not list it.
---
 gegelatilib/src/tpg/tpgGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..9df8f59 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -286,6 +286,12 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
     auto iterNewSrc = findVertex(&newSrc);
     auto iterEdge = findEdge(&edge);
     if (iterNewSrc != this->vertices.end() && iterEdge != this->edges.end()) {
+        // An action can not be the source of an edge. Check this before
+        // changing anything, so that the graph is left unchanged on failure.
+        if (dynamic_cast<const TPG::TPGAction*>(&newSrc) != nullptr) {
+            throw std::runtime_error(
+                "Cannot add an outgoing edge to an Action vertex.");
+        }
         // Unregister the edge from the old source
         const TPG::TPGVertex* oldSrc = iterEdge->get()->getSource();
         auto iterOldSrc = findVertex(oldSrc);
-- 
2.43.0


From a99126727a64cd53d0e662bd359845c6180f4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 02/34] fix: a move-constructed TPGGraph keeps a usable factory

The factory was neither moved nor created, so adding a vertex or an edge to a
move-constructed graph dereferenced a null pointer, and a graph assigned from
an instrumented one kept building non-instrumented elements.
---
 gegelatilib/include/tpg/tpgGraph.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..b1f0139 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -73,7 +73,9 @@ namespace TPG {
          *
          * \param[in] model the TPGGraph to copy
          */
-        TPGGraph(TPGGraph&& model) noexcept : env{model.getEnvironment()}
+        TPGGraph(TPGGraph&& model) noexcept
+            : env{model.getEnvironment()},
+              factory{std::make_unique<TPGFactory>()}
         {
             swap(*this, model);
         }
@@ -88,6 +90,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +309,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::unique_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From a9e75c6d60501d0bc69f1a8f05c903e9787e1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 03/34] fix: refuse to initialize teams with less than two
 outgoing edges

With maxInitOutgoingEdges < 2 the number of additional edges underflowed:
the graph was filled until programs ran out and std::out_of_range was thrown
on a half built graph.
---
 gegelatilib/include/mutator/tpgMutator.h | 1 +
 gegelatilib/src/mutator/tpgMutator.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/gegelatilib/include/mutator/tpgMutator.h b/gegelatilib/include/mutator/tpgMutator.h
index 5c347ce..3ffe73e 100644
--- a/gegelatilib/include/mutator/tpgMutator.h
+++ b/gegelatilib/include/mutator/tpgMutator.h
@@ -70,6 +70,7 @@ namespace Mutator {
          * \param[in] rng Random Number Generator used in the mutation process.
          * \throw std::runtime_error if maxInitOutgoingEdges exceeds nbAction.
          *        Or if nbAction is smaller than 1.
+         *        Or if maxInitOutgoingEdges is smaller than 2.
          */
         void initRandomTPG(TPG::TPGGraph& graph,
                            const MutationParameters& params, Mutator::RNG& rng);
diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index cf6be20..1eb8ea7 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -66,6 +66,10 @@ void Mutator::TPGMutator::initRandomTPG(
     if (params.tpg.nbActions < 2) {
         throw std::runtime_error("A TPG with a single action makes no sense.");
     }
+    if (params.tpg.maxInitOutgoingEdges < 2) {
+        throw std::runtime_error("Maximum initial number of outgoing edges "
+                                 "cannot be lower than two");
+    }
     // Empty graph
     graph.clear();
 
-- 
2.43.0


From db5e736c884dfb7365f5dab793ab6133c5fdb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 04/34] fix: assigning a PrimitiveTypeArray invalidates its
 cached hash

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..bd001d4 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..0e1b6a8 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From ffd13de1edf9fad1a5624001873f1fe6fb27353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 05/34] fix: array hashes do not collide for elements 64
 positions apart

---
 gegelatilib/include/data/arrayWrapper.h   | 8 ++++----
 gegelatilib/include/data/pointerWrapper.h | 8 +++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..2e274ba 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -418,10 +418,10 @@ namespace Data {
         Data::Hash<T> hasher;
 
         for (T dataElement : *(this->containerPtr)) {
-            // Rotate by 1 because otherwise, xor is comutative.
-            this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-            this->cachedHash ^= hasher((T)dataElement);
+            // Chain the hashes, because xor (even with a rotation by 1) lets
+            // elements 64 positions apart cancel each other.
+            this->cachedHash = Data::_Fnv1a_append_value(
+                this->cachedHash, hasher((T)dataElement));
         }
 
         // Validate the cached hash value
diff --git a/gegelatilib/include/data/pointerWrapper.h b/gegelatilib/include/data/pointerWrapper.h
index 0fbf6aa..64c41e6 100644
--- a/gegelatilib/include/data/pointerWrapper.h
+++ b/gegelatilib/include/data/pointerWrapper.h
@@ -154,11 +154,9 @@ namespace Data {
             // reset
             this->cachedHash = Data::Hash<size_t>()(this->id);
 
-            // Rotate by 1 because otherwise, xor is comutative.
-            this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-
-            this->cachedHash ^= Data::Hash<T>()(*this->containerPtr);
+            // Same computation as for a PrimitiveTypeArray with one element.
+            this->cachedHash = Data::_Fnv1a_append_value(
+                this->cachedHash, Data::Hash<T>()(*this->containerPtr));
             return this->cachedHash;
         }
         else {
-- 
2.43.0


From 18123374a558c449a70de5a964960ed660fdca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 06/34] fix: an Array2DWrapper without data refuses access
 instead of crashing

---
 gegelatilib/include/data/array2DWrapper.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..8aec221 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -285,6 +285,11 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        // Throw exception in case of null ptr.
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
+
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0


From 7cfb40b5ed30353fe6d4c8fe8b2fff647e9a1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 07/34] fix: the archive does not mix recordings of programs
 sharing a reused address

---
 gegelatilib/include/archive.h         | 10 ++++++----
 gegelatilib/include/program/program.h | 21 +++++++++++++++++++++
 gegelatilib/src/archive.cpp           |  9 +++++----
 gegelatilib/src/program/program.cpp   |  7 +++++++
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/gegelatilib/include/archive.h b/gegelatilib/include/archive.h
index 123bc01..e731ef9 100644
--- a/gegelatilib/include/archive.h
+++ b/gegelatilib/include/archive.h
@@ -65,6 +65,9 @@ typedef struct ArchiveRecording
     /// Value returned by the Program for the DataHandler with the specified
     /// hash.
     const double result;
+
+    /// Identifier of the Program. Contrary to the pointer, it is never reused.
+    const uint64_t progId;
 } ArchiveRecording;
 
 /**
@@ -108,8 +111,8 @@ class Archive
         dataHandlers;
 
     /**
-     * \brief Map storing the Program pointers referenced in recordings the
-     * associated recording.
+     * \brief Map storing the Program identifiers referenced in recordings with
+     * the associated recording.
      *
      * The Map is filled in the addRecording method, and elements are removed
      * whenever the las ArchiveRecording referencing a Program is removed from
@@ -117,8 +120,7 @@ class Archive
      *
      * The Map is used to speed the unicity tests.
      */
-    std::map<const Program::Program*, std::deque<ArchiveRecording>>
-        recordingsPerProgram;
+    std::map<uint64_t, std::deque<ArchiveRecording>> recordingsPerProgram;
 
     /// Recordings of the Archive
     std::deque<ArchiveRecording> recordings;
diff --git a/gegelatilib/include/program/program.h b/gegelatilib/include/program/program.h
index ae4b77c..7cccf9f 100644
--- a/gegelatilib/include/program/program.h
+++ b/gegelatilib/include/program/program.h
@@ -38,6 +38,8 @@
 #define PROGRAM_H
 
 #include <algorithm>
+#include <atomic>
+#include <cstdint>
 #include <vector>
 
 #include "data/constantHandler.h"
@@ -51,7 +53,19 @@ namespace Program {
      */
     class Program
     {
+      private:
+        /// Number of Program built so far, used to attribute their id.
+        static std::atomic<uint64_t> count;
+
       protected:
+        /**
+         * \brief Identifier of the Program, different for each Program.
+         *
+         * Contrary to the address of the Program, which may be given to another
+         * Program once this one is destroyed, the identifier is never reused.
+         */
+        const uint64_t id{count++};
+
         /// Environment within which the Program will be executed.
         const Environment& environment;
 
@@ -269,6 +283,13 @@ namespace Program {
          */
         const Data::Constant getConstantAt(size_t index) const;
 
+        /**
+         * \brief Get the identifier of the Program.
+         *
+         * \return the identifier, that no other Program ever has.
+         */
+        uint64_t getId() const;
+
         /**
          * \brief Check if two Program have the same behavior.
          *
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..d290794 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -96,16 +96,17 @@ void Archive::addRecording(
         }
 
         // Create and stores the recording
-        ArchiveRecording recording{program, hash, result};
+        ArchiveRecording recording{program, hash, result, program->getId()};
         this->recordings.push_back(recording);
 
         // Update the recordings per Program
-        auto iterNbRecordings = this->recordingsPerProgram.find(program);
+        auto iterNbRecordings = this->recordingsPerProgram.find(recording.progId);
         if (iterNbRecordings != this->recordingsPerProgram.end()) {
             iterNbRecordings->second.push_back(recording);
         }
         else {
-            this->recordingsPerProgram.insert({program, {recording}});
+            this->recordingsPerProgram.insert(
+                {recording.progId, {recording}});
         }
 
         // Check if Archive max size was reached (or exceeded)
@@ -138,7 +139,7 @@ void Archive::addRecording(
 
             // Update the recordingsPerProgram of the corresponding Program,
             // and remove it if it was the last.
-            auto iter = this->recordingsPerProgram.find(rec.prog);
+            auto iter = this->recordingsPerProgram.find(rec.progId);
             iter->second.pop_front();
             if (iter->second.size() == 0) {
                 this->recordingsPerProgram.erase(iter);
diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..a262a35 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -44,6 +44,13 @@
 
 #include "program/program.h"
 
+std::atomic<uint64_t> Program::Program::count{0};
+
+uint64_t Program::Program::getId() const
+{
+    return this->id;
+}
+
 Program::Program::~Program()
 {
     while (!lines.empty()) {
-- 
2.43.0


From 336da6668e934e9c12097a9ff0e32edd37ed7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 08/34] fix: initializing a LearningAgent again forgets its
 previous results

---
 gegelatilib/src/learn/learningAgent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..7e1b1ca 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -78,8 +78,9 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Forget the results obtained with the previous graph (if any)
+    this->forgetPreviousResults();
+    this->bestScoreLastGen = 0.0;
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
-- 
2.43.0


From 86a89f371d05fbaf1352f22c5a8e0cf211e7f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 09/34] fix: merging EvaluationResults without evaluation does
 not give NaN

---
 gegelatilib/src/learn/adversarialEvaluationResult.cpp    | 5 +++++
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 7 +++++++
 gegelatilib/src/learn/evaluationResult.cpp               | 3 ++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialEvaluationResult.cpp b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
index 77a41a9..d6b900a 100644
--- a/gegelatilib/src/learn/adversarialEvaluationResult.cpp
+++ b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
@@ -59,6 +59,11 @@ Learn::EvaluationResult& Learn::AdversarialEvaluationResult::operator+=(
             "Size mismatch between AdversarialEvaluationResults.");
     }
 
+    // Nothing to average
+    if (this->nbEvaluation + otherConverted.nbEvaluation == 0) {
+        return *this;
+    }
+
     // If the added type is Learn::EvaluationResult
     // Weighted addition of results
     for (int i = 0; i < scores.size(); i++) {
diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..881a482 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,13 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // Class never met
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) ==
+                0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
diff --git a/gegelatilib/src/learn/evaluationResult.cpp b/gegelatilib/src/learn/evaluationResult.cpp
index cffb98b..9c3e54b 100644
--- a/gegelatilib/src/learn/evaluationResult.cpp
+++ b/gegelatilib/src/learn/evaluationResult.cpp
@@ -57,7 +57,8 @@ Learn::EvaluationResult& Learn::EvaluationResult::operator+=(
     }
 
     // If the added type is Learn::EvaluationResult
-    if (thisType == typeid(Learn::EvaluationResult)) {
+    if (thisType == typeid(Learn::EvaluationResult) &&
+        this->nbEvaluation + other.nbEvaluation > 0) {
         // Weighted addition of results
         this->result = this->result * (double)this->nbEvaluation +
                        other.result * (double)other.nbEvaluation;
-- 
2.43.0


From 1ded5016a7c0bd639c9afd8d4e5a91436b2bfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 10/34] fix: decimating all evaluated roots does not read past
 the results

---
 gegelatilib/src/learn/learningAgent.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 7e1b1ca..777f402 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -377,6 +377,15 @@ void Learn::LearningAgent::updateEvaluationRecords(
         }
     }
 
+    // All evaluated roots may have been decimated
+    if (results.empty()) {
+        if (this->bestRoot.first != nullptr &&
+            !this->tpg->hasVertex(*this->bestRoot.first)) {
+            this->bestRoot = {nullptr, nullptr};
+        }
+        return;
+    }
+
     { // Update bestRoot
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
-- 
2.43.0


From 1167321c934f87a5418792c2b04b53cd02f8d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 11/34] fix: keepBestPolicy keeps the best policy when it is
 not a root, and forgets removed vertices

---
 gegelatilib/src/learn/learningAgent.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 777f402..c9ed717 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -432,13 +432,16 @@ void Learn::LearningAgent::keepBestPolicy()
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
-            auto roots = this->tpg->getRootVertices();
+        auto roots = this->tpg->getRootVertices();
+        while (roots.size() != 1 || roots.front() != bestRootVertex) {
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
                 }
             }
+            roots = this->tpg->getRootVertices();
         }
     }
 }
-- 
2.43.0


From a4a25c9da85ba641e33f5cf5434b5d44f806e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 12/34] fix: records of a graph that is restarted from scratch
 are forgotten

---
 gegelatilib/src/learn/learningAgent.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index c9ed717..413b730 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -230,6 +231,16 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // Without root team, populateTPG restarts from a new graph
+    auto roots = this->tpg->getRootVertices();
+    if (std::none_of(roots.begin(), roots.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
-- 
2.43.0


From 8c38b02b2b0955eff2c27d55d16dc4da06838c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 13/34] fix: the first champions are picked within the existing
 roots

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..d8833b2 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -192,6 +192,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
-- 
2.43.0


From 6a0ee1a72964e883cd8e20be75c52ffc7fea94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 14/34] fix: champions of an adversarial training never are
 removed vertices

---
 .../include/learn/adversarialLearningAgent.h  | 19 +++++++++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    | 28 +++++++++++++++++++
 3 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..051a027 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -82,6 +82,9 @@ namespace Learn {
          */
         std::vector<const TPG::TPGVertex*> champions;
 
+        /// Forget the champions that do not belong to the given TPGGraph.
+        void forgetRemovedChampions(const TPG::TPGGraph& tpgGraph);
+
         /**
          * \brief Number of agents per evaluation (e.g. 2 in tic-tac-toe).
          */
@@ -199,6 +202,22 @@ namespace Learn {
             uint64_t generationNumber, LearningMode mode,
             LearningEnvironment& le) const override;
 
+        /**
+         * \brief Inherited from LearningAgent.
+         *
+         * Also forgets the champions whose vertex was removed.
+         */
+        void decimateWorstRoots(
+            std::multimap<std::shared_ptr<EvaluationResult>,
+                          const TPG::TPGVertex*>& results) override;
+
+        /**
+         * \brief Inherited from LearningAgent.
+         *
+         * Also forgets the champions.
+         */
+        void forgetPreviousResults() override;
+
         /**
          * \brief Puts all roots into AdversarialJob to be able to use them in
          * simulation later. The difference with the base learning agent
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..072fb7d 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -352,7 +352,7 @@ namespace Learn {
          * been tested. To use for example when there is a scoring policy
          * change.
          */
-        void forgetPreviousResults();
+        virtual void forgetPreviousResults();
 
         /**
          * \brief This method update the best score reached at the last
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index d8833b2..0b30a04 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -35,6 +35,7 @@
  */
 
 #include <fstream>
+#include <algorithm>
 #include <memory>
 
 #include "learn/adversarialLearningAgent.h"
@@ -122,6 +123,30 @@ void Learn::AdversarialLearningAgent::evaluateAllRootsInParallelCompileResults(
     this->mergeArchiveMap(archiveMap);
 }
 
+void Learn::AdversarialLearningAgent::forgetRemovedChampions(
+    const TPG::TPGGraph& tpgGraph)
+{
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [&tpgGraph](const TPG::TPGVertex* champion) {
+                                       return !tpgGraph.hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
+void Learn::AdversarialLearningAgent::decimateWorstRoots(
+    std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
+        results)
+{
+    ParallelLearningAgent::decimateWorstRoots(results);
+    this->forgetRemovedChampions(*this->tpg);
+}
+
+void Learn::AdversarialLearningAgent::forgetPreviousResults()
+{
+    ParallelLearningAgent::forgetPreviousResults();
+    champions.clear();
+}
+
 std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
     evaluateJob(TPG::TPGExecutionEngine& tee, const Job& job,
                 uint64_t generationNumber, Learn::LearningMode mode,
@@ -189,6 +214,9 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // Champions may have been removed from the graph
+    this->forgetRemovedChampions(*tpgGraph);
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
-- 
2.43.0


From 9a94476ce38fcc8bab99b2a0c05e03723ade775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 15/34] fix: classification and adversarial evaluations tell
 the environment the iteration and generation

---
 gegelatilib/include/learn/classificationLearningAgent.h | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index 978d11b..5204f88 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -172,7 +172,7 @@ namespace Learn {
             uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
             // Reset the learning Environment
-            le.reset(hash, mode);
+            le.reset(hash, mode, i, generationNumber);
 
             uint64_t nbActions = 0;
             while (!le.isTerminal() &&
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 0b30a04..2ef2678 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -165,7 +165,7 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
         uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
         // Reset the learning Environment
-        ale.reset(hash, mode);
+        ale.reset(hash, mode, i, generationNumber);
 
         uint64_t nbActions = 0;
 
-- 
2.43.0


From cb9931cc6bfc84eeeb3a881cf0119215cf46007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 16/34] fix: an adversarial training with 0 threads does not
 start threads endlessly

---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..52c5ffd 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -248,7 +248,7 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
 
     // Create the threads
     std::vector<std::thread> threads;
-    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+    for (uint64_t i = 1; i < this->maxNbThreads; i++) {
         threads.emplace_back(std::thread(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
-- 
2.43.0


From e2cad526db5c1fe6bac4aa15f09905c5cefd01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 17/34] fix: DataHandler ids are attributed atomically

---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From 59b9bb43932d0947e8c53afdae37455aa6d11767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 18/34] fix: address spaces are cached safely when a
 DataHandler is used by several threads

---
 gegelatilib/include/data/array2DWrapper.h |  17 ++--
 gegelatilib/include/data/arrayWrapper.h   |  14 +--
 gegelatilib/include/data/typeCache.h      | 113 ++++++++++++++++++++++
 3 files changed, 129 insertions(+), 15 deletions(-)
 create mode 100644 gegelatilib/include/data/typeCache.h

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 8aec221..771d597 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -40,6 +40,7 @@
 #include "data/arrayWrapper.h"
 #include "data/dataHandler.h"
 #include "data/demangle.h"
+#include "data/typeCache.h"
 
 namespace Data {
 
@@ -82,7 +83,7 @@ namespace Data {
          * Like the getAddressSpace method of the 2D array, this map stores all
          * type dimensions.
          */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
+        mutable TypeCache<std::tuple<size_t, size_t, size_t>>
             cachedAddressSpace;
 
       protected:
@@ -218,21 +219,21 @@ namespace Data {
                                               size_t* dim1, size_t* dim2) const
     {
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        std::tuple<size_t, size_t, size_t> cached;
+        if (this->cachedAddressSpace.get(type, cached)) {
             if (dim1 != nullptr) {
-                *dim1 = std::get<1>(iter->second);
+                *dim1 = std::get<1>(cached);
             }
             if (dim2 != nullptr) {
-                *dim2 = std::get<2>(iter->second);
+                *dim2 = std::get<2>(cached);
             }
-            return std::get<0>(iter->second);
+            return std::get<0>(cached);
         }
 
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
+            this->cachedAddressSpace.set(
                 type, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
@@ -272,7 +273,7 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
+                    this->cachedAddressSpace.set(
                         type, std::make_tuple(result, typeH, typeW));
                 }
             }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index 2e274ba..1e7b6ff 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -38,7 +38,6 @@
 #define ARRAY_WRAPPER_H
 
 #include <functional>
-#include <map>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -49,6 +48,7 @@
 #include "data/dataHandler.h"
 #include "data/demangle.h"
 #include "data/hash.h"
+#include "data/typeCache.h"
 
 namespace Data {
 
@@ -85,7 +85,7 @@ namespace Data {
          *
          * This map is updated and used by the getAddressSpace method.
          */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
+        mutable TypeCache<size_t> cachedAddressSpace;
 
       protected:
         /**
@@ -274,13 +274,13 @@ namespace Data {
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
         // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
-            return iter->second;
+        size_t cached;
+        if (this->cachedAddressSpace.get(type, cached)) {
+            return cached;
         }
 
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
+            this->cachedAddressSpace.set(type, this->nbElements);
             return this->nbElements;
         }
 
@@ -295,7 +295,7 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                this->cachedAddressSpace.set(type, result);
                 return result;
             }
         }
diff --git a/gegelatilib/include/data/typeCache.h b/gegelatilib/include/data/typeCache.h
new file mode 100644
index 0000000..1b51771
--- /dev/null
+++ b/gegelatilib/include/data/typeCache.h
@@ -0,0 +1,113 @@
+/**
+ * Copyright or © or Copr. IETR/INSA - Rennes (2019 - 2022) :
+ *
+ * Karol Desnos <kdesnos@insa-rennes.fr> (2019 - 2022)
+ * Nicolas Sourbier <nsourbie@insa-rennes.fr> (2019 - 2020)
+ * Thomas Bourgoin <tbourgoi@insa-rennes.fr> (2021)
+ *
+ * GEGELATI is an open-source reinforcement learning framework for training
+ * artificial intelligence based on Tangled Program Graphs (TPGs).
+ *
+ * This software is governed by the CeCILL-C license under French law and
+ * abiding by the rules of distribution of free software. You can use,
+ * modify and/ or redistribute the software under the terms of the CeCILL-C
+ * license as circulated by CEA, CNRS and INRIA at the following URL
+ * "http://www.cecill.info".
+ *
+ * As a counterpart to the access to the source code and rights to copy,
+ * modify and redistribute granted by the license, users are provided only
+ * with a limited warranty and the software's author, the holder of the
+ * economic rights, and the successive licensors have only limited
+ * liability.
+ *
+ * In this respect, the user's attention is drawn to the risks associated
+ * with loading, using, modifying and/or developing or reproducing the
+ * software by the user in light of its specific status of free software,
+ * that may mean that it is complicated to manipulate, and that also
+ * therefore means that it is reserved for developers and experienced
+ * professionals having in-depth computer knowledge. Users are therefore
+ * encouraged to load and test the software's suitability as regards their
+ * requirements in conditions enabling the security of their systems and/or
+ * data to be ensured and, more generally, to use and operate it in the
+ * same conditions as regards security.
+ *
+ * The fact that you are presently reading this means that you have had
+ * knowledge of the CeCILL-C license and that you accept its terms.
+ */
+
+#ifndef TYPE_CACHE_H
+#define TYPE_CACHE_H
+
+#include <map>
+#include <mutex>
+#include <shared_mutex>
+#include <typeindex>
+
+namespace Data {
+    /**
+     * \brief Values associated to data types, computed at most a few times.
+     *
+     * The cache may be used from several threads, as DataHandlers are used
+     * concurrently when policies are mutated or evaluated in parallel.
+     */
+    template <class V> class TypeCache
+    {
+        /// Mutex protecting the values.
+        mutable std::shared_mutex mutex;
+
+        /// Value cached for each type.
+        std::map<std::type_index, V> values;
+
+      public:
+        /// Default constructor.
+        TypeCache() = default;
+
+        /// Copy constructor.
+        TypeCache(const TypeCache& other)
+        {
+            std::shared_lock<std::shared_mutex> lock(other.mutex);
+            this->values = other.values;
+        }
+
+        /// Assignment operator.
+        TypeCache& operator=(const TypeCache& other)
+        {
+            TypeCache copy(other);
+            std::lock_guard<std::shared_mutex> lock(this->mutex);
+            this->values.swap(copy.values);
+            return *this;
+        }
+
+        /**
+         * \brief Get the value cached for a type.
+         *
+         * \param[in] type the type whose value is searched.
+         * \param[out] value set to the cached value, if any.
+         * \return true if there was a cached value, false otherwise.
+         */
+        bool get(const std::type_info& type, V& value) const
+        {
+            std::shared_lock<std::shared_mutex> lock(this->mutex);
+            auto iter = this->values.find(type);
+            if (iter == this->values.end()) {
+                return false;
+            }
+            value = iter->second;
+            return true;
+        }
+
+        /**
+         * \brief Cache the value of a type.
+         *
+         * \param[in] type the type whose value is cached.
+         * \param[in] value the value to cache.
+         */
+        void set(const std::type_info& type, const V& value)
+        {
+            std::lock_guard<std::shared_mutex> lock(this->mutex);
+            this->values.emplace(type, value);
+        }
+    };
+} // namespace Data
+
+#endif
-- 
2.43.0


From 929ff154d35422c6546dfb685fdd462af280c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 19/34] fix: parallel evaluation neither clones an environment
 in use nor polls the job queue without lock

---
 .../include/learn/parallelLearningAgent.h     |  7 ++--
 .../src/learn/parallelLearningAgent.cpp       | 40 +++++++++----------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..d2d16e1 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment the LearningEnvironment of the
+         * thread, used by no other thread.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 52c5ffd..f82f896 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -92,31 +92,25 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
 
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess = true;
+    while (doProcess) {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +119,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -137,7 +130,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -155,11 +148,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     }
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -246,21 +234,29 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each thread, before any of them (this
+    // one included) starts using it.
+    std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
+    for (uint64_t i = 1; i < this->maxNbThreads; i++) {
+        privateEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
-    for (uint64_t i = 1; i < this->maxNbThreads; i++) {
+    for (auto& privateEnvironment : privateEnvironments) {
         threads.emplace_back(std::thread(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*privateEnvironment)));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From bad03ce96afb72efa9c46c1b5678e549ae62437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 20/34] fix: exporting the sub-graph of an action keeps this
 action

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..ddd5db2 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -243,6 +243,12 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
         verticesToVisit.pop_front();
         visitedVertices.push_back(vertex);
 
+        // A root action has no edge to be printed with
+        if (vertex == root &&
+            dynamic_cast<const TPG::TPGAction*>(vertex) != nullptr) {
+            this->printTPGAction(*(const TPG::TPGAction*)vertex);
+        }
+
         // Print it if it is a team (actions are printed with edges)
         const TPG::TPGTeam* team = nullptr;
         if ((team = dynamic_cast<const TPG::TPGTeam*>(vertex)) != nullptr) {
-- 
2.43.0


From 36ded2fe8912c78a614f73371c4912e10e9bdb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 21/34] fix: action IDs above INT_MAX can be imported

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..43c88be 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -212,7 +212,7 @@ void File::TPGGraphDotImporter::readAction(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         // the regex matches two groups (action number and action label)
-        uint64_t action_label = std::stoi(matches[2]);
+        uint64_t action_label = std::stoull(matches[2]);
         uint64_t action_number = std::stoi(matches[1]);
 
         // elmt points to the action with the same label as the action we are
-- 
2.43.0


From 891995980343a4d35d6139ce8a4ca27f347db77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 22/34] fix: exporting a graph keeps the evaluation order of
 the edges of each team

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index ddd5db2..df44b06 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -206,9 +206,17 @@ void File::TPGGraphDotExporter::print()
     this->programID.erase(this->programID.begin(), this->programID.end());
 
     // Print all edges
+    // Edges of a team are printed in the order of its outgoing edges, which may
+    // differ from their order in the graph.
+    std::map<const TPG::TPGVertex*, std::list<TPG::TPGEdge*>> outgoingEdges;
     auto& edges = this->tpg.getEdges();
     for (const std::unique_ptr<TPG::TPGEdge>& edge : edges) {
-        this->printTPGEdge(*edge.get());
+        const TPG::TPGVertex* source = edge->getSource();
+        auto& remaining =
+            outgoingEdges.emplace(source, source->getOutgoingEdges())
+                .first->second;
+        this->printTPGEdge(*remaining.front());
+        remaining.pop_front();
     }
 
     // Print footer
-- 
2.43.0


From ff70ddb507bd1be4c1de486b69470cab3593b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 23/34] fix: exported edges sharing a program keep their own
 destination

---
 .../include/file/tpgGraphDotExporter.h        | 20 +++++++++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp  | 36 ++++++++++++-------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..0af23d8 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,15 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Destination of the first printed TPGEdge of each Program.
+         *
+         * The importer gives this destination to the edges sharing the Program,
+         * unless another one is explicitly printed.
+         */
+        std::map<const Program::Program*, const TPG::TPGVertex*>
+            programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
@@ -107,6 +116,17 @@ namespace File {
          */
         void printTPGEdge(const TPG::TPGEdge& edge);
 
+        /**
+         * \brief Prints the link between the source, the Program, and the
+         * destination of the given TPGEdge.
+         *
+         * \param[in] edge the TPGEdge being printed.
+         * \param[in] srcID the identifier of its source.
+         * \param[in] progID the identifier of its Program.
+         */
+        void printTPGEdgeLink(const TPG::TPGEdge& edge, uint64_t srcID,
+                              uint64_t progID);
+
         /**
          * \brief Prints the dot content for the given Program.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index df44b06..78ca3ff 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -85,18 +85,12 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
-        auto* dest = edge.getDestination();
-        if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
-            uint64_t actionID =
-                printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
-            fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> A%" PRIu64 "\n",
-                    this->offset.c_str(), srcID, progID, actionID);
-        }
-        else {
-            uint64_t destID = findVertexID(*edge.getDestination());
-            fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> T%" PRIu64 "\n",
-                    this->offset.c_str(), srcID, progID, destID);
-        }
+        this->printTPGEdgeLink(edge, srcID, progID);
+        this->programDestination[&p] = edge.getDestination();
+    }
+    else if (this->programDestination[&p] != edge.getDestination()) {
+        // The program is shared with an edge that has another destination
+        this->printTPGEdgeLink(edge, srcID, progID);
     }
     else {
         fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 "\n", this->offset.c_str(),
@@ -104,6 +98,24 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
     }
 }
 
+void File::TPGGraphDotExporter::printTPGEdgeLink(const TPG::TPGEdge& edge,
+                                                 uint64_t srcID,
+                                                 uint64_t progID)
+{
+    auto* dest = edge.getDestination();
+    if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
+        uint64_t actionID =
+            printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
+        fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> A%" PRIu64 "\n",
+                this->offset.c_str(), srcID, progID, actionID);
+    }
+    else {
+        uint64_t destID = findVertexID(*edge.getDestination());
+        fprintf(pFile, "%sT%" PRIu64 " -> P%" PRIu64 " -> T%" PRIu64 "\n",
+                this->offset.c_str(), srcID, progID, destID);
+    }
+}
+
 void File::TPGGraphDotExporter::printProgram(const Program::Program& program)
 {
     uint64_t progID;
-- 
2.43.0


From 2644b6ef11bbd32ae15c510be6fc62f80c70a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 24/34] fix: graphs with long programs can be imported

---
 gegelatilib/include/file/tpgGraphDotImporter.h | 2 +-
 gegelatilib/src/file/tpgGraphDotImporter.cpp   | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index d57bcce..362a8a7 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -401,7 +401,7 @@ namespace File {
 
         /**
          * \brief Maximum number of characters that can be read in a single
-         * line.
+         * line of the header of the file.
          */
         static const unsigned int MAX_READ_SIZE = 4096;
 
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 43c88be..8825b3b 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -336,8 +336,6 @@ void File::TPGGraphDotImporter::importGraph()
 
 bool File::TPGGraphDotImporter::readLineFromFile()
 {
-    char buffer[MAX_READ_SIZE];
-
     std::regex testActionDeclare(this->actionRegex);
     std::regex testTeamDeclare(this->teamRegex);
     std::regex testProgramDeclare(this->programRegex);
@@ -349,11 +347,9 @@ bool File::TPGGraphDotImporter::readLineFromFile()
 
     std::smatch matches;
 
-    if (!pFile.getline(buffer, MAX_READ_SIZE))
+    // Lines declaring programs have no limited size.
+    if (!std::getline(pFile, this->lastLine))
         throw std::ifstream::failure("Couldn't read in the given file");
-    else {
-        this->lastLine = buffer;
-    }
 
     // check the line shape and parse it
     if (std::regex_search(this->lastLine, matches, testTeamDeclare)) {
-- 
2.43.0


From 5821a0a47e355e934af724125c81946941064ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 25/34] fix: print rows of non-square 2D data sources at the
 right place

DataHandlerPrinter::printDataAt took the height of a 2D source for its
width when printing a 1D operand, which printed wrong elements, or divided
by zero, unless the source was square.
---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 4c64922f5d9d5a3862399db09f1c51e7f403847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 26/34] fix: name an action root correctly in stack mode
 generated code

The root pointer was always initialised with the name of a team function,
which does not exist when the root is an action.
---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From bf4318c8d04e9a64d650ea122ceaa075a0933420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 27/34] fix: generate one function per action ID in stack mode

Actions are named after their action ID, so a graph with several action
vertices of one ID produced duplicate definitions that do not compile.
---
 .../src/codeGen/tpgStackGenerationEngine.cpp   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 65ff8a3..f892937 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -38,6 +38,9 @@
 
 #ifdef CODE_GENERATION
 
+#include <set>
+#include <string>
+
 #include "codeGen/tpgStackGenerationEngine.h"
 
 CodeGen::TPGStackGenerationEngine::TPGStackGenerationEngine(
@@ -133,13 +136,18 @@ void CodeGen::TPGStackGenerationEngine::generateTPGGraph()
 
     std::map<const TPG::TPGTeam*, std::list<TPG::TPGEdge*>> graph;
     auto vertices = this->tpg.getVertices();
+    // actions are named after their action ID: one function for each of them
+    std::set<uint64_t> generatedActions;
     // give an id for each team of the graph
     for (auto vertex : vertices) {
         if (dynamic_cast<const TPG::TPGTeam*>(vertex) != nullptr) {
             generateTeam(*(const TPG::TPGTeam*)vertex);
         }
         else if (dynamic_cast<const TPG::TPGAction*>(vertex) != nullptr) {
-            generateAction(*(const TPG::TPGAction*)vertex);
+            const auto& action = *(const TPG::TPGAction*)vertex;
+            if (generatedActions.insert(action.getActionID()).second) {
+                generateAction(action);
+            }
         }
     }
     setRoot(*tpg.getRootVertices().at(0));
@@ -205,9 +213,13 @@ void CodeGen::TPGStackGenerationEngine::initHeaderFile()
     fileMainH << "#include <stdlib.h>\n\n";
 
     fileMainH << "typedef enum Vertex {";
+    std::set<std::string> names;
     for (auto vertex : this->tpg.getVertices()) {
-        fileMainH << vertexName(*vertex) << "Vert"
-                  << ", ";
+        const std::string name = vertexName(*vertex);
+        if (names.insert(name).second) {
+            fileMainH << name << "Vert"
+                      << ", ";
+        }
     }
 
     fileMainH << "} Vertex;\n\n"
-- 
2.43.0


From 440eedddff6520e8b827f76dccad775facdcada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 28/34] fix: execution statistics of a graph with an action
 among its roots

An action nothing leads to is a root vertex, and made analyzeInstrumentedGraph
throw std::bad_cast on a properly instrumented graph.
---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..d421982 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,10 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            const auto& rootVertex =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + rootVertex.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0


From 1b7e5d315fc538fc3e942bd56cb96b2a8c2dea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 29/34] fix: one verdict when only cycles without root are
 detected

The logger reported a cycle in a part of the graph that no root reaches, and
then also reported that there was no cycle.
---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 1d5f7c8e3ad67d90ec204780729bf54bb4420ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 30/34] fix: parameters above 32 bits can be read from a file

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From 24dd834d7ff1a103193fc4302c1d424e1b83fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 31/34] fix: nothing is read from an ill-formed parameter file

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 3434352..4cc8292 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // the part that was read before the error is ignored too
+        root = Json::Value();
     }
 }
 
-- 
2.43.0


From 58631081f895e575486527a67696d532c230b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 32/34] fix: the policy logger survives the loss of the best
 root

LAPolicyStatsLogger dereferenced a null result when every evaluated root
had been decimated.
---
 gegelatilib/src/log/laPolicyStatsLogger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gegelatilib/src/log/laPolicyStatsLogger.cpp b/gegelatilib/src/log/laPolicyStatsLogger.cpp
index d10032e..1dd4661 100644
--- a/gegelatilib/src/log/laPolicyStatsLogger.cpp
+++ b/gegelatilib/src/log/laPolicyStatsLogger.cpp
@@ -47,6 +47,10 @@ void Log::LAPolicyStatsLogger::logAfterDecimate()
     if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
         // Update the best root befor loggin it PolicyStats
         this->lastBestRoot = this->learningAgent.getBestRoot().first;
+        if (this->lastBestRoot == nullptr) {
+            // All evaluated roots were decimated: there is no best root
+            return;
+        }
         *this << "Generation " << this->generationNumber << " - Score "
               << this->learningAgent.getBestRoot().second->getResult()
               << std::endl
-- 
2.43.0


From efd3ea10dcc7988cebdf3ad9c86f1a5f51018d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 33/34] fix: the statistics of a policy without data uses can
 be printed

Printing them read the first element of an empty map.
---
 gegelatilib/src/tpg/policyStats.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/tpg/policyStats.cpp b/gegelatilib/src/tpg/policyStats.cpp
index eea1b86..cb200d4 100644
--- a/gegelatilib/src/tpg/policyStats.cpp
+++ b/gegelatilib/src/tpg/policyStats.cpp
@@ -265,8 +265,11 @@ std::ostream& TPG::operator<<(std::ostream& os,
     os << std::endl << std::endl;
 
     os << "## Data info";
+    // (There is no data location when the policy uses no data)
     size_t currentDHandler =
-        policyStats.nbUsagePerDataLocation.begin()->first.first - 1;
+        policyStats.nbUsagePerDataLocation.empty()
+            ? 0
+            : policyStats.nbUsagePerDataLocation.begin()->first.first - 1;
 
     std::for_each(
         policyStats.nbUsagePerDataLocation.cbegin(),
-- 
2.43.0


From 58d4b51d207278562528633e4a48144b374be111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 34/34] fix: an engine that refuses a program or data sources
 keeps its own ones

---
 gegelatilib/include/program/programEngine.h | 22 +++++++++++++++------
 gegelatilib/src/program/programEngine.cpp   | 12 +++++------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/gegelatilib/include/program/programEngine.h b/gegelatilib/include/program/programEngine.h
index 00e26a7..780b1e3 100644
--- a/gegelatilib/include/program/programEngine.h
+++ b/gegelatilib/include/program/programEngine.h
@@ -291,20 +291,30 @@ namespace Program {
         // Check that T is either convertible to a const DataHandler
         static_assert(std::is_convertible<T&, const Data::DataHandler&>::value);
 
-        // Replace the references in attributes
-        this->dataSources = dataSrc;
         // we need this offset to push the constant at the first
         size_t offset =
             this->program->getEnvironment().getNbConstant() > 0 ? 2 : 1;
-        if (offset == 2) {
-            this->dataScsConstsAndRegs.at(1) =
-                this->program->cGetConstantHandler();
+
+        // Check compatibility with the new data sources before replacing any
+        const auto& envDataSrc =
+            this->program->getEnvironment().getDataSources();
+        for (size_t idx = 0; idx < dataSrc.size(); idx++) {
+            if (idx >= envDataSrc.size() ||
+                dataSrc.at(idx).get().getId() !=
+                    envDataSrc.at(idx).get().getId()) {
+                throw std::runtime_error(
+                    "Data sources characteristics for Program Execution differ "
+                    "from Program reference Environment.");
+            }
         }
+
+        // Replace the references in attributes
+        this->dataSources = dataSrc;
         for (size_t idx = 0; idx < this->dataSources.size(); idx++) {
             this->dataScsConstsAndRegs.at(idx + offset) = dataSrc.at(idx);
         }
 
-        // Set program to check compatibility with new data source
+        // Restart the program on the new data sources
         this->setProgram(*this->program);
     }
 } // namespace Program
diff --git a/gegelatilib/src/program/programEngine.cpp b/gegelatilib/src/program/programEngine.cpp
index 1e2be82..7b85ad6 100644
--- a/gegelatilib/src/program/programEngine.cpp
+++ b/gegelatilib/src/program/programEngine.cpp
@@ -41,13 +41,7 @@
 void Program::ProgramEngine::setProgram(const Program& prog)
 {
     // are constants used here ?
-    size_t offset = 1;
-    if (prog.getEnvironment().getNbConstant() > 0) {
-        // replace programs constants if already existing
-        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
-        // increment offset for the datahandlers verification
-        offset++;
-    }
+    const size_t offset = (prog.getEnvironment().getNbConstant() > 0) ? 2 : 1;
 
     // Check dataSource are similar in all point to the program environment
     // offset is -1 if there is only the registers to ignore
@@ -78,6 +72,10 @@ void Program::ProgramEngine::setProgram(const Program& prog)
             // space size for each data type.
         }
     }
+    // replace programs constants if already existing
+    if (offset == 2) {
+        dataScsConstsAndRegs.at(1) = prog.cGetConstantHandler();
+    }
     // set the program
     this->program = &prog;
     // Reset Registers (in case it is not done when they are constructed)
-- 
2.43.0

