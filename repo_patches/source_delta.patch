From 4a00ae5a6e6bf4b3891f9c37565d932ac0aa80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:30 +0000
Subject: [PATCH 01/74] fix: search result window is no longer lost when offset
 + size exceeds 32 bits

---
 src/mws/query/SearchContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..97670e1 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -302,7 +302,7 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
+    if (size > maxTotal || offset > maxTotal - size) {
         if (maxTotal <= offset) {
             size = 0;
         } else {
-- 
2.43.0


From 3ad4b6a6b05a7b9b79fa3dff7365a68d6ee33387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 02/74] fix: RangeCtxt no longer frees an uninitialized
 iterator when the range was never reached

---
 src/mws/query/SearchContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 97670e1..c5b7e72 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -115,7 +115,7 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
     ExpressionDecoder* decoder;
 
     RangeCtxt(pair<double, double> bounds, ExpressionDecoder* decoder)
-        : bounds(bounds), decoder(decoder) {}
+        : bounds(bounds), decoder(decoder), iterator(nullptr) {}
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
@@ -129,6 +129,7 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         // XXX:
         typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
         // malloc'ed because there is no default constructor
+        free(iterator);  // from an earlier solve
         iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
         assert(iterator != nullptr);
         *iterator = it;
-- 
2.43.0


From 5bd8bb40781696dc674f1dfd5f2d5a507770935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 03/74] fix: a range without lower bound matches zero and
 negative numbers

---
 src/mws/types/CmmlToken.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..2757306 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From 0e32cdf0ab94100008b6edfdb1da6c7fadb7f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:33 +0000
Subject: [PATCH 04/74] fix: variable and range queries on an empty index no
 longer crash

---
 src/mws/index/IndexIterator.hpp | 4 +++-
 src/mws/query/SearchContext.cpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..3ebae24 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,9 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto iterator = Accessor::getChildrenIterator(_root);
+            if (!iterator.isValid()) return nullptr;  // empty index
+            _push(iterator);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index c5b7e72..9af9d0b 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -128,6 +128,10 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
         // XXX:
         typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
+        if (!it.isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
         // malloc'ed because there is no default constructor
         free(iterator);  // from an earlier solve
         iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-- 
2.43.0


From 42d968fc1096c8889e17cfb7a0f38d5568cc478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:27 +0000
Subject: [PATCH 05/74] fix: node offsets are not truncated to 32 bits in index
 images beyond 16 GB

---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..212ffa1 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -98,7 +98,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From 9b0b0d1120cfee7813996f65b2b1de033be6c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 06/74] fix: memsector_load rejects truncated images instead of
 reading past the mapping

---
 src/common/utils/mmap.h   |  2 +-
 src/mws/index/memsector.c | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..2c167ba 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    size_t   size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..2fddc31 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -107,8 +107,14 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     }
 
     // read and validate memsector data
+    const size_t file_size = ms->mmap_handle.size;
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    if (file_size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too short)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -120,6 +126,14 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size > file_size - sizeof(*memsector) ||
+        memsector->root_off < sizeof(*memsector) / MEMSECTOR_ALLOC_UNIT ||
+        memsector->root_off >= (sizeof(*memsector) + memsector->index_size) /
+                                   MEMSECTOR_ALLOC_UNIT) {
+        PRINT_WARN("Memsector %s is corrupted (truncated)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
-- 
2.43.0


From 8684c6611f9dfa06838b381f98ea09e50209d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 07/74] fix: a failed write of the index image is reported
 instead of ignored

---
 src/mws/index/IndexWriter.cpp |  8 ++++++--
 src/mws/index/TmpIndex.cpp    |  4 ++--
 src/mws/index/TmpIndex.hpp    |  2 +-
 src/mws/index/memsector.c     | 16 +++++++++++++---
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..2bee482 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -89,8 +89,12 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    if (memsector_create(
+            &mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Could not write index. Aborting...\n");
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..5369658 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -118,7 +118,7 @@ class TmpIndex {
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index 2fddc31..0422a02 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -91,10 +91,20 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
 
-    return fclose(msw->file);
+    int status = 0;
+    /* any previous write may have failed */
+    if (ferror(msw->file) || fseek(msw->file, 0, SEEK_SET) != 0 ||
+        fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1) {
+        PRINT_WARN("Error while writing memsector: %s\n", strerror(errno));
+        status = -1;
+    }
+    if (fclose(msw->file) != 0) {
+        PRINT_WARN("Error while closing memsector: %s\n", strerror(errno));
+        status = -1;
+    }
+
+    return status;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
-- 
2.43.0


From 2400c95db5ab34f1ddbaef11165651b3378327df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 08/74] fix: the memory-mapped engine tries every child of a
 node for a variable, not the first one repeatedly

---
 src/mws/query/engine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..08ef98e 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -304,11 +304,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-- 
2.43.0


From ed500369f49f3ecef6fcd4b972adc0e427283909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 09/74] fix: the memory-mapped engine has room for the last
 variable id

---
 src/mws/query/engine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 08ef98e..2fb3e86 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -82,7 +82,7 @@ typedef struct query_ctxt_s {
     token_stack_t index_stack;
 
     /* var instantiations */
-    var_instantiation_t vars[VAR_ID_MAX];
+    var_instantiation_t vars[VAR_ID_MAX + 1];
     /* var solve stack */
     uint32_t solving_var_id;
 
@@ -139,7 +139,7 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     int i;
 
     // initialize variables table
-    for (i = 0; i < VAR_ID_MAX; i++) {
+    for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
     }
 
-- 
2.43.0


From 3bede44fbcda1dc18ad1dc08807033aba11aa6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 10/74] fix: the memory-mapped engine reports queries and terms
 that exceed its work areas instead of overrunning them

---
 src/mws/query/engine.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 2fb3e86..fcd8972 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -64,6 +64,11 @@ static inline void token_stack_push(token_stack_t* RESTRICT stack,
     stack->size++;
 }
 
+static inline bool token_stack_has_room(const token_stack_t* RESTRICT stack,
+                                        int to_push) {
+    return (stack->size + to_push <= MAX_QUERY_STACK_SIZE);
+}
+
 static inline void token_stack_pop_many(token_stack_t* RESTRICT stack,
                                         int to_pop) {
     assert(stack->size >= to_pop);
@@ -122,6 +127,8 @@ int query_engine_run(index_handle_t* RESTRICT index,
                      void* RESTRICT result_cb_handle) {
     query_ctxt_t query_ctxt;
 
+    if (query->size > MAX_QUERY_STACK_SIZE) return QUERY_ERROR;
+
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
     return process_query_token(&query_ctxt);
@@ -183,6 +190,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             var_instantiation_t* var = &query_ctxt->vars[var_id];
             int i;
             int size = var->num_tokens;
+            if (!token_stack_has_room(query, size)) return QUERY_ERROR;
             for (i = 0; i < size; ++i) {
                 token_stack_push(query, var->tokens[size - i - 1]);
             }
@@ -338,6 +346,10 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                             &query_ctxt->vars[var_id];
                         // push in reverse order on stack
                         int i;
+                        if (!token_stack_has_room(&var_stack,
+                                                  solved_var->num_tokens)) {
+                            return QUERY_ERROR;
+                        }
                         for (i = solved_var->num_tokens - 1; i >= 0; --i) {
                             token_stack_push(&var_stack, solved_var->tokens[i]);
                         }
@@ -345,6 +357,9 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                     }
                 }
                 // save to var_instantiation
+                if (var->num_tokens == MAX_VAR_INSTATIATION_SIZE) {
+                    return QUERY_ERROR;
+                }
                 var->tokens[var->num_tokens] = token;
                 var->num_tokens++;
                 pushed_var_tokens++;
@@ -423,6 +438,10 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
                 var_instantiation_t* solved_var = &query_ctxt->vars[var_id];
                 // push in reverse order on stack
                 int i;
+                if (!token_stack_has_room(&var_stack,
+                                          solved_var->num_tokens)) {
+                    return QUERY_ERROR;
+                }
                 for (i = solved_var->num_tokens - 1; i >= 0; --i) {
                     token_stack_push(&var_stack, solved_var->tokens[i]);
                 }
@@ -430,6 +449,7 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
             }
         }
         // save to var_instantiation
+        if (var->num_tokens == MAX_VAR_INSTATIATION_SIZE) return QUERY_ERROR;
         var->tokens[var->num_tokens] = token;
         var->num_tokens++;
     }
-- 
2.43.0


From cf499a9b8aaeb32e66616c09845afb0daba5e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 11/74] fix: anonymous harvest variables are decoded relative
 to their own id range

---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..57fe5f7 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -203,7 +203,7 @@ Meaning ExpressionDecoder::getMeaning(MeaningId meaningId) const {
     } else if (meaningId >= QVAR_ID_MIN) {
         return "qvar#" + to_string(meaningId - QVAR_ID_MIN);
     } else if (meaningId >= ANON_HVAR_ID_MIN) {
-        return "anonymous_hvar#" + to_string(meaningId - ANON_QVAR_ID_MIN);
+        return "anonymous_hvar#" + to_string(meaningId - ANON_HVAR_ID_MIN);
     } else if (meaningId >= HVAR_ID_MIN) {
         return "hvar#" + to_string(meaningId - HVAR_ID_MIN);
     } else {
-- 
2.43.0


From 16bb249ee622245481e72972e284c30a748662bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 12/74] fix: variables and ranges are encoded as leaves

---
 src/mws/index/ExpressionEncoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 57fe5f7..7ab11f6 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -79,7 +79,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
@@ -93,7 +93,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -118,6 +118,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // Variables and ranges are leaves, whatever markup they contain
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
-- 
2.43.0


From 5e17483487519c4f051a3f21df2a53a4d5942ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 13/74] fix: terms with more symbols, variables or ranges than
 there are ids are refused instead of aliased

---
 src/mws/index/ExpressionEncoder.cpp | 26 +++++++++++++++++---------
 src/mws/index/encoded_token.h       |  2 ++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 7ab11f6..e13626a 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -76,16 +76,18 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         const CmmlToken* token = dfs_stack.top();
         dfs_stack.pop();
         encoded_token_t encoded_token;
+        MeaningId id, maxId;
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
             encoded_token.arity = 0;
             if (qvarName == "") {
-                encoded_token.id = _getAnonVarOffset() + anonVarId;
+                id = _getAnonVarOffset() + anonVarId;
+                maxId = ANON_HVAR_ID_MAX;
                 anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                id = _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                maxId = HVAR_ID_MAX;
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -94,12 +96,12 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             }
         } else if (token->isRange()) {
             encoded_token.arity = 0;
-            encoded_token.id = _getRangeOffset() + anonRangeId;
+            id = _getRangeOffset() + anonRangeId;
+            maxId = RANGE_ID_MAX;
             anonRangeId++;
             if (expressionInfo != nullptr) {
-                MeaningId tokenId = encoded_token.id;
                 expressionInfo->rangeBounds
-                    .insert({tokenId, token->getRangeBounds()});
+                    .insert({id, token->getRangeBounds()});
             }
         } else {
             /* Only cerrors have such a high arity */
@@ -108,14 +110,20 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             }
             encoded_token.arity = token->getArity();
             if (config.renameCi && token->getTag() == "ci") {
-                encoded_token.id = _getCiMeaning((token));
+                id = _getCiMeaning((token));
             } else {
-                encoded_token.id = _getConstantEncoding(token->getMeaning());
+                id = _getConstantEncoding(token->getMeaning());
             }
-            if (encoded_token.id == MeaningDictionary::KEY_NOT_FOUND) {
+            if (id == MeaningDictionary::KEY_NOT_FOUND) {
                 rv = -1;
             }
+            maxId = CONSTANT_ID_MAX;
         }
+        /* An id of another kind would denote something else */
+        if (id > maxId) {
+            return -1;
+        }
+        encoded_token.id = id;
         encodedFormula->push_back(encoded_token);
 
         // Variables and ranges are leaves, whatever markup they contain
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..b2e87ff 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -57,6 +57,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #define RANGE_ID_MIN 129
 #define RANGE_ID_MAX 160
 #define CONSTANT_ID_MIN 161
+/* We are using 24 bits to hold the id */
+#define CONSTANT_ID_MAX 0xffffff
 
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
-- 
2.43.0


From 146ebb2446202c1c8a2b703378f32f316b9d5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 14/74] fix: the on-disk formula database returns occurrences
 in insertion order

---
 src/mws/dbc/LevFormulaDb.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..f592cbb 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <stdlib.h>
 
+#include <limits>
 #include <memory>
 using std::unique_ptr;
 #include <stdexcept>
@@ -94,8 +95,11 @@ int LevFormulaDb::insertFormula(const types::FormulaId& formulaId,
     encoder.encode(crawlId_str);
     encoder.encode(formulaPath);
 
-    std::string key =
-        std::to_string(formulaId) + "!" + std::to_string(mCounter);
+    // Fixed width, so that keys are ordered by insertion
+    std::string counter = std::to_string(mCounter);
+    counter.insert(0, std::numeric_limits<uint32_t>::digits10 + 1 -
+                          counter.size(), '0');
+    std::string key = std::to_string(formulaId) + "!" + counter;
     std::string value(encoder.getData(), encoder.getSize());
 
     leveldb::Status status =
-- 
2.43.0


From cb3eb6c7a507daf9cae104fba122c1b40c56bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 15/74] fix: malformed stored records are rejected instead of
 read out of bounds

---
 src/common/types/Parcelable.cpp | 16 +++++++++++-----
 src/mws/dbc/LevFormulaDb.cpp    | 12 ++++++++----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/common/types/Parcelable.cpp b/src/common/types/Parcelable.cpp
index aa90960..9dbe513 100644
--- a/src/common/types/Parcelable.cpp
+++ b/src/common/types/Parcelable.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <assert.h>
 #include <string.h>
 
+#include <stdexcept>
 #include <string>
 
 #include "common/utils/compiler_defs.h"
@@ -89,20 +90,25 @@ size_t ParcelEncoder::getSize() const {
 // Parcel Decoder
 
 ParcelDecoder::ParcelDecoder(const char* data, size_t size)
-    : mSize(size), mData(data), mCurr(data) {
-    // Mark variables which are only used in debug build (assert)
-    RELEASE_UNUSED(mSize);
-    RELEASE_UNUSED(mData);
-}
+    : mSize(size), mData(data), mCurr(data) {}
 
 void ParcelDecoder::decode(Parcelable* parcelable) {
     parcelable->readFromParcel(this);
     assert(mCurr <= mData + mSize);
 }
 
+/** @throw std::runtime_error if the parcel is malformed */
 void ParcelDecoder::decode(std::string* str) {
     size_t size;
+    size_t remaining = mData + mSize - mCurr;
+    if (remaining < sizeof(size_t)) {
+        throw std::runtime_error("Malformed parcel");
+    }
     memcpy(&size, mCurr, sizeof(size_t));
+    remaining -= sizeof(size_t);
+    if (remaining < size) {
+        throw std::runtime_error("Malformed parcel");
+    }
     mCurr += sizeof(size_t);
     *str = std::string(mCurr, size);
     mCurr += size;
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index f592cbb..22f256c 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -132,11 +132,15 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
         ParcelDecoder decoder(retrieved.data(), retrieved.size());
 
         std::string crawlId_str;
-        decoder.decode(&crawlId_str);
-
-        CrawlId crawlId = strtoul(crawlId_str.data(), nullptr, 0);
         types::FormulaPath formulaPath;
-        decoder.decode(&formulaPath);
+        try {
+            decoder.decode(&crawlId_str);
+            decoder.decode(&formulaPath);
+        }
+        catch (const runtime_error&) {  // malformed entry
+            return -1;
+        }
+        CrawlId crawlId = strtoul(crawlId_str.data(), nullptr, 0);
 
         if (queryCallback(crawlId, formulaPath) != 0) return -1;
     }
-- 
2.43.0


From 944fe120489bef71396a04d1436931673365c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 16/74] fix: a failed write of the symbol dictionary is
 reported instead of ignored

---
 src/common/types/IdDictionary.hpp |  2 +-
 src/mws/index/IndexWriter.cpp     | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/types/IdDictionary.hpp b/src/common/types/IdDictionary.hpp
index 22c1bed..26ae208 100644
--- a/src/common/types/IdDictionary.hpp
+++ b/src/common/types/IdDictionary.hpp
@@ -101,7 +101,7 @@ class IdDictionary {
             return -1;
         }
 
-        return 0;
+        return out.good() ? 0 : -1;
     }
 
     ValueId put(const Key& key) {
diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 2bee482..1e9c1e3 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -99,10 +99,12 @@ int createCompressedIndex(const IndexConfiguration& config) {
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
 
-    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
-            std::ios::out);
-    meaningDictionary.save(os);
-    fb.close();
+    if (fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
+                std::ios::out) == nullptr ||
+        meaningDictionary.save(os) != 0 || fb.close() == nullptr) {
+        PRINT_WARN("Could not write meaning dictionary. Aborting...\n");
+        return EXIT_FAILURE;
+    }
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From bdb6ea02f22a97787f4ea57343f05510ac635b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 17/74] fix: JSON strings escape every control character

---
 src/common/utils/util.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 9caed66..5c062b8 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -78,7 +78,15 @@ std::string escapeJsonString(const std::string& input) {
             case '\n': ss << "\\n"; break;
             case '\r': ss << "\\r"; break;
             case '\t': ss << "\\t"; break;
-            default: ss << *iter; break;
+            default:
+                if (static_cast<unsigned char>(*iter) < 0x20) {
+                    const char hexDigits[] = "0123456789abcdef";
+                    ss << "\\u00" << hexDigits[*iter >> 4]
+                       << hexDigits[*iter & 0xf];
+                } else {
+                    ss << *iter;
+                }
+                break;
         }
     }
     return ss.str();
-- 
2.43.0


From e47e0d4680e6887a5d79a7e7ef30a7c6e16aa412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 18/74] fix: formula ids beyond 2^31 are not written as
 negative numbers

---
 src/crawler/harvests2json.cpp                     | 2 +-
 src/mws/xmlparser/MwsIdsResponseFormatter.cpp     | 2 +-
 src/mws/xmlparser/SchemaJsonResponseFormatter.cpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..4220944 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -183,7 +183,7 @@ static void writeParseResultToFile(const ParseResult& parseResult, FILE* file) {
 
     // create JSON for mws_ids and mws_id
     for (const auto& kv : parseResult.idMappings) {
-        json_object_array_add(mws_ids, json_object_new_int(kv.first));
+        json_object_array_add(mws_ids, json_object_new_int64(kv.first));
         json_object* id_mapping = json_object_new_object();
         for (const Hit* hit : kv.second) {
             json_object* hitJson = json_object_new_object();
diff --git a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
index 916a12b..e0eec64 100644
--- a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
@@ -78,7 +78,7 @@ int MwsIdsResponseFormatter::writeData(const GenericAnswer* ans,
     // Create ids field
     json_object* json_ids = json_object_new_array();
     for (FormulaId formulaId : answerSet.ids) {
-        json_object_array_add(json_ids, json_object_new_int(formulaId));
+        json_object_array_add(json_ids, json_object_new_int64(formulaId));
     }
     json_object_object_add(json_doc, "ids", json_ids);
 
diff --git a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
index dd9ed0f..dd81a95 100644
--- a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
@@ -79,11 +79,11 @@ int SchemaJsonResponseFormatter::writeData(const GenericAnswer* ans,
             schema, "cmmlSchema",
             json_object_new_string(exprSch.root->toString().c_str()));
         json_object_object_add(schema, "coverage",
-                               json_object_new_int(exprSch.coverage));
+                               json_object_new_int64(exprSch.coverage));
 
         json_object* formulae = json_object_new_array();
         for (const uint32_t f_id : exprSch.formulae) {
-            json_object_array_add(formulae, json_object_new_int(f_id));
+            json_object_array_add(formulae, json_object_new_int64(f_id));
         }
         json_object_object_add(schema, "formulae", formulae);
 
-- 
2.43.0


From 0bb08d7dfa378ba69c317857a2618a2ab3deb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 19/74] fix: failures while writing the XML answer are reported
 instead of ignored

---
 src/mws/xmlparser/MwsXmlResponseFormatter.cpp    | 7 +++++--
 src/mws/xmlparser/SchemaXmlResponseFormatter.cpp | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
index 1a82b39..6cc7dc5 100644
--- a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
@@ -192,8 +192,11 @@ int MwsXmlResponseFormatter::writeData(const GenericAnswer* ans,
                     }
                 }
                 // <data> ... </data>
-                xmlTextWriterWriteElement(writerPtr, BAD_CAST "data",
-                                          BAD_CAST answer->data.c_str());
+                if (ret != -1) {
+                    ret = xmlTextWriterWriteElement(
+                        writerPtr, BAD_CAST "data",
+                        BAD_CAST answer->data.c_str());
+                }
             }
             if (ret == -1) {
                 PRINT_WARN("Error while writing xml substpairs\n");
diff --git a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
index c5c0c2e..7c711e8 100644
--- a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
@@ -230,16 +230,16 @@ int SchemaXmlResponseFormatter::printCmmlToken(const CmmlToken* root,
     const char* content = root->getTextContent().c_str();
 
     ret = xmlTextWriterStartElement(wrt, BAD_CAST tag);
-    if (root->getTextContent() != "") {
+    if (ret != -1 && root->getTextContent() != "") {
         ret = xmlTextWriterWriteString(wrt, BAD_CAST content);
     }
 
     for (const CmmlToken* child : root->getChildNodes()) {
-        ret = printCmmlToken(child, wrt);
         if (ret == -1) break;
+        ret = printCmmlToken(child, wrt);
     }
 
-    ret = xmlTextWriterEndElement(wrt);
+    if (ret != -1) ret = xmlTextWriterEndElement(wrt);
 
     if (ret == -1) {
         PRINT_WARN("Error while printing <%s>\n", tag);
-- 
2.43.0


From 8adb86b057ca6f6a615ce999c3d892d4950a23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 20/74] fix: printed expressions escape their text and
 attribute values

---
 src/mws/types/CmmlToken.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2757306..24d7790 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,22 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+static string escapeXml(const string& text) {
+    string result;
+
+    for (char c : text) {
+        switch (c) {
+        case '&': result += "&amp;"; break;
+        case '<': result += "&lt;"; break;
+        case '>': result += "&gt;"; break;
+        case '"': result += "&quot;"; break;
+        default: result += c; break;
+        }
+    }
+
+    return result;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +169,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXml(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXml(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From 0d65be1a03fea464f884453390bedaa296ab1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 21/74] fix: the duration of an answer set is initialised

---
 src/mws/types/MwsAnswset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/types/MwsAnswset.hpp b/src/mws/types/MwsAnswset.hpp
index 04d1cfb..c77cf4f 100644
--- a/src/mws/types/MwsAnswset.hpp
+++ b/src/mws/types/MwsAnswset.hpp
@@ -58,7 +58,7 @@ struct MwsAnswset : GenericAnswer {
     /// Duration for retrieng results (in ms)
     time_t time;
 
-    MwsAnswset() : total(0) {}
+    MwsAnswset() : total(0), time(0) {}
 
     ~MwsAnswset() {
         for (auto answer : answers) {
-- 
2.43.0


From bf45c2a09a68bbd53bee58291edb4f8ab801fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 22/74] fix: schema members and representatives are numbered as
 in the query when an expression could not be encoded

---
 src/mws/daemon/SchemaQueryHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..5eff7b2 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,11 +69,16 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
-    for (const CmmlToken* tok : query->tokens) {
+    // positions of the encoded expressions in the query
+    vector<uint32_t> exprsIds;
+    exprsIds.reserve(query->tokens.size());
+    for (size_t i = 0; i < query->tokens.size(); i++) {
+        const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprsIds.push_back(i);
         }
     }
 
@@ -101,6 +106,9 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     for (ExprSchema& sch : result->schemata) {
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
+        for (uint32_t& formulaId : sch.formulae) {
+            formulaId = exprsIds[formulaId];
+        }
         const uint32_t representativeId = sch.formulae.front();
         CmmlToken* exprRoot = query->tokens[representativeId];
         getSubstitutions(exprRoot, sch.root, &sch.subst);
-- 
2.43.0


From edcf2ffe125c3f5cc1ceff745f6666d1d1479282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 23/74] fix: relative schema cut-offs beyond 255 are not
 truncated

---
 src/mws/query/SchemaEngine.cpp | 8 ++++----
 src/mws/query/SchemaEngine.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..04ec472 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -65,10 +65,10 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, uint32_t> cutoffs;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
-        uint8_t cutoff;
+        uint32_t cutoff;
         switch (_config.cutoffHeuristic) {
         case ABSOLUTE:
             cutoff = depth;
@@ -121,7 +121,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 }
 
 EncodedFormula SchemaEngine::reduceFormula(const EncodedFormula& expr,
-                                           uint8_t max_depth) const {
+                                           uint32_t max_depth) const {
     EncodedFormula reducedExpr;
     if (expr.empty()) return {};
     if (max_depth == 0) return {};
@@ -226,7 +226,7 @@ EncodedFormula SchemaEngine::unhashExpr(const std::string& exprHash) const {
 }
 
 CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
-                                       uint8_t max_depth) const {
+                                       uint32_t max_depth) const {
     if (expr.size() == 0) {
         CmmlToken* unifZero = CmmlToken::newRoot();
         unifZero->setTag(types::QVAR_TAG);
diff --git a/src/mws/query/SchemaEngine.hpp b/src/mws/query/SchemaEngine.hpp
index bc582d7..beb43af 100644
--- a/src/mws/query/SchemaEngine.hpp
+++ b/src/mws/query/SchemaEngine.hpp
@@ -73,13 +73,13 @@ class SchemaEngine {
     const Config _config;
 
     EncodedFormula reduceFormula(const EncodedFormula& expr,
-                                 uint8_t depth) const;
+                                 uint32_t depth) const;
     size_t completeExpression(const EncodedFormula& expr,
                               size_t startExpr) const;
     std::string hashExpr(const EncodedFormula& expr) const;
     EncodedFormula unhashExpr(const std::string& exprHash) const;
     types::CmmlToken* decodeFormula(const EncodedFormula& expr,
-                                    uint8_t depth) const;
+                                    uint32_t depth) const;
     std::pair<std::string, std::string> decodeMeaning(
         const types::Meaning& meaning) const;
     bool isApply(const encoded_token_t& tok) const;
-- 
2.43.0


From 9a9ab8b6d8e9222fdc8780c19d12c26b120b1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 24/74] fix: schema queries refuse the mws-ids output format,
 which cannot format schemata

---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..f72b3d6 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -201,7 +201,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0 &&
+                               !schemaMode) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From d7248a0380dbcd19ab108bc4315590b8093f58c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 25/74] fix: totalreq="no" is not read as yes, nor a malformed
 value as no

---
 src/mws/xmlparser/readMwsQuery.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index f72b3d6..03ce7d0 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -172,7 +172,13 @@ static void my_startElement(void* user_data, const xmlChar* name,
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
                            0) {
                     boolValue = getBoolType((char*)attrs[1]);
-                    data->result->attrResultTotalReq = boolValue;
+                    if (boolValue == BoolType::BOOL_DEFAULT) {
+                        data->result->attrResultTotalReq =
+                            DEFAULT_QUERY_TOTALREQ;
+                    } else {
+                        data->result->attrResultTotalReq =
+                            (boolValue == BoolType::BOOL_YES);
+                    }
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
                     numValue = (int)strtol((char*)attrs[1], nullptr, 10);
-- 
2.43.0


From 8666f180236a5a679928475498aad27bd35bee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 26/74] fix: malformed, negative and overflowing numeric query
 options no longer become arbitrary values

---
 src/mws/xmlparser/readMwsQuery.cpp | 42 +++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 03ce7d0..2955e48 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -33,7 +33,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <limits.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>                   // C Standrad Input Output
 #include <stdlib.h>                  // C general purpose library
 #include <string.h>                  // C string library
@@ -117,6 +119,25 @@ struct MwsQuery_SaxUserData {
     }
 };
 
+/**
+  * @brief Read the value of a numeric option
+  * @param text value of the attribute
+  * @param limit largest value of the option; larger numbers are reduced to it
+  * @param value is set to the number, and left unchanged if text is not a
+  * non-negative decimal number
+  * @return true if text is a non-negative decimal number
+  */
+static bool readNumber(const xmlChar* text, long limit, int* value) {
+    char* end;
+    long number = strtol((const char*)text, &end, 10);
+    if (end == (const char*)text || *end != '\0' || number < 0) {
+        PRINT_WARN("Invalid number \"%s\"\n", text);
+        return false;
+    }
+    *value = (number > limit) ? (int)limit : (int)number;
+    return true;
+}
+
 /**
   * @brief Callback function used to be used with an IO context parser
   *
@@ -161,13 +182,19 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_MAXSIZE) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
-                    data->result->attrResultMaxSize = numValue;
+                    if (readNumber(attrs[1], INT_MAX, &numValue)) {
+                        data->result->attrResultMaxSize = numValue;
+                    } else {
+                        data->result->warnings++;
+                    }
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_LIMITMIN) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
-                    data->result->attrResultLimitMin = numValue;
+                    if (readNumber(attrs[1], INT_MAX, &numValue)) {
+                        data->result->attrResultLimitMin = numValue;
+                    } else {
+                        data->result->warnings++;
+                    }
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
                            0) {
@@ -181,8 +208,11 @@ static void my_startElement(void* user_data, const xmlChar* name,
                     }
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
-                    data->result->max_depth = numValue;
+                    if (readNumber(attrs[1], UINT8_MAX, &numValue)) {
+                        data->result->max_depth = numValue;
+                    } else {
+                        data->result->warnings++;
+                    }
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_CUTOFFMODE) ==
                            0) {
                     data->result->cutoff_mode = ((char*)attrs[1])[0];
-- 
2.43.0


From efb652fd9c66f915230ee11c8602a7520db14205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 27/74] fix: queries libxml2 gave up on are refused, and the
 cut-off mode is initialised

---
 src/mws/types/Query.hpp            | 3 ++-
 src/mws/xmlparser/readMwsQuery.cpp | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..5b94786 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 2955e48..728b060 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -435,6 +435,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     if (ctxtPtr == nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
         xmlUnlockLibrary();
+        delete user_data.result;
         return nullptr;
     }
 
@@ -445,6 +446,12 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     if (!ctxtPtr->wellFormed) {
         PRINT_WARN("Bad XML document\n");
     }
+    // libXML might have stopped before calling endDocument
+    if (ret == -1 || !ctxtPtr->wellFormed || user_data.errorDetected) {
+        delete user_data.currentTokenRoot;
+        delete user_data.result;
+        user_data.result = nullptr;
+    }
 
     // Freeing the parser context
     xmlFreeParserCtxt(ctxtPtr);
-- 
2.43.0


From 5917467d87162c688dc57f1ebd79fb383606e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 28/74] fix: an error inside a harvested expression does not
 unbalance the reader for the rest of the harvest

---
 src/mws/xmlparser/processMwsHarvest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..d3017d1 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -435,6 +435,14 @@ static void my_error(void* user_data, const char* msg, ...) {
 
     data->errorDetected = true;
     if (data->currentTokenRoot) {
+        // Skip the elements of the damaged expression which are still open
+        data->unknownDepth = 1;
+        while (!data->currentToken->isRoot()) {
+            data->currentToken = data->currentToken->getParentNode();
+            data->unknownDepth++;
+        }
+        data->prevState = data->state;
+        data->state = MWSHARVESTSTATE_UNKNOWN;
         delete data->currentTokenRoot;
         data->currentTokenRoot = nullptr;
         data->currentToken = nullptr;
-- 
2.43.0


From ec4be1b859f65fa772f848ce48cec09bdf76612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 29/74] fix: an unfinished or failed copy of mws:data neither
 leaks nor uses an unset writer

---
 src/mws/xmlparser/processMwsHarvest.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index d3017d1..24df780 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -124,6 +124,7 @@ struct MwsHarvest_SaxUserData {
           errorDetected(false),
           parsedExpr(0),
           warnings(0),
+          stringWriter(nullptr),
           exprUri("") {}
 };
 
@@ -149,6 +150,7 @@ static inline int setupCopyToStringWriter(MwsHarvest_SaxUserData* data) {
         return -1;
     } else if ((data->stringWriter = xmlNewTextWriter(outPtr)) == nullptr) {
         PRINT_WARN("Error while creating the XML Writer\n");
+        xmlOutputBufferClose(outPtr);
         return -1;
     }
 
@@ -159,6 +161,7 @@ static inline void tearDownCopyToStringWriter(MwsHarvest_SaxUserData* data) {
     xmlTextWriterEndDocument(data->stringWriter);
     xmlTextWriterFlush(data->stringWriter);
     xmlFreeTextWriter(data->stringWriter);
+    data->stringWriter = nullptr;
     data->data = string(data->buffer.data(), data->buffer.size());
 }
 
@@ -279,8 +282,13 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 // Going to an unkown state
                 data->state = MWSHARVESTSTATE_UNKNOWN;
                 data->unknownDepth = 1;
+            } else if (setupCopyToStringWriter(data) != 0) {
+                // Saving the state
+                data->prevState = data->state;
+                // Going to an unkown state
+                data->state = MWSHARVESTSTATE_UNKNOWN;
+                data->unknownDepth = 1;
             } else {
-                setupCopyToStringWriter(data);
                 data->state = MWSHARVESTSTATE_IN_MWS_DATA;
                 data->copyDepth = 1;
             }
@@ -505,6 +513,12 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
         xmlFreeParserCtxt(ctxtPtr);
     }
 
+    // Freeing what belongs to an element which was not closed
+    if (user_data.stringWriter) {
+        xmlFreeTextWriter(user_data.stringWriter);
+    }
+    delete user_data.currentTokenRoot;
+
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
-- 
2.43.0


From 29ddf60282edaf51a4df409f80ab0f4637a8941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 30/74] fix: the data of a request whose connection ends early
 is released

---
 src/mws/daemon/Daemon.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..02cfcfa 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -195,6 +195,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
                                    memstream->getInput());
             if (nbytes <= 0) {
                 delete memstream;
+                *ptr = nullptr;
                 return MHD_NO;
             }
 
@@ -213,6 +214,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
     delete memstream;
+    *ptr = nullptr;
 
     // Check if query failed or is empty
     if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {
@@ -270,6 +272,21 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     return ret;
 }
 
+/**
+  * @brief Releases the data of a request which ended without being answered
+  */
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode toe) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(toe);
+
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     : _queryHandler(queryHandler) {
 
@@ -285,7 +302,10 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
-                            MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
+                            MHD_OPTION_CONNECTION_LIMIT, 20,
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            (MHD_RequestCompletedCallback)requestCompletedCallback, nullptr,
+                            MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
             formattedString("MHD_start_daemon: %s", strerror(errno)));
-- 
2.43.0


From 05155d578d9ad16921fe8b836d9f8ca64411d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 31/74] fix: the experimental engine returns the requested
 window and reports its errors

---
 src/mws/daemon/IndexQueryHandler.cpp | 37 ++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..3c353df 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -42,6 +42,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <string>
 using std::string;
+#include <algorithm>
+using std::max;
+using std::min;
 #include <vector>
 using std::vector;
 #include <fstream>
@@ -110,12 +113,29 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
-    result->total += leaf->num_hits;
+    const bool includeHits = mwsQuery->options.includeHits;
+    const uint64_t maxTotal = (unsigned)mwsQuery->attrResultTotalReqNr;
+    const uint64_t found = result->total;
+    const uint64_t foundNow = min<uint64_t>(
+        found + (includeHits ? leaf->num_hits : 1), maxTotal);
+    // part of the requested window which is covered by this entry
+    const uint64_t begin = max<uint64_t>(mwsQuery->attrResultLimitMin, found);
+    const uint64_t end =
+        min<uint64_t>((uint64_t)mwsQuery->attrResultLimitMin +
+                          mwsQuery->attrResultMaxSize,
+                      foundNow);
+    if (begin < end) {
+        if (includeHits) {
+            dbQueryManager->query((FormulaId)leaf->formula_id, begin - found,
+                                  end - begin, queryCallback);
+        }
+        if (mwsQuery->options.includeMwsIds) {
+            result->ids.insert((FormulaId)leaf->formula_id);
+        }
+    }
+    result->total = foundNow;
 
-    return QUERY_CONTINUE;
+    return (foundNow < maxTotal) ? QUERY_CONTINUE : QUERY_STOP;
 }
 
 GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
@@ -137,8 +157,11 @@ GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
             encodedFormula.data = encodedQuery.data(),
             encodedFormula.size = encodedQuery.size();
 
-            query_engine_run(_index.getIndexHandle(), &encodedFormula,
-                             result_callback, &ctxt);
+            if (query_engine_run(_index.getIndexHandle(), &encodedFormula,
+                                 result_callback, &ctxt) == QUERY_ERROR) {
+                delete result;
+                return nullptr;
+            }
         } else {
             SearchContext ctxt(encodedQuery, query->options,
                                queryInfo.rangeBounds,
-- 
2.43.0


From 80a70ab7949f021b6e91800072b34af3da1b41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:45 +0000
Subject: [PATCH 32/74] fix: constants that merely begin with a number are not
 matched by ranges

---
 src/mws/query/SearchContext.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 9af9d0b..fa91c6c 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -203,7 +203,10 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
         double num;
         try {
-            num = std::stod(val);
+            size_t numSize;
+            num = std::stod(val, &numSize);
+            // e.g. 1/2 is not 1
+            if (numSize != val.size()) return false;
         }
         catch (std::exception & e) {
             UNUSED(e);
-- 
2.43.0


From ecaeaef165df60605b91bdcbe73dc1e010b1a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 33/74] fix: ControlSequence::recv goes on after a partial read

---
 src/common/types/ControlSequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/types/ControlSequence.cpp b/src/common/types/ControlSequence.cpp
index c4f8986..373d111 100644
--- a/src/common/types/ControlSequence.cpp
+++ b/src/common/types/ControlSequence.cpp
@@ -96,7 +96,7 @@ ssize_t ControlSequence::recv(int fd) {
 
     while (data_size) {
         nbytes = read(fd, data, data_size);
-        if (bytes_read <= 0) {
+        if (nbytes <= 0) {
             if (nbytes == -1) bytes_read = -1;
             break;
         }
-- 
2.43.0


From f84fd78e7b43c5b1ac2b6aff8c1b9ca3d04ef458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 34/74] fix: an incompletely received control sequence is not
 mistaken for a complete one

---
 src/common/types/ControlSequence.cpp | 6 +++++-
 src/common/types/ControlSequence.hpp | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common/types/ControlSequence.cpp b/src/common/types/ControlSequence.cpp
index 373d111..d507cb2 100644
--- a/src/common/types/ControlSequence.cpp
+++ b/src/common/types/ControlSequence.cpp
@@ -90,7 +90,9 @@ ssize_t ControlSequence::recv(int fd) {
     ssize_t bytes_read;
     ssize_t nbytes;
 
-    data = (char*)this;
+    // an incomplete message must not replace the current contents
+    ControlSequence received;
+    data = (char*)&received;
     data_size = sizeof(ControlSequence);
     bytes_read = 0;
 
@@ -106,5 +108,7 @@ ssize_t ControlSequence::recv(int fd) {
         data_size -= nbytes;
     }
 
+    if (data_size == 0) *this = received;
+
     return bytes_read;
 }
diff --git a/src/common/types/ControlSequence.hpp b/src/common/types/ControlSequence.hpp
index 3c09f61..55e20ca 100644
--- a/src/common/types/ControlSequence.hpp
+++ b/src/common/types/ControlSequence.hpp
@@ -72,14 +72,15 @@ class ControlSequence {
       * @brief Method to send the current ControlSequence via a file
       * descriptor.
       * @param fd is the destination file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes which were delivered, or -1 on failure.
       */
     ssize_t send(int fd);
 
     /**
       * @brief Method to receive a ControlSequence via a file descriptor.
       * @param fd is the sender file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes which were received, or -1 on failure. The
+      * sequence is changed only if it was received completely.
       */
     ssize_t recv(int fd);
 };
-- 
2.43.0


From 7b46140b243a878bb24bf457be0c625e13a45cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 35/74] fix: InSocket remembers that it is open, so that it is
 closed again

---
 src/common/socket/InSocket.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/socket/InSocket.cpp b/src/common/socket/InSocket.cpp
index 58162d1..840c166 100644
--- a/src/common/socket/InSocket.cpp
+++ b/src/common/socket/InSocket.cpp
@@ -67,6 +67,8 @@ int InSocket::enable() {
     int ret;
     int optval_true = true;  // integer True Value - see setsockopt (2)
 
+    if (this->_isOpen) return 0;
+
     this->_fd = socket(AF_INET, SOCK_STREAM, 0);
     if (this->_fd == -1) {
         perror("socket");
@@ -98,6 +100,8 @@ int InSocket::enable() {
         goto fail;
     }
 
+    this->_isOpen = true;
+
     return 0;
 
 fail:
@@ -106,4 +110,8 @@ fail:
     return -1;
 }
 
-OutSocket* InSocket::accept() { return buildAcceptedConnection(this->_fd); }
+OutSocket* InSocket::accept() {
+    if (!this->_isOpen) return nullptr;
+
+    return buildAcceptedConnection(this->_fd);
+}
-- 
2.43.0


From 4ab72a8dfe6dae1bb4092b2c40618673e9718f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 36/74] fix: asking for the argument of an option that was not
 given does not make it present

---
 src/common/utils/FlagParser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/FlagParser.cpp b/src/common/utils/FlagParser.cpp
index 90fa3f2..1a00f54 100644
--- a/src/common/utils/FlagParser.cpp
+++ b/src/common/utils/FlagParser.cpp
@@ -190,7 +190,8 @@ bool FlagParser::hasArg(char aShortOpt) {
 }
 
 std::string FlagParser::getArg(char aShortOpt) {
-    vector<string>& args = _parsedArgs[aShortOpt];
+    // looking up an option must not make it present
+    const vector<string> args = getArgs(aShortOpt);
 
     if (!args.empty())
         return args[0];
@@ -199,7 +200,12 @@ std::string FlagParser::getArg(char aShortOpt) {
 }
 
 std::vector<std::string> FlagParser::getArgs(char aShortOpt) {
-    return _parsedArgs[aShortOpt];
+    map<char, vector<string> >::iterator it = _parsedArgs.find(aShortOpt);
+
+    if (it != _parsedArgs.end())
+        return it->second;
+    else
+        return vector<string>();
 }
 
 std::string FlagParser::getUsage() {
-- 
2.43.0


From 0cb36f449eba52f24085441bd5b1ca7408cdfb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 37/74] fix: schemad dies of a segmentation fault instead of
 handling it forever

---
 src/mws/schemad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..2f34778 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -169,6 +169,9 @@ static void catch_sig(int sig) {
         struct sigaction new_sa;
         memset(&new_sa, 0, sizeof(struct sigaction));
         new_sa.sa_handler = SIG_DFL;
+        // also reset the handling for SIGSEGV, otherwise there will be an
+        // endless chain of signal handling
+        sigaction(SIGSEGV, &new_sa, nullptr);
         sigaction(SIGTERM, &new_sa, nullptr);
         sigaction(SIGABRT, &new_sa, nullptr);
         // let it crash and generate a core dump
-- 
2.43.0


From 2dca665161349e7c16f1d03967ccc5658e6f20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 38/74] fix: mws-index does not delete old data depending on an
 uninitialised flag

---
 src/mws/index/IndexWriter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From be326881f4309812a1a4821917c0ca7736658e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:54 +0000
Subject: [PATCH 39/74] fix: mwsd initialises the XML parser also when it loads
 a stored index

---
 src/mws/mwsd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..4239a39 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -174,6 +174,9 @@ int main(int argc, char* argv[]) {
         }
     }
 
+    // needs to be done before several threads parse queries
+    initxmlparser();
+
     // data-path and harvest paths
     if (FlagParser::hasArg('D')) {
         try {
@@ -210,7 +213,6 @@ int main(int argc, char* argv[]) {
         }
     } else if (FlagParser::hasArg('I')) {
         try {
-            initxmlparser();
             HarvestQueryHandler* queryHandler;
             queryHandler = new HarvestQueryHandler(indexConfig.harvester);
             PRINT_LOG("Index built successfully.\n");
-- 
2.43.0


From 0c6bc7ca25bcad5c33ff998a9fd7c7a9599b5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 40/74] fix: robots.txt is read without overrunning and leaking
 a copy of it

---
 src/crawler/types/Robotstxt.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..102c00f 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -26,6 +26,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <string>
 #include <vector>
 #include <iostream>
+#include <sstream>
 
 // Local includes
 #include "common/utils/compiler_defs.h"
@@ -58,14 +59,9 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
     string thisCrawler = "*";
     string disallow = "Disallow: ";
     int isInBrackets = 0;
-    FILE* stream;
-    auto robpg = new char[rob.size()];
-    strcpy(robpg, rob.c_str());
-    stream = fmemopen(robpg, rob.size(), "r");
-    const int bufmax = 1000;
-    char buf[bufmax];
-    while (fgets(buf, bufmax, stream) != nullptr) {
-        string line(buf);
+    istringstream stream(rob);
+    string line;
+    while (getline(stream, line)) {
         if (line.compare(0, userAgent.size(), userAgent) == 0) {
             if (isInBrackets)
                 isInBrackets = 0;
-- 
2.43.0


From 9c8b50c54d5b49e215c3bbf535f092c29ce4e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:11 +0000
Subject: [PATCH 41/74] fix: robots.txt rules apply to every group that names
 all user agents, however the lines are written

---
 src/crawler/types/Robotstxt.cpp | 54 +++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 102c00f..0b6c383 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -39,6 +39,31 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 using namespace std;
 
+static string trim(const string& str) {
+    const char* whitespace = " \t\r\n\v\f";
+    const size_t begin = str.find_first_not_of(whitespace);
+    if (begin == string::npos) return "";
+    return str.substr(begin, str.find_last_not_of(whitespace) - begin + 1);
+}
+
+/**
+ * Splits a line of robots.txt into its field (in lower case) and its value
+ * @return false if the line has no field
+ */
+static bool parseLine(string line, string* field, string* value) {
+    line = line.substr(0, line.find('#'));
+    const size_t colon = line.find(':');
+    if (colon == string::npos) return false;
+
+    *field = trim(line.substr(0, colon));
+    for (char& c : *field) {
+        if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
+    }
+    *value = trim(line.substr(colon + 1));
+
+    return true;
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -55,24 +80,27 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
     }
 
     // If Our Crawler has no name
-    string userAgent = "User-agent: ";
-    string thisCrawler = "*";
-    string disallow = "Disallow: ";
-    int isInBrackets = 0;
+    const string thisCrawler = "*";
+    // A group is a sequence of User-agent lines, followed by its rules
+    bool isGroupStart = false;
+    bool isInBrackets = false;
     istringstream stream(rob);
     string line;
     while (getline(stream, line)) {
-        if (line.compare(0, userAgent.size(), userAgent) == 0) {
-            if (isInBrackets)
-                isInBrackets = 0;
-            else if (line.compare(0, userAgent.size() + thisCrawler.size(),
-                                  userAgent + thisCrawler) == 0)
-                isInBrackets = 1;
+        string field, value;
+        if (!parseLine(line, &field, &value)) continue;
+
+        if (field == "user-agent") {
+            if (!isGroupStart) isInBrackets = false;
+            isGroupStart = true;
+            if (value == thisCrawler) isInBrackets = true;
+            continue;
         }
 
-        if (isInBrackets && line.compare(0, disallow.size(), disallow) == 0) {
-            string dontCrawlLink = line.substr(disallow.size());
-            this->dont_allow(dontCrawlLink);
+        isGroupStart = false;
+        // An empty value disallows nothing
+        if (isInBrackets && field == "disallow" && value != "") {
+            this->dont_allow(value);
         }
     }
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
-- 
2.43.0


From 30b515490f88ef94780f0c3dd3efc89cc52fee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:13 +0000
Subject: [PATCH 42/74] fix: a robots.txt rule disallows exactly what begins
 with it, whatever the query

---
 src/crawler/types/Robotstxt.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 0b6c383..b40d284 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -124,21 +124,14 @@ void Robotstxt::dont_allow(string url) {
  */
 int Robotstxt::is_allowed_by_robots_txt(GURL gurl) {
     vector<GURL>::iterator it;
-    GURL c;
-    string cp;
+    string path = gurl.PathForRequest();
 
     for (it = not_allowed.begin(); it != not_allowed.end(); ++it) {
-        c = (*it);
-        if (gurl.host() == c.host() && gurl.query() == c.query()) {
-            cp = c.path();
-            if (cp[cp.size() - 1] == '/') {
-                if (gurl.path().substr(0, cp.length() - 1) ==
-                    cp.substr(0, cp.length() - 1))
-                    return 0;
-            } else {
-                if (gurl.path().substr(0, cp.length()) == cp) return 0;
-            }
-        }
+        // A rule disallows everything which begins with it
+        string rule = it->PathForRequest();
+        if (gurl.host() == it->host() &&
+            path.compare(0, rule.size(), rule) == 0)
+            return 0;
     }
     return 1;
 }
-- 
2.43.0


From f5cd6e5c7a1d0eb8ad03c4e9bc7511a687944285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 43/74] fix: reading a file that has been shortened meanwhile
 is reported instead of tried forever

---
 src/common/utils/util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 5c062b8..3d63005 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -128,9 +128,13 @@ std::string getFileContents(const std::string& path) throw(runtime_error) {
     do {
         ssize_t ret;
         FAIL_ON((ret = read(fd, &contents[curr], size - curr)) < 0);
+        if (ret == 0) break;
         curr += ret;
     } while (curr < size);
-    FAIL_ON(curr != size);
+    if (curr != size) {  // the file has been shortened meanwhile
+        errno = EIO;
+        goto fail;
+    }
 
     close(fd);
 
-- 
2.43.0


From d7b2464df7a94c3ca915a7cdb93ea36b239b20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 44/74] fix: a directory that cannot be read to its end is
 closed

---
 src/common/utils/util.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 3d63005..df3aa28 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -159,7 +159,8 @@ static int getPathsInDirectory(const std::string& directoryPath,
                                const std::string& prefix,
                                queue<string>* directoriesOut,
                                queue<FileData>* filesOut) {
-    DIR* directory;
+    DIR* directory = nullptr;
+    int closeStatus;
     struct dirent entryData, *currEntry;
     vector<string> directories;
     vector<string> fileRelativePaths;
@@ -190,7 +191,9 @@ static int getPathsInDirectory(const std::string& directoryPath,
             }
         }
     }
-    FAIL_ON(closedir(directory) != 0);
+    closeStatus = closedir(directory);
+    directory = nullptr;
+    FAIL_ON(closeStatus != 0);
 
     sort(directories.begin(), directories.end(), std::less<string>());
     sort(fileRelativePaths.begin(), fileRelativePaths.end(),
@@ -206,6 +209,7 @@ static int getPathsInDirectory(const std::string& directoryPath,
 
 fail:
     PRINT_WARN("%s\n", directoryPath.c_str());
+    if (directory != nullptr) closedir(directory);
     return -1;
 }
 
-- 
2.43.0


From bd0909a2a6221c05f08c07bc6a13981ed7e2344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 45/74] fix: directory entries of unknown type are looked up
 instead of skipped

---
 src/common/utils/util.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index df3aa28..3e46fc0 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -177,7 +177,14 @@ static int getPathsInDirectory(const std::string& directoryPath,
         if (currEntry->d_name[0] == '.') {
             PRINT_LOG("Skipping \"%s\": hidden\n", fullPath.c_str());
         } else {
-            switch (currEntry->d_type) {
+            unsigned char type = currEntry->d_type;
+            if (type == DT_UNKNOWN) {
+                // not every file system stores the type with the entry
+                struct stat status;
+                FAIL_ON(lstat(fullPath.c_str(), &status) != 0);
+                type = IFTODT(status.st_mode);
+            }
+            switch (type) {
             case DT_DIR:
                 directories.push_back(relativePath);
                 break;
-- 
2.43.0


From c460390f707e5f1a43255d3981e3e5a9c98fc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 46/74] fix: only directories are taken for directories by
 create_directory

---
 src/common/utils/util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 3e46fc0..e10671f 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -290,9 +290,12 @@ void create_directory(const string& path, bool error_if_exists) {
         }
 
         struct stat status;
-        stat(path.c_str(), &status);
+        if (stat(path.c_str(), &status) != 0) {
+            throw runtime_error(
+                formattedString("%s: %s", path.c_str(), strerror(errno)));
+        }
 
-        if (status.st_mode & S_IFDIR) {
+        if (S_ISDIR(status.st_mode)) {
             // Test read and write access
             if (access(path.c_str(), R_OK | W_OK) != 0) {
                 throw runtime_error(
-- 
2.43.0


From 83d150578c17e0205afc1bf508a6b8eba33ad30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:08 +0000
Subject: [PATCH 47/74] fix: math tags of a page end where they end: names,
 quoted values and self-closing tags

---
 src/crawler/utils/MwsGetMath.cpp | 51 ++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..4404703 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -53,6 +53,28 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+static bool is_html_space(char c) {
+    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
+}
+
+/*
+ * Returns the position of the '>' that ends the tag with attributes from pos,
+ * which is not inside a quoted value, or npos if there is none
+ */
+static size_t find_tag_end(const string& html, size_t pos) {
+    char quote = '\0';
+    for (; pos < html.size(); ++pos) {
+        if (quote != '\0') {
+            if (html[pos] == quote) quote = '\0';
+        } else if (html[pos] == '"' || html[pos] == '\'') {
+            quote = html[pos];
+        } else if (html[pos] == '>') {
+            return pos;
+        }
+    }
+    return string::npos;
+}
+
 /*
  * Helper function for get_math_html
  *
@@ -61,27 +83,26 @@ std::set<std::string> mathml_tags;
  */
 vector<pair<string, string> > get_math_blocks(string html) {
     store_mathml_tags();
-    int pos = 0, sz = html.size();
+    size_t pos = 0;
     vector<pair<int, int> > allpos;
     string matho = "<math";
-    string mathc = "</math>";
+    string mathc = "</math";
 
     // finds all opening math tags and stores starting position in all pos
     while (1) {
         size_t oc = html.find(matho, pos);
         if (oc == string::npos) break;
         pos = oc + matho.size();
+        // check whether it is the whole name of the tag
+        if (pos < html.size() && html[pos] != '>' && html[pos] != '/' &&
+            !is_html_space(html[pos]))
+            continue;
+        size_t end = find_tag_end(html, pos);
+        if (end == string::npos) continue;
+        pos = end;
         allpos.push_back(make_pair(oc, 1));
         // check whether the tag closes by itself
-        while (1) {
-            if (pos == sz) break;
-            if (html[pos] == '>') break;
-            if (html[pos] == '/' && (pos + 1) < sz && html[pos + 1] == '>') {
-                allpos.push_back(make_pair(pos, -1));
-                pos = pos + 2;
-            }
-            ++pos;
-        }
+        if (html[end - 1] == '/') allpos.push_back(make_pair(end - 1, -1));
     }
     pos = 0;
 
@@ -90,6 +111,9 @@ vector<pair<string, string> > get_math_blocks(string html) {
         size_t oc = html.find(mathc, pos);
         if (oc == string::npos) break;
         pos = oc + mathc.size();
+        size_t end = pos;
+        while (end < html.size() && is_html_space(html[end])) ++end;
+        if (end == html.size() || html[end] != '>') continue;
         allpos.push_back(make_pair(oc, -1));
     }
     sort(allpos.begin(), allpos.end());
@@ -107,10 +131,7 @@ vector<pair<string, string> > get_math_blocks(string html) {
         if (val == 0) {
             string nstr;
             int start = allpos[lpos].first;
-            int stop = allpos[i].first + mathc.size();
-            if (html[allpos[i].first] == '/')
-                stop = allpos[i].first +
-                       2;  // the case when the tag closes by itself
+            int stop = html.find('>', allpos[i].first) + 1;
 
             for (int j = start; j < stop; ++j)
                 if (html[j] != '<')
-- 
2.43.0


From f4e406c8f7ef0208b4a133d7e50b12af79baaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:08 +0000
Subject: [PATCH 48/74] fix: a closing math tag without an opening one does not
 hide the formulas that follow

---
 src/crawler/utils/MwsGetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 4404703..d5d26e9 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -128,7 +128,11 @@ vector<pair<string, string> > get_math_blocks(string html) {
     int lpos = 0, val = 0;
     for (int i = 0; (unsigned int)i < allpos.size(); ++i) {
         val += allpos[i].second;
-        if (val == 0) {
+        if (val < 0) {
+            // a closing tag that closes nothing
+            val = 0;
+            lpos = i + 1;
+        } else if (val == 0) {
             string nstr;
             int start = allpos[lpos].first;
             int stop = html.find('>', allpos[i].first) + 1;
-- 
2.43.0


From e8fbc807b57d663f60625566fbde8a15570eda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 49/74] fix: the id of a formula is the value of its attribute
 id, however it is quoted

---
 src/crawler/utils/MwsGetMath.cpp | 37 ++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index d5d26e9..cc18ce9 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -75,6 +75,35 @@ static size_t find_tag_end(const string& html, size_t pos) {
     return string::npos;
 }
 
+/*
+ * Returns the value of the attribute id of a start tag, as it is written
+ */
+static string get_tag_id(const string& tag) {
+    size_t pos = 0, end = tag.size() - 1;
+    if (tag[end - 1] == '/') --end;
+    while (pos < end && !is_html_space(tag[pos])) ++pos;
+    while (pos < end) {
+        while (pos < end && is_html_space(tag[pos])) ++pos;
+        size_t name = pos;
+        while (pos < end && tag[pos] != '=' && !is_html_space(tag[pos])) ++pos;
+        bool is_id = tag.compare(name, pos - name, "id") == 0;
+        while (pos < end && is_html_space(tag[pos])) ++pos;
+        if (pos == end || tag[pos] != '=') continue;
+        ++pos;
+        while (pos < end && is_html_space(tag[pos])) ++pos;
+        size_t value = pos;
+        if (pos < end && (tag[pos] == '"' || tag[pos] == '\'')) {
+            ++value;
+            pos = tag.find(tag[pos], value);
+        } else {
+            while (pos < end && !is_html_space(tag[pos])) ++pos;
+        }
+        if (is_id) return tag.substr(value, pos - value);
+        if (pos < end && !is_html_space(tag[pos])) ++pos;
+    }
+    return "";
+}
+
 /*
  * Helper function for get_math_html
  *
@@ -163,12 +192,8 @@ vector<pair<string, string> > get_math_blocks(string html) {
             lpos = i + 1;
 
             // check whether formula has an id, save it and return it
-            string id;
-            size_t we = nstr.find(">");
-            size_t wid = nstr.find(" id=");
-            if (wid != string::npos && wid < we)
-                for (int j = wid + 5; nstr[j] != '"'; ++j)
-                    id.push_back(nstr[j]);
+            string id = get_tag_id(
+                html.substr(start, find_tag_end(html, start) + 1 - start));
 
             ans.push_back(make_pair(nstr, id));
         }
-- 
2.43.0


From 959a5419b76988421b1691952c82b1e71eba9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 50/74] fix: the URL of a crawled formula is escaped and has a
 fragment only if there is an id

---
 src/crawler/utils/MwsGetMath.cpp | 37 ++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index cc18ce9..cc16c0c 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -53,6 +53,23 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+/*
+ * Escapes a text to be used as value of an attribute in double quotes
+ */
+static string escape_attribute(const string& text) {
+    string result;
+    for (char c : text) {
+        switch (c) {
+        case '&': result += "&amp;"; break;
+        case '<': result += "&lt;"; break;
+        case '>': result += "&gt;"; break;
+        case '"': result += "&quot;"; break;
+        default: result += c; break;
+        }
+    }
+    return result;
+}
+
 static bool is_html_space(char c) {
     return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f';
 }
@@ -76,7 +93,7 @@ static size_t find_tag_end(const string& html, size_t pos) {
 }
 
 /*
- * Returns the value of the attribute id of a start tag, as it is written
+ * Returns the value of the attribute id of a start tag, escaped
  */
 static string get_tag_id(const string& tag) {
     size_t pos = 0, end = tag.size() - 1;
@@ -98,7 +115,16 @@ static string get_tag_id(const string& tag) {
         } else {
             while (pos < end && !is_html_space(tag[pos])) ++pos;
         }
-        if (is_id) return tag.substr(value, pos - value);
+        if (is_id) {
+            // the value is already escaped, except for the other kind of quotes
+            string id;
+            for (char c : tag.substr(value, pos - value))
+                if (c == '"')
+                    id += "&quot;";
+                else
+                    id += c;
+            return id;
+        }
         if (pos < end && !is_html_space(tag[pos])) ++pos;
     }
     return "";
@@ -282,7 +308,7 @@ int isHTML(Page& page) {
  */
 vector<string> get_math_html(Page& page) {
     string html = page.getContent();
-    string url = page.getUrl();
+    string url = escape_attribute(page.getUrl());
 
     vector<pair<string, string> > xml = get_math_blocks(html);
     vector<pair<string, string> >::iterator it;
@@ -389,7 +415,10 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            string expr_url = url;
+            if (id != nullptr) expr_url += string("#") + (const char*)id;
+            fprintf(stream, "<mws:expr url=\"%s\">\n",
+                    escape_attribute(expr_url).c_str());
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
-- 
2.43.0


From 12d44c57814d1e54911922b2a9ba41e105dd4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 51/74] fix: the list of MathML tags is used as long as it is,
 and released on errors

---
 src/crawler/utils/MwsGetMath.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index cc16c0c..ca0244b 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -268,6 +268,7 @@ xmlXPathObjectPtr get_XMLNodeset(xmlDocPtr doc, const xmlChar* xpath) {
         PRINT_WARN(
             "Error: unable to register NS with prefix=\"%s\" and href=\"%s\"\n",
             prefix, href);
+        xmlXPathFreeContext(context);
         return nullptr;
     }
 
@@ -344,11 +345,16 @@ void store_mathml_tags() {
     }
     is.seekg(0, ios::end);
     int length = is.tellg();
+    if (length < 0) {
+        PRINT_WARN("Error while reading MathML file from: %s.\n",
+                   MATHMLTAGS_PATH);
+        exit(1);
+    }
     alltags = new char[length];
     is.seekg(0, ios::beg);
     is.read(alltags, length);
+    string all_tags(alltags, is.gcount());
     is.close();
-    string all_tags(alltags);
     delete[] alltags;
     int pos = 0;
 
-- 
2.43.0


From 82142ec560e74150f6952ca12a55f01f420aaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 52/74] fix: the document name and formula id in a harvest
 written without data are escaped

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..e688aeb 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\""
+                       << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From 4f02bbef329e2b3b0ea497bafb31d3bce57494d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 53/74] fix: formulas outside the text of a document get ids of
 their own in its harvest

---
 src/crawler/parser/MathParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index e688aeb..cfe1617 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -130,14 +130,14 @@ Harvest createHarvestFromDocument(const string& path,
         }
 
         if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
+            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
         cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
-            expression << "<mws:expr url=\"" << mathIdDictionary.get(id)
+            expression << "<mws:expr url=\"" << mathIdDictionary.put(id)
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-- 
2.43.0


From 44a7c856f704a28f8846a3e21f2249898df2e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 54/74] fix: docs2harvest warns of metadata that is no object
 instead of crashing

---
 src/crawler/docs2harvest.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index 3d361b9..cdf3218 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -214,7 +214,10 @@ static HarvesterConfiguration readHarvesterConfigurationFile(string path) {
 #undef readStringConfigProperty
 
     json_object* jsonMetadata = getJsonChild(jsonConfig, "metadata");
-    if (jsonMetadata != nullptr) {
+    if (jsonMetadata != nullptr &&
+        json_object_get_type(jsonMetadata) != json_type_object) {
+        PRINT_WARN("Value of \"metadata\" should be an object\n");
+    } else if (jsonMetadata != nullptr) {
         json_object_object_foreach(jsonMetadata, key, value) {
             HarvesterConfiguration::MetadataItem item;
             UNUSED(value);
-- 
2.43.0


From e09d1635cb0ed3651fb1f66920b36a21aafd9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 55/74] fix: docs2harvest reports an unusable directory or
 configuration instead of aborting

---
 src/crawler/docs2harvest.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index cdf3218..524330e 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -76,12 +76,17 @@ int main(int argc, char* argv[]) {
         return EXIT_FAILURE;
     }
 
-    if (FlagParser::hasArg('o')) {
-        outputDirectory = FlagParser::getArg('o');
-        create_directory(outputDirectory);
-    }
-    if (FlagParser::hasArg('c')) {
-        config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+    try {
+        if (FlagParser::hasArg('o')) {
+            outputDirectory = FlagParser::getArg('o');
+            create_directory(outputDirectory);
+        }
+        if (FlagParser::hasArg('c')) {
+            config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+        }
+    } catch (exception& e) {
+        PRINT_WARN("%s\n", e.what());
+        return EXIT_FAILURE;
     }
     if (FlagParser::hasArg('x')) {
         config.documentIdXpath = FlagParser::getArg('x');
-- 
2.43.0


From 4bc8f0c6903b8f20d55d636c2db12d119011c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 56/74] fix: docs2harvest reports a harvest that could not be
 written

---
 src/crawler/docs2harvest.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index 524330e..2cd88f0 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -140,7 +140,15 @@ int main(int argc, char* argv[]) {
         }
     }
     fputs("</mws:harvest>\n", harvestOutStream);
-    fclose(harvestOutStream);
+    {
+        const bool failed = ferror(harvestOutStream) != 0;
+        const bool closed = (fclose(harvestOutStream) == 0);
+        harvestOutStream = nullptr;
+        if (failed || !closed) {
+            PRINT_WARN("Writing %s failed\n", harvestPath);
+            goto failure;
+        }
+    }
 
     PRINT_LOG("Written harvest %s\n", harvestPath);
 
-- 
2.43.0


From 21daf1bcceb8e6670f56e85c0c611750b61558ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:28 +0000
Subject: [PATCH 57/74] fix: posted crawl requests are kept whole and within
 their buffers

---
 src/crawler/daemon/CrawlerDaemon.cpp | 78 ++++++++++++++--------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..933b3ac 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -79,6 +79,32 @@ static int cd_SendPageThroughConnection(struct MHD_Connection* connection,
     return ret;
 }
 
+/**
+ * @brief: adds a piece of a posted value, which need not be terminated, to the
+ * pieces received so far. Values that are too long are dropped.
+ * @param value the pieces received so far, or nullptr
+ * @return the value including the piece, or nullptr if it is dropped
+ */
+static char* cd_AppendToValue(char* value, const char* data, uint64_t off,
+                              size_t size) {
+    if (off == 0) {  // a new value
+        free(value);
+        value = nullptr;
+        if (size == 0 || size > MAXNAMESIZE) return nullptr;
+        value = (char*)malloc(MAXNAMESIZE + 1);
+        if (!value) return nullptr;
+    } else if (value == nullptr || strlen(value) != off) {
+        return value;  // the rest of a value that was dropped
+    } else if (off + size > MAXNAMESIZE) {
+        free(value);
+        return nullptr;
+    }
+    memcpy(value + off, data, size);
+    value[off + size] = '\0';
+
+    return value;
+}
+
 /**
  * @brief: method that iterates the key-value pairs of the POST message received
  */
@@ -91,50 +117,24 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
 
     if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
-
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        } else
-            con_info->count = nullptr;
-
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
-
-        return MHD_YES;
+        con_info->urlstart =
+            cd_AppendToValue(con_info->urlstart, data, off, size);
+    } else if (0 == strcmp(key, "count")) {
+        con_info->count = cd_AppendToValue(con_info->count, data, off, size);
+    } else if (0 == strcmp(key, "dontcrawl")) {
+        // the last entry is unused or holds the beginning of this value
+        if (off == 0 && con_info->dontcrawlnr < MAXDONTCRAWLSIZE)
+            con_info->dontcrawl[con_info->dontcrawlnr++] = nullptr;
+        else if (off == 0 || con_info->dontcrawlnr == 0)
+            return MHD_YES;
+        char*& dontcrawl = con_info->dontcrawl[con_info->dontcrawlnr - 1];
+        dontcrawl = cd_AppendToValue(dontcrawl, data, off, size);
+        if (dontcrawl == nullptr) con_info->dontcrawlnr--;
     }
     return MHD_YES;
 }
-- 
2.43.0


From 15199535e55395cb975519f9b49cc39fd3f0ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:28 +0000
Subject: [PATCH 58/74] fix: crawl requests that were cut off are not carried
 out

---
 src/crawler/daemon/CrawlerDaemon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 933b3ac..311a4f9 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -148,7 +148,6 @@ static void cd_RequestCompletedCallback(void* cls,
                                         void** con_cls,
                                         enum MHD_RequestTerminationCode toe) {
     UNUSED(connection);
-    UNUSED(toe);
 
     SharedQueue* sharedQueue = (SharedQueue*)cls;
     QueueNode qNode;
@@ -163,7 +162,8 @@ static void cd_RequestCompletedCallback(void* cls,
     if (con_info->connectiontype == POST) {
         if (con_info->urlstart != nullptr) {
             qNode.urlstart = con_info->urlstart;
-            goodRequest = 1;
+            // a request that was cut off may be incomplete
+            goodRequest = (toe == MHD_REQUEST_TERMINATED_COMPLETED_OK);
         }
         if (con_info->count != nullptr && atoi(con_info->count))
             qNode.count = atoi(con_info->count);
-- 
2.43.0


From 5582e44dde5480ad7ba50d38f6a896cf375f9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 59/74] fix: a crawl request with an unusable starting URL does
 not crash the crawler

---
 src/crawler/crawler/MwsCrawler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..dbfa9ee 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,11 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    // there is nothing to crawl without a valid starting URL
+    if (rtxt == nullptr) return;
+    rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From 11f2042b0e031fb1020b69fe34f88f1b208f2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 60/74] fix: a page that is linked twice from one page is
 crawled once

---
 src/crawler/crawler/MwsCrawler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index dbfa9ee..1b3d7c2 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -162,8 +162,9 @@ void Crawler::start() {
         vector<GURL>::iterator it;
         for (it = page_links.begin(); it != page_links.end(); ++it) {
             GURL url_to_add = (*it);
+            // a page may have several links to the same page
+            if (!all_urls.insert(getQueryable(url_to_add)).second) continue;
             url_queue.push(url_to_add);
-            all_urls.insert(getQueryable(url_to_add));
         }
     }
 
-- 
2.43.0


From aafa015f04fa58d1a12f063a06b64cdbf6323d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 61/74] fix: crawled harvests do not overwrite each other

---
 src/crawler/crawler/MwsCrawler.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 1b3d7c2..17de6c9 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
+#include <cerrno>
 #include <string>  // stl
 #include <vector>
 #include <queue>
@@ -209,16 +210,23 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
  */
 void Crawler::storeMath(const char* xml) {
     stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
-    string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
+    strs << data_directory << "/harvest" << time(nullptr);
+    string fileName = strs.str() + ".xml";
+    // do not overwrite a harvest that was stored in the same second
+    FILE* f = fopen(fileName.c_str(), "wx");
+    for (int i = 1; f == nullptr && errno == EEXIST; ++i) {
+        fileName = strs.str() + "_" + to_string(i) + ".xml";
+        f = fopen(fileName.c_str(), "wx");
+    }
     if (f == nullptr) {
         cerr << "Cannot open harvest file: " << fileName << endl;
         return;
     }
-    fwrite(xml, strlen(xml), sizeof(char), f);
-    fclose(f);
+    const size_t length = strlen(xml);
+    const bool isWritten = fwrite(xml, sizeof(char), length, f) == length;
+    if (fclose(f) != 0 || !isWritten) {
+        cerr << "Cannot write harvest file: " << fileName << endl;
+    }
 }
 
 /**
-- 
2.43.0


From 7eb18b5885556239ce40fa031937c73f6c59a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 62/74] fix: the crawler reads the queue of requests under its
 lock

---
 src/crawler/crawler/MwsCrawler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 17de6c9..5aa8c27 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -183,13 +183,15 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
+        pthread_mutex_lock(&sq->lock);
         while ((*sq).sharedQueue.empty()) {
+            pthread_mutex_unlock(&sq->lock);
             sleep(1);  // TODO
+            pthread_mutex_lock(&sq->lock);
         }
 
         QueueNode qNode = (*sq).sharedQueue.front();
 
-        pthread_mutex_lock(&sq->lock);
         (*sq).sharedQueue.pop();
         pthread_mutex_unlock(&sq->lock);
 
-- 
2.43.0


From 994a571f85d6ee6b4cbd7b12e5402f110ec56f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:25 +0000
Subject: [PATCH 63/74] fix: a page that could not be downloaded completely is
 not used in part

---
 src/crawler/utils/Page.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..3a0ba5e 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -83,7 +83,10 @@ void Page::downloadContent() {
         return;
     }
     string strUrl = getUrl();
-    auto errorstr = new char[CURL_ERROR_SIZE];
+    char errorstr[CURL_ERROR_SIZE] = "";
+    // forget what an earlier download left behind
+    content.clear();
+    header.clear();
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
@@ -97,8 +100,11 @@ void Page::downloadContent() {
     if (curl_easy_perform(curl) == 0) {
         downloadedContent = 1;
         downloadedHeader = 1;
-    } else
+    } else {
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
+        content.clear();
+        header.clear();
+    }
 
     curl_easy_cleanup(curl);
 }
@@ -114,17 +120,20 @@ void Page::downloadHeader() {
         return;
     }
     string strUrl = getUrl();
+    header.clear();
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_NOPROGRESS, 1L);
-    curl_easy_setopt(curl, CURLOPT_NOBODY, 1);
+    curl_easy_setopt(curl, CURLOPT_NOBODY, 1L);
     curl_easy_setopt(curl, CURLOPT_HEADERFUNCTION, curlWriter);
     curl_easy_setopt(curl, CURLOPT_WRITEHEADER, &header);
 
     if (curl_easy_perform(curl) == 0) {
         downloadedHeader = 1;
-    } else
+    } else {
         PRINT_WARN("CURL: Cannot download header of page!\n");
+        header.clear();
+    }
 
     curl_easy_cleanup(curl);
 }
-- 
2.43.0


From 4c5b25d2fc5df962af61d2430aac89e1571941c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:25 +0000
Subject: [PATCH 64/74] fix: the modification date is not read past the end of
 the header

---
 src/crawler/utils/Page.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 3a0ba5e..5ac9a82 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -181,7 +181,8 @@ string Page::getModifiedDate() {
     size_t where = header.find(to_find);
     if (where == string::npos) return "";
     string last_modified;
-    for (int i = where + to_find.length(); header[i] != '\n'; ++i)
+    for (size_t i = where + to_find.length();
+         i < header.size() && header[i] != '\n'; ++i)
         last_modified.push_back(header[i]);
     return last_modified;
 }
-- 
2.43.0


From 6c5db9cd7c76c7778b35963ae04be70f8952b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:25 +0000
Subject: [PATCH 65/74] fix: links with upper case tags or escaped characters
 are followed

---
 src/crawler/utils/Page.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 5ac9a82..799920f 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -31,6 +31,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <gurl.h>
 #include <htmlcxx/html/ParserDom.h>
 #include <htmlcxx/html/tree.h>
+#include <htmlcxx/html/utils.h>
+#include <strings.h>
 
 #include "common/utils/compiler_defs.h"
 
@@ -203,9 +205,12 @@ vector<GURL> Page::getLinks() {
     tree<HTML::Node>::iterator it = dom.begin();
     tree<HTML::Node>::iterator end = dom.end();
     for (; it != end; ++it) {
-        if (it->tagName() == "a") {
+        // names of tags are not case sensitive
+        if (it->isTag() && strcasecmp(it->tagName().c_str(), "a") == 0) {
             it->parseAttributes();
-            string relative = it->attribute("href").second;
+            if (!it->attribute("href").first) continue;
+            string relative =
+                HTML::decode_entities(it->attribute("href").second);
 
             GURL resolved = curr.Resolve(relative);
             if (resolved.host() == curr.host()) answer.push_back(resolved);
-- 
2.43.0


From 6c870c48abc13afe56ccd358ff5f38ae9568f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:46 +0000
Subject: [PATCH 66/74] fix: the crawler daemon starts without its page and
 does not read past it

---
 src/crawler/daemon/CrawlerDaemon.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 311a4f9..047774c 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -265,9 +265,15 @@ CrawlerDaemon::CrawlerDaemon() {
     _daemonHandler = nullptr;
     sharedQueue = nullptr;
 
+    size_t size = 0;
     FILE* getpg = fopen(GETRESPONSE_PATH, "r");
-    fread(askpage, 1, MAXASKPAGESIZE, getpg);
-    fclose(getpg);
+    if (getpg == nullptr) {
+        PRINT_WARN("Cannot open \"%s\"\n", GETRESPONSE_PATH);
+    } else {
+        size = fread(askpage, 1, MAXASKPAGESIZE - 1, getpg);
+        fclose(getpg);
+    }
+    askpage[size] = '\0';
 }
 
 /**
-- 
2.43.0


From 69ad6d632a8b42592ce3b0c2edd500f97008f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 67/74] fix: a piece of a posted value that was dropped is not
 added to another value

---
 src/crawler/daemon/CrawlerDaemon.cpp | 20 +++++++++++++-------
 src/crawler/daemon/CrawlerDaemon.hpp |  1 +
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 047774c..77d08fb 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -127,14 +127,20 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     } else if (0 == strcmp(key, "count")) {
         con_info->count = cd_AppendToValue(con_info->count, data, off, size);
     } else if (0 == strcmp(key, "dontcrawl")) {
-        // the last entry is unused or holds the beginning of this value
-        if (off == 0 && con_info->dontcrawlnr < MAXDONTCRAWLSIZE)
-            con_info->dontcrawl[con_info->dontcrawlnr++] = nullptr;
-        else if (off == 0 || con_info->dontcrawlnr == 0)
-            return MHD_YES;
+        if (off == 0) {
+            con_info->isdontcrawlopen =
+                con_info->dontcrawlnr < MAXDONTCRAWLSIZE;
+            if (con_info->isdontcrawlopen)
+                con_info->dontcrawl[con_info->dontcrawlnr++] = nullptr;
+        }
+        // the rest of a value that was dropped
+        if (!con_info->isdontcrawlopen) return MHD_YES;
         char*& dontcrawl = con_info->dontcrawl[con_info->dontcrawlnr - 1];
         dontcrawl = cd_AppendToValue(dontcrawl, data, off, size);
-        if (dontcrawl == nullptr) con_info->dontcrawlnr--;
+        if (dontcrawl == nullptr) {
+            con_info->dontcrawlnr--;
+            con_info->isdontcrawlopen = false;
+        }
     }
     return MHD_YES;
 }
@@ -215,7 +221,7 @@ static int cd_AccessHandlerCallback(void* cls,
         con_info->urlstart = nullptr;
         con_info->count = nullptr;
         con_info->dontcrawlnr = 0;
-        con_info->dontcrawl[0] = nullptr;
+        con_info->isdontcrawlopen = false;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..18f7842 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -60,6 +60,7 @@ struct connection_info_struct
     char *count;
     int dontcrawlnr;
     char *dontcrawl[MAXDONTCRAWLSIZE];
+    bool isdontcrawlopen; // whether the last entry may be continued
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From ed169f0d3e56359f43d1c8f414a1edf5ffb3cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 68/74] fix: harvests2json does not crash on an expression
 without data

---
 src/crawler/harvests2json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 4220944..cb19a97 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -360,6 +360,9 @@ int HarvestParser::processExpression(const CmmlToken* expression,
     assert(expression != nullptr);
     assert(crawlId <= _idCounter);
 
+    // without data there is no document the expression belongs to
+    if (crawlId == mws::dbc::CRAWLID_NULL) return 0;
+
     HarvestEncoder encoder(_meaningDictionary);
     u_int32_t numSubExpressions = 0;
 
-- 
2.43.0


From 5c034f975d0f507a3aead8504f371ad22c273041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 69/74] fix: harvests2json skips formulas that are not in the
 index

---
 src/crawler/harvests2json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index cb19a97..c8e5bb9 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -381,6 +381,11 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* offset = */ 0,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
+        if (result->ids.empty()) {
+            PRINT_WARN("Skipping a formula (not in the index)\n");
+            delete result;
+            return;
+        }
         numSubExpressions += result->total;
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
-- 
2.43.0


From 1d15f7c93d9b895078274ec96b67a6a4bade8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 70/74] fix: harvests2json does not crash on math without
 local_id

---
 src/crawler/harvests2json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index c8e5bb9..d398031 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -147,7 +147,10 @@ static DataItems* getDataItems(const string& content) {
     // get math node mappings
     processXpathResults(doc, MATH_XPATH, [&](xmlNode* mathNode) {
         const xmlChar* xmlId = xmlGetProp(mathNode, BAD_CAST "local_id");
-        assert(xmlId != nullptr);
+        if (xmlId == nullptr) {
+            PRINT_WARN("Skipping a formula without local_id\n");
+            return;
+        }
 
         string id((char*)xmlId);
         xmlFree((void*)xmlId);
-- 
2.43.0


From 0f7f1eb3c5f384cfc1afed13ed3681f1c45a65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:14 +0000
Subject: [PATCH 71/74] fix: harvests2json leaves no incomplete files behind

---
 src/crawler/harvests2json.cpp | 45 +++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index d398031..cce44cb 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   */
 
 #include <fcntl.h>
+#include <unistd.h>
 #include <stdio.h>
 #include <string.h>
 #include <json-c/json.h>
@@ -256,37 +257,51 @@ int main(int argc, char* argv[]) {
             const std::string& path, const std::string& prefix) {
             UNUSED(prefix);
             if (hasSuffix(path, "." + config.harvester.fileExtension)) {
+                int fd = open(path.c_str(), O_RDONLY);
+                if (fd < 0) {
+                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
+                    return -1;
+                }
+
                 string outputName = path + ".json";
                 FILE* output = fopen(outputName.c_str(), "wx");
                 if (output == nullptr) {
-                    if (errno == EEXIST) {
+                    const int error = errno;
+                    close(fd);
+                    if (error == EEXIST) {
                         PRINT_LOG("Skipping \"%s\": already converted\n",
                                   path.c_str());
                         return 0;
                     } else {
                         PRINT_WARN("Open %s: %s\n", outputName.c_str(),
-                                   strerror(errno));
+                                   strerror(error));
                         return -1;
                     }
                 }
 
-                int fd = open(path.c_str(), O_RDONLY);
-                if (fd < 0) {
-                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
+                try {
+                    vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
+                        config.encoding, data.getIndexHandle(),
+                        data.getMeaningDictionary(), fd);
+                    for (const ParseResult* parseResult : parseResults) {
+                        writeParseResultToFile(*parseResult, output);
+                        delete parseResult;
+                    }
+                } catch (...) {
+                    // the next run would take the file for a complete one
+                    close(fd);
                     fclose(output);
-                    return -1;
-                }
-
-                vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
-                    config.encoding, data.getIndexHandle(),
-                    data.getMeaningDictionary(), fd);
-                for (const ParseResult* parseResult : parseResults) {
-                    writeParseResultToFile(*parseResult, output);
-                    delete parseResult;
+                    unlink(outputName.c_str());
+                    throw;
                 }
 
                 close(fd);
-                fclose(output);
+                const bool isWritten = !ferror(output);
+                if (fclose(output) != 0 || !isWritten) {
+                    PRINT_WARN("Cannot write %s\n", outputName.c_str());
+                    unlink(outputName.c_str());
+                    return -1;
+                }
                 PRINT_LOG("Processed %s\n", path.c_str());
             } else {
                 PRINT_LOG("Skipping \"%s\": bad extension\n", path.c_str());
-- 
2.43.0


From 73f9d5c178357ac00ebeef462446a3f355b96710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 72/74] fix: analytics does not abort on an index with renamed
 identifiers

---
 src/mws/analytics/analytics.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mws/analytics/analytics.cpp b/src/mws/analytics/analytics.cpp
index 1b34b38..f9a64d1 100644
--- a/src/mws/analytics/analytics.cpp
+++ b/src/mws/analytics/analytics.cpp
@@ -148,11 +148,11 @@ void CmmlTokenBuilder::pushToken(encoded_token_t encodedToken) {
 
     string meaning = _decoder.getMeaning(encodedToken.id);
     std::size_t separator_pos = meaning.find('#');
-    assert(separator_pos != std::string::npos);
-    string tag = meaning.substr(0, separator_pos);
-    string textContent = meaning.substr(separator_pos + 1);
-    token->setTag(tag);
-    token->appendTextContent(textContent);
+    token->setTag(meaning.substr(0, separator_pos));
+    // the meaning of a renamed identifier has no text content
+    if (separator_pos != std::string::npos) {
+        token->appendTextContent(meaning.substr(separator_pos + 1));
+    }
 
     uint32_t arity = encodedToken.arity;
     while (arity--) {
-- 
2.43.0


From 38dedcf40f6b1c8ccb85b413acf78979633b99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 73/74] fix: ThreadWrapper::run reports that nothing is started
 after clean()

---
 src/common/thread/ThreadWrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/thread/ThreadWrapper.cpp b/src/common/thread/ThreadWrapper.cpp
index 0d45958..27f2a1b 100644
--- a/src/common/thread/ThreadWrapper.cpp
+++ b/src/common/thread/ThreadWrapper.cpp
@@ -30,6 +30,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <cerrno>  // Error codes
+
 #include "ThreadWrapper.hpp"  // ThreadWrapper class definition
 
 // Static definitions
@@ -102,12 +104,16 @@ ThreadWrapper::ThreadWrapper(void* (*start_routine)(void*), void* arg) {
         if (err) {
             pthread_attr_destroy(&attr);
             pthread_mutex_unlock(&lock);
+            delete data;
             throw err;
         }
 
         alive++;
 
         pthread_attr_destroy(&attr);
+    } else {
+        pthread_mutex_unlock(&lock);
+        throw ECANCELED;
     }
     pthread_mutex_unlock(&lock);
 }
-- 
2.43.0


From 25eb662ba8ab0bf4ae3d4dfd9779a7beccb24f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 74/74] fix: crawlerd does not come up without its crawler, and
 reports failures with its exit status

---
 src/crawler/crawlerd.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..577570b 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -81,14 +81,14 @@ int main(int argc, char* argv[]) {
 
     if ((ret = FlagParser::parse(argc, argv)) != 0) {
         fprintf(stderr, "%s", FlagParser::getUsage().c_str());
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     restPort = atoi(FlagParser::getArg('p').c_str());
     if (restPort <= 0 || restPort > 65535) {
         fprintf(stderr, "\"%s\" is not a valid port number\n",
                 FlagParser::getArg('p').c_str());
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // get the Data Directory for the crawler
@@ -102,20 +102,24 @@ int main(int argc, char* argv[]) {
     if (ret) {
         perror("");
         fprintf(stderr, "Failed to initialize Thread!\n");
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // Start the Crawler on a second Thread
     auto ci = new CrawlerInfo;
     ci->sharedQueuePtr = sq;
     ci->dataDirectory = dataDir;
-    ThreadWrapper::run(*startCrawler, (void*)ci);
+    ret = ThreadWrapper::run(*startCrawler, (void*)ci);
+    if (ret) {
+        fprintf(stderr, "Failed to start the crawler!\n");
+        exit(EXIT_FAILURE);
+    }
 
     // Starting the daemon
     ret = crawlerDaemon.start(restPort, sq);
     if (ret != 0) {
         fprintf(stderr, "Failure while starting the Crawler Daemon\n");
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // Preparing the Signal Action
-- 
2.43.0

