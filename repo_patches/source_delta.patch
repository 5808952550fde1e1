From 73d81b7ceb6ad8a49303e7d759713980d71f0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 01/38] fix: InDB reported inner nodes without a value as
 stored keys

---
 src/db.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..74aa7c0 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -887,10 +887,12 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    // Do not search with OPTION_FIND_AND_STORE_PARENT here: it reports every
+    // internal node on the path, whether or not a value is stored for it.
+    MBData data;
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
-    if (rval == MBError::IN_DICT) {
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
-- 
2.43.0


From 5f6c8faada495b8c0364bf00e27813c9a057802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 02/38] fix: longest-prefix match length counted an inner node
 without a value

---
 src/detail/search_engine.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..6b3de90 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -274,8 +274,10 @@ namespace detail {
                         return _r;
                 }
 #endif
-                data.match_len = key_cursor - key;
-                return dict.ReadDataFromEdge(data, edge_ptrs);
+                rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key;
+                return rval;
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
@@ -285,8 +287,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -573,8 +576,9 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 45e8ae9fc3c7d1895a83e7027621e4f204f256c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 03/38] fix: lookups compared edge labels with bytes beyond the
 end of the key

---
 src/detail/search_engine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 6b3de90..2014eff 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -471,6 +471,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge label is longer than what is left of the key.
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -568,7 +573,8 @@ namespace detail {
             }
 
             // Compare remainder of the edge string when present and ensure edge is valid
-            if (edge_len == 0 || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
+            if (edge_len == 0 || edge_len > len
+                || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
                 rval = MBError::NOT_EXIST;
                 break;
             }
-- 
2.43.0


From 00a294ffb1dee1ecd98c35e94fc1ea519939e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 04/38] fix: prefix iteration yielded keys shorter than the
 prefix

---
 src/iterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..b46695d 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -267,7 +267,7 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
                 }
             }
 
-            if (match != MATCH_NONE) {
+            if (match != MATCH_NONE && match_str.size() >= prefix.size()) {
                 inode = new_iterator_node(match_str, &value);
                 if (inode != NULL) {
                     rval = kv_per_node->AddToTail(inode);
-- 
2.43.0


From 40f940dbd6acb8ebc3fdb4ef90b5e2070c798ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 05/38] fix: data free list was too small for buffers of large
 values

Data buffers of up to MAX_DATA_SIZE plus header are released to the free
list, which was allocated with the number of lists of the index (8192), so
releasing a bigger value wrote past the end of the list array.
---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From 1b54639ddc5294905b7116adb79056b6c17697fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 06/38] fix: keys of the maximum length of 256 bytes were lost

The length of an edge is saved in one byte, so the first key of 256 bytes
under a root edge was saved with edge length zero.
---
 src/dict_mem.cpp | 41 +++++++++++++++++++++++++++++++++++++++--
 src/dict_mem.h   |  1 +
 src/drm_base.h   |  1 +
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..8554fd4 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -274,10 +274,47 @@ bool DictMem::IsValid() const
     return is_valid;
 }
 
+// Create a node with one edge for the last characters (no more than LOCAL_EDGE_LEN)
+// of a key which is too long for a single edge.
+size_t DictMem::AddTailNode(const uint8_t* key, int len, size_t data_offset)
+{
+    NodePtrs node_ptrs;
+    EdgePtrs edge_ptrs;
+    uint8_t* node;
+
+    bool node_move = ReserveNode(0, node_ptrs.offset, node);
+    InitNodePtrs(node, 0, node_ptrs);
+    node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
+    node[1] = 0;
+    node_ptrs.edge_key_ptr[0] = key[0];
+
+    InitEdgePtrs(node_ptrs, 0, edge_ptrs);
+    edge_ptrs.len_ptr[0] = len;
+    if (len > 1)
+        memcpy(edge_ptrs.ptr, key + 1, len - 1);
+    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+
+    if (node_move)
+        WriteData(node, node_size[0], node_ptrs.offset);
+
+    header->n_edges++;
+    return node_ptrs.offset;
+}
+
 // Add root edge
 void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
     int len, size_t data_offset)
 {
+    uint8_t edge_flag = EDGE_FLAG_DATA_OFF;
+    size_t next_offset = data_offset;
+    if (len > MAX_EDGE_LEN) {
+        // The edge length is saved in one byte. Move the end of the key to a child node.
+        next_offset = AddTailNode(key + MAX_EDGE_LEN, len - MAX_EDGE_LEN, data_offset);
+        edge_flag = 0;
+        len = MAX_EDGE_LEN;
+    }
+
     edge_ptrs.len_ptr[0] = len;
     if (len > LOCAL_EDGE_LEN) {
         size_t edge_str_off;
@@ -287,8 +324,8 @@ void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
         memcpy(edge_ptrs.ptr, key + 1, len - 1);
     }
 
-    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
-    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+    edge_ptrs.flag_ptr[0] = edge_flag;
+    Write6BInteger(edge_ptrs.offset_ptr, next_offset);
 
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..1c922e6 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -109,6 +109,7 @@ private:
     bool ReserveNode(int nt, size_t& offset, uint8_t*& ptr);
     void ReleaseNode(size_t offset, int nt);
     void ReleaseBuffer(size_t offset, int size);
+    size_t AddTailNode(const uint8_t* key, int len, size_t data_offset);
     void UpdateTailEdge(EdgePtrs& edge_ptrs, int match_len, MBData& data,
         EdgePtrs& tail_edge, uint8_t& new_key_first,
         bool& map_new_sliding);
diff --git a/src/drm_base.h b/src/drm_base.h
index 0552e3c..c9134aa 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -39,6 +39,7 @@
 #define BUFFER_ALIGNMENT 1
 #define LOCAL_EDGE_LEN 6
 #define LOCAL_EDGE_LEN_M1 5
+#define MAX_EDGE_LEN 255
 #define EDGE_NODE_LEADING_POS 7
 #define EXCEP_STATUS_NONE 0
 #define EXCEP_STATUS_ADD_EDGE 1
-- 
2.43.0


From b3e410912c31d6066441d97cbf88de4e6ea2ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/38] fix: lower bound returned wrong entries

The labels of an edge were compared beyond the end of the key, a root edge
that is smaller than the key was skipped for the edges before it, a leaf on
the root edge was traversed as a node, the characters of an edge string in a
block that is not mapped were left out of the bound key, and the bound key and
match length of a previous search were not reset.
---
 src/db.cpp                   |  7 +++-
 src/detail/search_engine.cpp | 70 ++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 74aa7c0..eb72326 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -937,8 +937,13 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
         return MBError::NOT_ALLOWED;
 
     data.options = 0;
-    if (bound_key != nullptr)
+    data.match_len = 0;
+    if (bound_key != nullptr) {
+        bound_key->clear();
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
+    }
+    if (len <= 0)
+        return MBError::NOT_EXIST;
     detail::SearchEngine engine(*dict);
     return engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
 }
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 2014eff..0679472 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -148,9 +148,8 @@ namespace detail {
         int ret = dict.mm.GetRootEdge(0, root_key, edge_ptrs);
         if (ret != MBError::SUCCESS)
             return ret;
-        if (edge_ptrs.len_ptr[0] == 0) {
-            return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
-        }
+        if (edge_ptrs.len_ptr[0] == 0)
+            return MBError::NOT_EXIST;
 
         const uint8_t* key_cursor = key;
         const uint8_t* edge_label_ptr = nullptr;
@@ -168,38 +167,30 @@ namespace detail {
             edge_label_ptr = edge_ptrs.ptr;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
-                }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
+        // Compare only up to the available key bytes
+        int cmp_len = (edge_len < len ? edge_len : len) - 1;
+        int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key_cursor + 1, cmp_len) : 0;
+        if (label_cmp < 0) {
+            // All keys under this edge are smaller than the input key.
+            bound_state.use_curr_edge = true;
+            if (bound_key) {
+                bound_key->push_back(static_cast<char>(key[0]));
+                bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
             }
+            return MBError::NOT_EXIST;
+        }
+        if (label_cmp > 0 || edge_len > len) {
+            // All keys under this edge are greater than the input key.
+            return MBError::NOT_EXIST;
+        }
 
-            len -= edge_len;
-            key_cursor += edge_len;
-            data.match_len += edge_len;
+        len -= edge_len;
+        key_cursor += edge_len;
+        data.match_len += edge_len;
+        if (len == 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF))
+            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+        else
             rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
-        } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
-        }
 
         return rval;
     }
@@ -611,6 +602,11 @@ namespace detail {
             uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
             if (edge_str_buff != nullptr) {
                 key->append((const char*)edge_str_buff, edge_len_m1);
+            } else {
+                // The edge string is not in a mapped block.
+                uint8_t tmp_buff[NUM_ALPHABET];
+                if (dict.mm.ReadData(tmp_buff, edge_len_m1, edge_str_off) == edge_len_m1)
+                    key->append(reinterpret_cast<const char*>(tmp_buff), edge_len_m1);
             }
         } else if (edge_len_m1 > 0) {
             key->append(reinterpret_cast<const char*>(edge_ptrs.ptr), edge_len_m1);
@@ -729,9 +725,11 @@ namespace detail {
             // Compare the remainder of the edge label with the remaining key bytes.
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
-            if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
-                if (label_cmp != 0) {
+            if (edge_label_len >= 0) {
+                // Compare only up to the available key bytes
+                int cmp_len = (edge_len < len ? edge_len : len) - 1;
+                int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key + 1, cmp_len) : 0;
+                if (label_cmp != 0 || edge_len > len) {
                     // If the edge label is strictly less than the key suffix, signal
                     // that the current subtree itself is a valid lower-bound pivot.
                     if (label_cmp < 0) {
@@ -743,7 +741,7 @@ namespace detail {
                     }
                     return MBError::NOT_EXIST;
                 }
-            } else if (edge_label_len < 0) {
+            } else {
                 // Malformed edge; treat as not found.
                 return MBError::NOT_EXIST;
             }
-- 
2.43.0


From 3a2fd365a6915357510bdbe19a4181c56b2e4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 08/38] fix: longest-prefix lookup missed a value at offset
 zero in jemalloc mode

---
 src/dict.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..db1e13f 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -728,10 +728,11 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
 
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
-    size_t data_off = Get6BInteger(node_ptr + 2);
-    if (data_off == 0)
+    if (!(node_ptr[0] & FLAG_NODE_MATCH))
         return MBError::NOT_EXIST;
 
+    // Zero is a valid data offset in jemalloc mode.
+    size_t data_off = Get6BInteger(node_ptr + 2);
     data.data_offset = data_off;
 
     // Read data length first
-- 
2.43.0


From 1974e65570fd5ceef5a41c54569ad7ba51459787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 09/38] fix: an update interrupted by the death of the writer
 was never completed

Dict::ExceptionRecovery was not called when a writer opened the database.
---
 src/db.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index eb72326..985113b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -496,6 +496,13 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
             status = rval;
             return;
         }
+        // Complete the update that the previous writer was killed in before any other
+        // update is made. Databases in jemalloc mode are reset or rebuilt below.
+        if (!init_header && !(config.options & CONSTS::OPTION_JEMALLOC)) {
+            rval = dict->ExceptionRecovery();
+            if (rval != MBError::SUCCESS)
+                Logger::Log(LOG_LEVEL_WARN, "exception recovery failed: %s", MBError::get_error_str(rval));
+        }
     }
 
     lock.Init(dict->GetShmLockPtr());
-- 
2.43.0


From 9e7dd83ea51099857d90f2cb884f3ec3fab80c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 10/38] fix: entry count was wrong after recovery from an
 interrupted update

The count after the update is kept in the header with the update itself and
is set before the exception status is cleared.
---
 src/dict.cpp     | 38 +++++++++++++++++---------------------
 src/dict.h       |  2 +-
 src/dict_mem.cpp | 10 +++++-----
 src/dict_mem.h   |  9 +++++++++
 src/drm_base.h   |  5 ++++-
 5 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index db1e13f..4b82802 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -293,6 +293,9 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     EdgePtrs edge_ptrs;
     int rval;
 
+    header->excep_count = header->count;
+    if (!(data.options & CONSTS::OPTION_RC_MODE))
+        header->excep_count++;
     rval = mm.GetRootEdge_Writer(data.options & CONSTS::OPTION_RC_MODE, key[0], edge_ptrs);
     if (rval != MBError::SUCCESS)
         return rval;
@@ -304,13 +307,11 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         if (data.options & CONSTS::OPTION_RC_MODE) {
             header->rc_count++;
         } else {
-            header->count++;
             header->num_update++;
         }
         return MBError::SUCCESS;
     }
 
-    bool inc_count = true;
     int i;
     const uint8_t* key_buff;
     uint8_t tmp_key_buff[NUM_ALPHABET];
@@ -357,7 +358,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                     rval = mm.InsertNode(edge_ptrs, match_len, data.data_offset, data);
                 }
             } else if (len == 0) {
-                rval = UpdateDataBuffer(edge_ptrs, overwrite, data, inc_count);
+                rval = UpdateDataBuffer(edge_ptrs, overwrite, data);
             }
         } else {
             ReserveData(data.buff, data.data_len, data.data_offset);
@@ -376,7 +377,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 ReserveData(data.buff, data.data_len, data.data_offset);
                 rval = mm.InsertNode(edge_ptrs, i, data.data_offset, data);
             } else {
-                rval = UpdateDataBuffer(edge_ptrs, overwrite, data, inc_count);
+                rval = UpdateDataBuffer(edge_ptrs, overwrite, data);
             }
         }
     }
@@ -387,8 +388,6 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     } else {
         if (rval == MBError::SUCCESS)
             header->num_update++;
-        if (inc_count)
-            header->count++;
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
     if (rval == MBError::SUCCESS && prefix_cache) {
@@ -952,6 +951,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         return MBError::INVALID_ARG;
 
     int rval;
+    header->excep_count = header->count - 1;
     {
         detail::SearchEngine engine(*this);
         rval = engine.find(key, len, data);
@@ -974,9 +974,8 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         }
     }
 
-    if (rval == MBError::SUCCESS) {
-        header->count--;
-    }
+    if (rval == MBError::SUCCESS)
+        header->count = header->excep_count;
 
     return rval;
 }
@@ -1182,10 +1181,10 @@ int Dict::ReleaseBuffer(size_t offset)
     }
 }
 
-int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count)
+int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
 {
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-        inc_count = false;
+        header->excep_count = header->count;
         // leaf node
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
@@ -1205,7 +1204,7 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
 #endif
-        header->excep_updating_status = EXCEP_STATUS_NONE;
+        mm.CommitUpdate();
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
@@ -1214,18 +1213,15 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
             return MBError::READ_ERROR;
 
         if (node_buff[0] & FLAG_NODE_MATCH) {
-            inc_count = false;
+            header->excep_count = header->count;
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
             if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
                 Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
-            node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
             node_buff[0] |= FLAG_NODE_MATCH;
-
-            node_buff[NODE_EDGE_KEY_FIRST] = 1;
         }
 
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
@@ -1241,7 +1237,7 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
 #endif
-        header->excep_updating_status = EXCEP_STATUS_NONE;
+        mm.CommitUpdate();
     }
 
     return MBError::SUCCESS;
@@ -1411,7 +1407,7 @@ int Dict::ExceptionRecovery()
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
         mm.WriteData(header->excep_buff, EDGE_SIZE, header->excep_lf_offset);
-        header->count++;
+        header->count = header->excep_count;
         break;
     case EXCEP_STATUS_ADD_DATA_OFF:
 #ifdef __LOCK_FREE__
@@ -1419,6 +1415,7 @@ int Dict::ExceptionRecovery()
 #endif
         mm.WriteData(header->excep_buff, OFFSET_SIZE,
             header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        header->count = header->excep_count;
         break;
     case EXCEP_STATUS_ADD_NODE:
 #ifdef __LOCK_FREE__
@@ -1426,8 +1423,7 @@ int Dict::ExceptionRecovery()
 #endif
         mm.WriteData(header->excep_buff, NODE_EDGE_KEY_FIRST,
             header->excep_offset);
-        if (header->excep_buff[NODE_EDGE_KEY_FIRST])
-            header->count++;
+        header->count = header->excep_count;
         break;
     case EXCEP_STATUS_REMOVE_EDGE:
 #ifdef __LOCK_FREE__
@@ -1442,7 +1438,7 @@ int Dict::ExceptionRecovery()
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
         mm.WriteData(DictMem::empty_edge, EDGE_SIZE, header->excep_lf_offset);
-        header->count--;
+        header->count = header->excep_count;
         break;
     case EXCEP_STATUS_RC_NODE:
     case EXCEP_STATUS_RC_DATA:
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..e279cf2 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -142,7 +142,7 @@ private:
     // Prefix traversal helpers moved to SearchEngine.
     // Traversal helpers are owned by SearchEngine.
     int ReleaseBuffer(size_t offset);
-    int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
+    int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
     int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 8554fd4..3c1b63c 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -335,8 +335,8 @@ void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
     WriteEdge(edge_ptrs);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    CommitUpdate();
 }
 
 void DictMem::UpdateTailEdge(EdgePtrs& edge_ptrs, int match_len, MBData& data,
@@ -478,8 +478,8 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     WriteEdge(edge_ptrs);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    CommitUpdate();
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -583,8 +583,8 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
     WriteEdge(edge_ptrs);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    CommitUpdate();
 
     header->n_edges += 2;
     return MBError::SUCCESS;
@@ -715,8 +715,8 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     WriteEdge(edge_ptrs);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    CommitUpdate();
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -1338,8 +1338,8 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
     WriteData(DictMem::empty_edge, EDGE_SIZE, edge_ptrs.offset);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    CommitUpdate();
 }
 
 int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 1c922e6..46a6ef7 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -87,6 +87,7 @@ public:
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
+    inline void CommitUpdate() const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
     inline size_t GetRootOffset() const;
     void ClearMem() const;
@@ -145,6 +146,14 @@ private:
     size_t root_offset_rc;
 };
 
+// The update has been written. The entry count must be set before the exception
+// status is cleared, so that it is corrected if the writer is killed in between.
+inline void DictMem::CommitUpdate() const
+{
+    header->count = header->excep_count;
+    header->excep_updating_status = EXCEP_STATUS_NONE;
+}
+
 inline void DictMem::WriteEdge(const EdgePtrs& edge_ptrs) const
 {
     if (options & CONSTS::OPTION_JEMALLOC) {
diff --git a/src/drm_base.h b/src/drm_base.h
index c9134aa..d7a0e41 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -166,7 +166,10 @@ typedef struct _IndexHeader {
     LockFreeShmData lock_free;
 
     // read/write lock
-    char padding[56]; // pthread_rwlock_t mb_rw_lock;
+    char padding[48]; // pthread_rwlock_t mb_rw_lock;
+
+    // entry count after the update that is being written (abnormal writer terminations)
+    int64_t excep_count;
 
     // block size
     uint32_t index_block_size;
-- 
2.43.0


From 2384d78e8f32901994ccd29810295944a2943bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 11/38] fix: removals interrupted by the death of the writer
 could not be recovered

- the exception buffer holds the complete new parent edge, so that a removal
  is completed the same way as an insertion
- nodes of a removed chain are released and cleared only after the edge
  leading to them has been updated
- clearing the match flag of an inner node is recoverable
---
 src/dict.cpp     | 60 ++++++++++++++---------------
 src/dict.h       |  1 +
 src/dict_mem.cpp | 99 +++++++++++++++++++++++++++---------------------
 src/dict_mem.h   | 20 ++++++++++
 src/drm_base.h   |  5 ++-
 5 files changed, 111 insertions(+), 74 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4b82802..8c4d888 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -689,11 +689,7 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         ReleaseBuffer(data_off, rel_size);
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
-        // No exception handling in this case
-        header->excep_lf_offset = 0;
-        header->excep_offset = 0;
-
-        uint8_t node_buff[NODE_EDGE_KEY_FIRST];
+        uint8_t* node_buff = header->excep_node;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
 
         // Read node header
@@ -703,7 +699,10 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         if (node_buff[0] & FLAG_NODE_MATCH) {
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
-            mm.WriteData(&node_buff[0], 1, node_off);
+            memcpy(header->excep_buff, edge_ptrs.ptr, EDGE_SIZE);
+            WriteNodeHeader(edge_ptrs.offset, node_off);
+            header->excep_lf_offset = 0;
+            header->excep_offset = 0;
 
             // Release data buffer
             data_off = Get6BInteger(node_buff + 2);
@@ -952,6 +951,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
 
     int rval;
     header->excep_count = header->count - 1;
+    mm.ForgetRemovedEdges(); // left by a removal that failed
     {
         detail::SearchEngine engine(*this);
         rval = engine.find(key, len, data);
@@ -1194,19 +1194,19 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
-        memcpy(header->excep_buff, edge_ptrs.offset_ptr, OFFSET_SIZE);
-#ifdef __LOCK_FREE__
+        // The new edge is in header->excep_buff.
         header->excep_lf_offset = edge_ptrs.offset;
+        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
+#ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
         mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
 #endif
         mm.CommitUpdate();
     } else {
-        uint8_t* node_buff = header->excep_buff;
+        uint8_t* node_buff = header->excep_node;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
 
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
@@ -1227,20 +1227,27 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(node_buff + 2, mbd.data_offset);
 
-        header->excep_offset = node_off;
+        WriteNodeHeader(edge_ptrs.offset, node_off);
+    }
+
+    return MBError::SUCCESS;
+}
+
+// Write the node header in header->excep_node. header->excep_buff must hold the
+// edge that leads to the node.
+void Dict::WriteNodeHeader(size_t edge_off, size_t node_off)
+{
+    header->excep_offset = node_off;
+    header->excep_lf_offset = edge_off;
+    header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
 #ifdef __LOCK_FREE__
-        header->excep_lf_offset = edge_ptrs.offset;
-        lfree.WriterLockFreeStart(edge_ptrs.offset);
+    lfree.WriterLockFreeStart(edge_off);
 #endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
-        mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
+    mm.WriteData(header->excep_node, NODE_EDGE_KEY_FIRST, node_off);
 #ifdef __LOCK_FREE__
-        lfree.WriterLockFreeStop();
+    lfree.WriterLockFreeStop();
 #endif
-        mm.CommitUpdate();
-    }
-
-    return MBError::SUCCESS;
+    mm.CommitUpdate();
 }
 
 // delta should be either +1 or -1.
@@ -1403,6 +1410,7 @@ int Dict::ExceptionRecovery()
 
     switch (header->excep_updating_status) {
     case EXCEP_STATUS_ADD_EDGE:
+    case EXCEP_STATUS_REMOVE_EDGE:
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
@@ -1413,7 +1421,7 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
+        mm.WriteData(header->excep_buff + EDGE_NODE_LEADING_POS, OFFSET_SIZE,
             header->excep_lf_offset + EDGE_NODE_LEADING_POS);
         header->count = header->excep_count;
         break;
@@ -1421,18 +1429,10 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        mm.WriteData(header->excep_buff, NODE_EDGE_KEY_FIRST,
+        mm.WriteData(header->excep_node, NODE_EDGE_KEY_FIRST,
             header->excep_offset);
         header->count = header->excep_count;
         break;
-    case EXCEP_STATUS_REMOVE_EDGE:
-#ifdef __LOCK_FREE__
-        lfree.WriterLockFreeStart(header->excep_lf_offset);
-#endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
-        break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
diff --git a/src/dict.h b/src/dict.h
index e279cf2..76b11f1 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -143,6 +143,7 @@ private:
     // Traversal helpers are owned by SearchEngine.
     int ReleaseBuffer(size_t offset);
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd);
+    void WriteNodeHeader(size_t edge_off, size_t node_off);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
     int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 3c1b63c..067c2a1 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1342,6 +1342,21 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
     CommitUpdate();
 }
 
+// Write the new parent edge in the exception buffer. This is where a removal takes effect.
+void DictMem::WriteParentEdge(size_t parent_edge_offset)
+{
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStart(parent_edge_offset);
+#endif
+    WriteData(header->excep_buff, EDGE_SIZE, parent_edge_offset);
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStop();
+#endif
+    CommitUpdate();
+}
+
 int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
     int nt,
     size_t node_offset,
@@ -1391,14 +1406,10 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
         WriteData(node, node_size[nt - 2], new_node_offset);
 
     // Update the link from parent edge to the new node offset
-    Write6BInteger(header->excep_buff, new_node_offset);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-    WriteData(header->excep_buff, OFFSET_SIZE, parent_edge_offset + EDGE_NODE_LEADING_POS);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-#endif
+    if (ReadData(header->excep_buff, EDGE_SIZE, parent_edge_offset) != EDGE_SIZE)
+        return MBError::READ_ERROR;
+    Write6BInteger(header->excep_buff + EDGE_NODE_LEADING_POS, new_node_offset);
+    WriteParentEdge(parent_edge_offset);
 
     return MBError::SUCCESS;
 }
@@ -1414,17 +1425,12 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
 
     if (old_node_buffer[0] & FLAG_NODE_MATCH) {
         uint8_t* parent_edge_buff = header->excep_buff;
+        if (ReadData(parent_edge_buff, EDGE_SIZE, parent_edge_offset) != EDGE_SIZE)
+            return MBError::READ_ERROR;
         size_t data_offset = Get6BInteger(old_node_buffer + 2);
-        parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
-        Write6BInteger(parent_edge_buff + 1, data_offset);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-        // Write the one-byte flag and 6-byte offset
-        WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStop();
-#endif
+        parent_edge_buff[EDGE_FLAG_POS] = EDGE_FLAG_DATA_OFF;
+        Write6BInteger(parent_edge_buff + EDGE_NODE_LEADING_POS, data_offset);
+        WriteParentEdge(parent_edge_offset);
     } else {
         // This is an internal node.
         rval = MBError::TRY_AGAIN;
@@ -1444,10 +1450,9 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
 
 int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 {
-    header->excep_offset = edge_ptrs.curr_node_offset;
-
-    if (header->excep_offset == root_offset) {
+    if (edge_ptrs.curr_node_offset == root_offset) {
         RemoveRootEdge(edge_ptrs);
+        ReleaseRemovedEdges();
         return MBError::SUCCESS;
     }
 
@@ -1462,38 +1467,46 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
         return MBError::READ_ERROR;
 
     int rval = MBError::SUCCESS;
-    size_t str_off_rel;
-    int str_size_rel = 0;
-
-    header->excep_lf_offset = edge_ptrs.parent_offset;
-    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
+    RemovedEdge removed = { edge_ptrs.offset, edge_ptrs.curr_node_offset, nt - 1, 0, 0 };
     if (nt > 1) {
-        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+        rval = RemoveEdgeSizeN(edge_ptrs, nt, removed.node_offset, old_node_buffer,
+            removed.str_offset, removed.str_size, edge_ptrs.parent_offset);
     } else {
-        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
-            header->excep_offset, nt, str_off_rel, str_size_rel);
+        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, edge_ptrs.parent_offset,
+            removed.node_offset, nt, removed.str_offset, removed.str_size);
     }
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 
-    header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
-    if (str_size_rel > 0)
-        ReleaseBuffer(str_off_rel, str_size_rel);
+    if (rval == MBError::SUCCESS || rval == MBError::TRY_AGAIN)
+        removed_edges.push_back(removed);
+    // The node remains in use if an edge further up must be removed too.
+    if (rval == MBError::SUCCESS)
+        ReleaseRemovedEdges();
+
+    return rval;
+}
+
+// Release the edges that are no longer part of the tree and their nodes.
+void DictMem::ReleaseRemovedEdges()
+{
+    for (const RemovedEdge& removed : removed_edges) {
+        header->n_edges--;
+        ReleaseNode(removed.node_offset, removed.nt);
+        if (removed.str_size > 0)
+            ReleaseBuffer(removed.str_offset, removed.str_size);
 
         // Clear the edge
 #ifdef __LOCK_FREE__
-    header->excep_lf_offset = edge_ptrs.offset;
-    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
-    lfree->WriterLockFreeStart(edge_ptrs.offset);
+        header->excep_lf_offset = removed.edge_offset;
+        header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
+        lfree->WriterLockFreeStart(removed.edge_offset);
 #endif
-    WriteData(DictMem::empty_edge, EDGE_SIZE, edge_ptrs.offset);
+        WriteData(DictMem::empty_edge, EDGE_SIZE, removed.edge_offset);
 #ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
+        lfree->WriterLockFreeStop();
+        header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
-
-    return rval;
+    }
+    removed_edges.clear();
 }
 
 // Should only be called by writer
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 46a6ef7..11e398c 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -25,6 +25,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <string>
+#include <vector>
 
 #include "db.h"
 #include "drm_base.h"
@@ -85,6 +86,8 @@ public:
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    void ReleaseRemovedEdges();
+    inline void ForgetRemovedEdges();
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     inline void CommitUpdate() const;
@@ -118,6 +121,7 @@ private:
         MBData& data, int& release_buffer_size,
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
+    void WriteParentEdge(size_t parent_edge_offset);
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
@@ -144,6 +148,17 @@ private:
     std::shared_ptr<MmapFileIO> header_file;
 
     size_t root_offset_rc;
+
+    // Edges removed together with their nodes, to be released when the edge
+    // that leads to them has been updated
+    struct RemovedEdge {
+        size_t edge_offset;
+        size_t node_offset;
+        int nt;
+        size_t str_offset;
+        int str_size;
+    };
+    std::vector<RemovedEdge> removed_edges;
 };
 
 // The update has been written. The entry count must be set before the exception
@@ -154,6 +169,11 @@ inline void DictMem::CommitUpdate() const
     header->excep_updating_status = EXCEP_STATUS_NONE;
 }
 
+inline void DictMem::ForgetRemovedEdges()
+{
+    removed_edges.clear();
+}
+
 inline void DictMem::WriteEdge(const EdgePtrs& edge_ptrs) const
 {
     if (options & CONSTS::OPTION_JEMALLOC) {
diff --git a/src/drm_base.h b/src/drm_base.h
index d7a0e41..a279131 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -166,7 +166,10 @@ typedef struct _IndexHeader {
     LockFreeShmData lock_free;
 
     // read/write lock
-    char padding[48]; // pthread_rwlock_t mb_rw_lock;
+    char padding[40]; // pthread_rwlock_t mb_rw_lock;
+
+    // new node header or link of the update that is being written
+    uint8_t excep_node[8];
 
     // entry count after the update that is being written (abnormal writer terminations)
     int64_t excep_count;
-- 
2.43.0


From e46d42fa31514b56e2790bf7509751dad45a41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 12/38] fix: replacing a value could overwrite it in place
 before the new value was published

The old buffer was released first and could be handed out again at once.
---
 src/dict.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 8c4d888..b34a04a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1189,8 +1189,7 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        size_t old_data_offset = mbd.data_offset;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1205,6 +1204,9 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         lfree.WriterLockFreeStop();
 #endif
         mm.CommitUpdate();
+        // The old buffer must not be reused before the new one is in place.
+        if (ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_offset);
     } else {
         uint8_t* node_buff = header->excep_node;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
@@ -1212,13 +1214,13 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
 
-        if (node_buff[0] & FLAG_NODE_MATCH) {
+        bool replace = node_buff[0] & FLAG_NODE_MATCH;
+        size_t old_data_offset = Get6BInteger(node_buff + 2);
+        if (replace) {
             header->excep_count = header->count;
-            mbd.data_offset = Get6BInteger(node_buff + 2);
+            mbd.data_offset = old_data_offset;
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
         } else {
             // set the match flag
             node_buff[0] |= FLAG_NODE_MATCH;
@@ -1228,6 +1230,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd)
         Write6BInteger(node_buff + 2, mbd.data_offset);
 
         WriteNodeHeader(edge_ptrs.offset, node_off);
+        if (replace && ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_offset);
     }
 
     return MBError::SUCCESS;
-- 
2.43.0


From 544c13e843b83862b47bcc45312c6600d9a0d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 13/38] fix: RemoveAll interrupted by the death of the writer
 left live entries in reusable space

---
 src/dict.cpp     | 5 +++++
 src/dict_mem.cpp | 2 --
 src/drm_base.h   | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index b34a04a..e7f7f41 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -984,6 +984,8 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    // If the writer is killed, the next one starts over.
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_ALL;
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1006,6 +1008,7 @@ int Dict::RemoveAll()
     header->count = 0;
     header->eviction_bucket_index = 0;
     header->num_update = 0;
+    header->excep_updating_status = EXCEP_STATUS_NONE;
     return rval;
 }
 
@@ -1457,6 +1460,8 @@ int Dict::ExceptionRecovery()
 #endif
         mm.WriteData(header->excep_buff, OFFSET_SIZE - 1, header->excep_offset);
         break;
+    case EXCEP_STATUS_REMOVE_ALL:
+        return RemoveAll();
     default:
         Logger::Log(LOG_LEVEL_ERROR, "unknown exception status: %d",
             header->excep_updating_status);
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 067c2a1..e5761f9 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1097,13 +1097,11 @@ int DictMem::ClearRootEdge(int nt) const
     size_t offset = root_offset + NODE_EDGE_KEY_FIRST + NUM_ALPHABET + nt * EDGE_SIZE;
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = offset;
-    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
     lfree->WriterLockFreeStart(offset);
 #endif
     WriteData(DictMem::empty_edge, EDGE_SIZE, offset);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
     return MBError::SUCCESS;
diff --git a/src/drm_base.h b/src/drm_base.h
index a279131..2d681a0 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -52,6 +52,7 @@
 #define EXCEP_STATUS_RC_DATA 8
 #define EXCEP_STATUS_RC_TREE 9
 #define EXCEP_STATUS_REBUILD_ROOT_EDGE 10
+#define EXCEP_STATUS_REMOVE_ALL 11
 #define MB_EXCEPTION_BUFF_SIZE 16
 
 #define REBUILD_STATE_NORMAL 0
-- 
2.43.0


From 4ba43e2e63f947a779dbaf4061ab343ab7ed95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 14/38] fix: readers could run out of the mapped files
 following an offset being updated

A lookup concurrent with the writer can read an offset while it is being
written. Such an offset made the reader grow its table of block files without
bound, or read beyond the end of the mapped block, before the lock-free check
had a chance to ask for a retry.
---
 src/rollable_file.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..e25891c 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -202,10 +202,11 @@ int RollableFile::CheckAndOpenFile(size_t order, bool create_file)
 {
     int rval = MBError::SUCCESS;
 
-    if (order >= static_cast<size_t>(files.size()))
+    // A reader gets here with an invalid offset if what it has read is being updated.
+    if (order < max_num_block && order >= static_cast<size_t>(files.size()))
         files.resize(order + 3, NULL);
 
-    if (files[order] == NULL)
+    if (order >= static_cast<size_t>(files.size()) || files[order] == NULL)
         rval = OpenAndMapBlockFile(order, create_file);
 
     return rval;
@@ -223,6 +224,8 @@ uint8_t* RollableFile::GetShmPtr(size_t offset, int size)
 
     if (files[order]->IsMapped()) {
         size_t index = offset % block_size;
+        if (index + size > block_size)
+            return NULL;
         return files[order]->GetMapAddr() + index;
     }
 
-- 
2.43.0


From be478e35ea4a769ea271b31355c5df2079ef62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 15/38] fix: concurrent lookups returned values that were not
 stored under the key

Values were read after the last lock-free check, only the current edge was
checked and not the edges leading to it, so storage that was released and used
again could be read, and the saved copy of the edge being updated could itself
be incomplete or be used after the update. The lookup now keeps track of all
edges on its path and checks them after everything has been read. The iterator
uses the same guard, does not follow a leaf as a node, and goes on if a node
has been removed.
---
 src/db.h                     |  12 +-
 src/detail/lf_guard.h        |  80 ++++++++--
 src/detail/search_engine.cpp | 301 +++++++++--------------------------
 src/detail/search_engine.h   |  23 ++-
 src/dict.cpp                 |   4 +-
 src/dict.h                   |   3 +-
 src/iterator.cpp             | 108 ++++---------
 src/lock_free.cpp            |  80 +++++++++-
 src/lock_free.h              |  32 ++++
 9 files changed, 314 insertions(+), 329 deletions(-)

diff --git a/src/db.h b/src/db.h
index 37bf8b3..7310845 100644
--- a/src/db.h
+++ b/src/db.h
@@ -36,7 +36,7 @@ namespace mabain {
 
 class Dict;
 class MBlsq;
-class LockFree;
+class ReaderLFGuard;
 class AsyncWriter;
 class ResourceCollection;
 class MmapFileIO;
@@ -93,11 +93,12 @@ public:
 
     private:
         bool match_prefix(const std::string& key);
-        int get_node_offset(const std::string& node_key, size_t& parent_edge_off,
-            size_t& node_offset);
-        int load_node(const std::string& curr_node_key, size_t& parent_edge_off);
+        int get_node_offset(const std::string& node_key, size_t& node_offset,
+            ReaderLFGuard& guard);
+        int load_node(const std::string& curr_node_key, ReaderLFGuard& guard);
         int load_kv_for_node(const std::string& curr_node_key);
-        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list);
+        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list,
+            ReaderLFGuard& guard);
         void iter_obj_init();
         bool next_dbt_buffer(struct _DBTraverseNode* dbt_n);
         void add_node_offset(size_t node_offset);
@@ -110,7 +111,6 @@ public:
         uint8_t node_buff[NUM_ALPHABET + NODE_EDGE_KEY_FIRST];
         MBlsq* node_stack;
         MBlsq* kv_per_node;
-        LockFree* lfree;
     };
 
     // db_path: database directory
diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..d9980ca 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -4,25 +4,83 @@
  */
 #pragma once
 
-#ifdef __LOCK_FREE__
+#include "drm_base.h"
+#include "error.h"
+#include "integer_4b_5b.h"
 #include "lock_free.h"
 #include "mb_data.h"
+#include <string.h>
 
 namespace mabain {
 
-struct ReaderLFGuard {
-    LockFree& lf;
-    MBData& data;
-    LockFreeData snap;
-    explicit ReaderLFGuard(LockFree& l, MBData& d)
+// Keeps track of the edges a lookup goes through. What was read along the way is
+// only valid if none of them has been updated by the writer in the meantime.
+class ReaderLFGuard {
+public:
+    explicit ReaderLFGuard(LockFree& l)
         : lf(l)
-        , data(d)
+        , num_edges(0)
     {
-        lf.ReaderLockFreeStart(snap);
+        saved.offset = MAX_6B_OFFSET;
+        saved.counter = 0;
+    }
+
+    // Start over
+    inline void start()
+    {
+#ifdef __LOCK_FREE__
+        lf.ReaderLockFreeStart(snap, saved);
+#endif
+        num_edges = 0;
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
+
+    // edge_ptrs was read and is going to be used.
+    inline void enter(EdgePtrs& edge_ptrs)
+    {
+#ifdef __LOCK_FREE__
+        if (edge_ptrs.offset == saved.offset)
+            memcpy(edge_ptrs.edge_buff, saved.edge_buff, EDGE_SIZE);
+        if (num_edges < MAX_NUM_EDGES)
+            edge_offsets[num_edges] = edge_ptrs.offset;
+        num_edges++;
+#endif
+    }
+
+    // Leave all edges but the first n.
+    inline void leave(int n) { num_edges = n; }
+    inline int depth() const { return num_edges; }
+
+    // The content of an edge is to be replaced when it is entered.
+    inline bool has_saved_edge() const { return saved.offset != MAX_6B_OFFSET; }
+
+    // MBError::TRY_AGAIN if anything read so far may be invalid
+    inline int check()
+    {
+#ifdef __LOCK_FREE__
+        if (num_edges > MAX_NUM_EDGES)
+            return MBError::TRY_AGAIN;
+        return lf.ReaderLockFreeStop(snap, edge_offsets, num_edges, saved);
+#else
+        return MBError::SUCCESS;
+#endif
+    }
+
+    // rval unless the check fails
+    inline int check(int rval)
+    {
+        int r = check();
+        return r == MBError::SUCCESS ? rval : r;
+    }
+
+private:
+    // Every edge takes at least one byte of the key (CONSTS::MAX_KEY_LENGHTH).
+    static const int MAX_NUM_EDGES = NUM_ALPHABET + 2;
+
+    LockFree& lf;
+    LockFreeData snap;
+    SavedEdge saved;
+    int num_edges;
+    size_t edge_offsets[MAX_NUM_EDGES];
 };
 
 } // namespace mabain
-
-#endif // __LOCK_FREE__
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 0679472..2d38ee1 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -15,13 +15,19 @@ namespace mabain {
 namespace detail {
 
     int SearchEngine::find(const uint8_t* key, int len, MBData& data)
+    {
+        ReaderLFGuard guard(dict.lfree);
+        return find(key, len, data, guard);
+    }
+
+    int SearchEngine::find(const uint8_t* key, int len, MBData& data, ReaderLFGuard& guard)
     {
         int rval;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
 
         if (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
-            rval = tryFindAtRoot(rc_root_offset, key, len, data);
+            rval = tryFindAtRoot(rc_root_offset, key, len, data, guard);
             if (rval == MBError::SUCCESS) {
                 data.match_len = len;
                 return rval;
@@ -37,7 +43,7 @@ namespace detail {
             }
         }
 
-        rval = tryFindAtRoot(0, key, len, data);
+        rval = tryFindAtRoot(0, key, len, data, guard);
         if (rval == MBError::SUCCESS)
             data.match_len = len;
 
@@ -48,17 +54,18 @@ namespace detail {
     {
         int rval;
         MBData data_rc;
+        ReaderLFGuard guard(dict.lfree);
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
         if (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
-            rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
+            rval = findPrefixInternal(rc_root_offset, key, len, data_rc, guard);
 #ifdef __LOCK_FREE__
             {
                 int attempts = 0;
                 while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
                     nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
                     data_rc.Clear();
-                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
+                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc, guard);
                 }
             }
 #endif
@@ -73,14 +80,14 @@ namespace detail {
             }
         }
 
-        rval = findPrefixInternal(0, key, len, data);
+        rval = findPrefixInternal(0, key, len, data, guard);
 #ifdef __LOCK_FREE__
         {
             int attempts = 0;
             while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
                 nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
                 data.Clear();
-                rval = findPrefixInternal(0, key, len, data);
+                rval = findPrefixInternal(0, key, len, data, guard);
             }
         }
 #endif
@@ -195,29 +202,21 @@ namespace detail {
         return rval;
     }
 
-    int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& guard)
     {
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
 
+        guard.start();
         rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
         if (rval != MBError::SUCCESS) {
             return MBError::READ_ERROR;
         }
+        guard.enter(edge_ptrs);
 
-        if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
-            return MBError::NOT_EXIST;
-        }
+        if (edge_ptrs.len_ptr[0] == 0)
+            return guard.check(MBError::NOT_EXIST);
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
@@ -226,16 +225,8 @@ namespace detail {
         int edge_len_m1 = edge_len - 1;
         if (edge_len > LOCAL_EDGE_LEN) {
             if (dict.mm.ReadData(node_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr))
-                != edge_len_m1) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
+                != edge_len_m1)
+                return guard.check(MBError::READ_ERROR);
             key_buff = node_buff;
         } else {
             key_buff = edge_ptrs.ptr;
@@ -243,37 +234,22 @@ namespace detail {
 
         rval = MBError::NOT_EXIST;
         if (edge_len < len) {
-            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)
+                return guard.check(MBError::NOT_EXIST);
 
             len -= edge_len;
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
                 if (rval == MBError::SUCCESS)
                     data.match_len = key_cursor - key;
-                return rval;
+                return guard.check(rval);
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
-            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer, guard);
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
@@ -284,17 +260,11 @@ namespace detail {
             }
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
-        return rval;
+        return guard.check(rval);
     }
 
-    int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& guard)
     {
         EdgePtrs& edge_ptrs = data.edge_ptrs;
         int rval;
@@ -302,142 +272,66 @@ namespace detail {
         int orig_len = len;
         int consumed = 0;
         const uint8_t* key_buff;
+        guard.start();
         // Do not seed from prefix cache for operations that require
         // precise parent/edge bookkeeping (e.g., remove) or during rc view.
-        bool use_cache = true
+        bool use_cache = !guard.has_saved_edge()
             && !(dict.reader_rc_off != 0 && root_off == dict.reader_rc_off)
             && !(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT);
         bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
 
         if (!used_cache) {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
-
             rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
             if (rval != MBError::SUCCESS) {
                 return MBError::READ_ERROR;
             }
-            if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+            guard.enter(edge_ptrs);
+            if (edge_ptrs.len_ptr[0] == 0)
+                return guard.check(MBError::NOT_EXIST);
 
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
-            rval = MBError::NOT_EXIST;
-            if ((rval = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1)) != MBError::SUCCESS) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
+            if (loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1) != MBError::SUCCESS)
+                return guard.check(MBError::READ_ERROR);
 
-            if (edge_len < len) {
-                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                key_cursor += edge_len;
-                consumed += edge_len;
-                len -= edge_len;
-                if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-                if (isLeaf(edge_ptrs)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                // Find does not update prefix cache; writer seeds during Add
-            } else if (edge_len == len) {
-                if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-                    // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            } else {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+            if (edge_len > len || !remainderMatches(key_buff, key_cursor, edge_len_m1))
+                return guard.check(MBError::NOT_EXIST);
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
+            // Find does not update prefix cache; writer seeds during Add
+            if (edge_len == len) {
+                rval = resolveMatchOrInDict(data, edge_ptrs, true);
+                return guard.check(rval);
             }
-#endif
-        }
 
-        if (used_cache) {
-            if (len <= 0)
-                return resolveMatchOrInDict(data, edge_ptrs, false);
+            key_cursor += edge_len;
+            consumed += edge_len;
+            len -= edge_len;
             if (isLeaf(edge_ptrs))
-                return MBError::NOT_EXIST;
+                return guard.check(MBError::NOT_EXIST);
+        } else {
+            guard.enter(edge_ptrs);
+            if (len <= 0) {
+                rval = resolveMatchOrInDict(data, edge_ptrs, false);
+                return guard.check(rval);
+            }
+            if (isLeaf(edge_ptrs))
+                return guard.check(MBError::NOT_EXIST);
         }
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data, guard);
     }
 
     int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data,
+        ReaderLFGuard& guard)
     {
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
         int rval = MBError::SUCCESS;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::UNKNOWN_ERROR;
-            }
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
+                return guard.check(MBError::UNKNOWN_ERROR);
             if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
                 rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
             } else {
@@ -453,13 +347,11 @@ namespace detail {
             if (rval != MBError::SUCCESS)
                 break;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            guard.enter(edge_ptrs);
+            rval = guard.check();
+            if (rval != MBError::SUCCESS)
+                return rval;
+
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             if (edge_len > len) {
@@ -468,64 +360,39 @@ namespace detail {
                 break;
             }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
-            if (rval == MBError::READ_ERROR)
-                break;
-            if (rval == MBError::NOT_EXIST)
+            if (rval != MBError::SUCCESS)
                 break;
 
             len -= edge_len;
             if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
+                rval = resolveMatchOrInDict(data, edge_ptrs, false);
+                break;
             }
             if (isLeaf(edge_ptrs)) {
-                return MBError::NOT_EXIST;
+                rval = MBError::NOT_EXIST;
+                break;
             }
 
             key_cursor += edge_len;
             consumed += edge_len;
             // Find does not update prefix cache; writer seeds during Add
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#else
-            edge_offset_prev = edge_ptrs.offset;
-#endif
-        }
-
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
         }
-#endif
 
-        return rval;
+        return guard.check(rval);
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST],
+        ReaderLFGuard& guard) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         const uint8_t* key_buff;
         int steps = 0;
         while (true) {
             if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::UNKNOWN_ERROR;
+                rval = MBError::UNKNOWN_ERROR;
+                break;
             }
             // For prefix traversal we must read the node header into node_buff
             // to detect FLAG_NODE_MATCH at internal nodes. NextEdgeFast does not
@@ -542,13 +409,11 @@ namespace detail {
             if (rval != MBError::SUCCESS)
                 break;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            guard.enter(edge_ptrs);
+            rval = guard.check();
+            if (rval != MBError::SUCCESS)
+                break;
+
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             // match edge string
@@ -578,18 +443,8 @@ namespace detail {
                     data.match_len = key_cursor - key_base;
                 break;
             }
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..7794d55 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -41,6 +41,8 @@ namespace detail {
 
         // Exact match
         int find(const uint8_t* key, int len, MBData& data);
+        // The edges on the path to the key are left in guard, for further reading.
+        int find(const uint8_t* key, int len, MBData& data, ReaderLFGuard& guard);
 
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
@@ -52,16 +54,20 @@ namespace detail {
         Dict& dict;
 
         // Exact-find internals
-        inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
-        int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& guard);
+        int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& guard);
         int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data,
+            ReaderLFGuard& guard);
 
         // Prefix internals
-        int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& guard);
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST], ReaderLFGuard& guard) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
@@ -100,14 +106,15 @@ namespace detail {
 namespace mabain {
 namespace detail {
 
-    inline int SearchEngine::tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data)
+    inline int SearchEngine::tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& guard)
     {
-        int r = findInternal(root_off, key, len, data);
+        int r = findInternal(root_off, key, len, data, guard);
 #ifdef __LOCK_FREE__
         int attempts = 0;
         while (r == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
             nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-            r = findInternal(root_off, key, len, data);
+            r = findInternal(root_off, key, len, data, guard);
         }
 #endif
         return r;
diff --git a/src/dict.cpp b/src/dict.cpp
index e7f7f41..a651b60 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -805,7 +805,7 @@ int64_t Dict::Count() const
 // For DB iterator
 int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
     int& match, MBData& data, std::string& match_str,
-    size_t& node_off, bool rd_kv) const
+    size_t& node_off, bool rd_kv, ReaderLFGuard* guard) const
 {
     if (edge_ptrs.curr_nt > static_cast<int>(node_buff[1]))
         return MBError::OUT_OF_BOUND;
@@ -818,6 +818,8 @@ int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
 
     int rval = MBError::SUCCESS;
     InitTempEdgePtrs(edge_ptrs);
+    if (guard != NULL)
+        guard->enter(edge_ptrs);
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         // match of leaf node
         match = MATCH_EDGE;
diff --git a/src/dict.h b/src/dict.h
index 76b11f1..392637f 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -39,6 +39,7 @@ namespace detail {
     class SearchEngine;
 }
 class PrefixCache;
+class ReaderLFGuard;
 }
 
 namespace mabain {
@@ -105,7 +106,7 @@ public:
     // Used for DB iterator
     int ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs, int& match,
         MBData& data, std::string& match_str, size_t& node_off,
-        bool rd_kv = true) const;
+        bool rd_kv = true, ReaderLFGuard* guard = NULL) const;
     int ReadNode(size_t node_off, uint8_t* node_buff, EdgePtrs& edge_ptrs,
         int& match, MBData& data, bool rd_kv = true) const;
     void ReadNodeHeader(size_t node_off, int& node_size, int& match,
diff --git a/src/iterator.cpp b/src/iterator.cpp
index b46695d..3345b13 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -108,13 +108,6 @@ void DB::iterator::iter_obj_init()
 {
     node_stack = NULL;
     kv_per_node = NULL;
-    lfree = NULL;
-
-    if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
-#ifdef __LOCK_FREE__
-        lfree = db_ref.dict->GetLockFreePtr();
-#endif
-    }
 
     if (state == DB_ITER_STATE_INIT)
         state = DB_ITER_STATE_MORE;
@@ -198,25 +191,20 @@ bool DB::iterator::match_prefix(const std::string& key)
     return memcmp(key.data(), prefix.data(), prefix.size()) == 0;
 }
 
-int DB::iterator::get_node_offset(const std::string& node_key,
-    size_t& parent_edge_off,
-    size_t& node_offset)
+int DB::iterator::get_node_offset(const std::string& node_key, size_t& node_offset,
+    ReaderLFGuard& guard)
 {
     int rval;
 
     node_offset = 0;
     value.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
     detail::SearchEngine engine(*db_ref.dict);
-    while (true) {
-        rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
-            static_cast<int>(node_key.size()), value);
-        if (rval != MBError::TRY_AGAIN)
-            break;
-        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-    }
-
+    rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
+        static_cast<int>(node_key.size()), value, guard);
     if (rval == MBError::IN_DICT) {
-        parent_edge_off = edge_ptrs.parent_offset;
+        // It may be a leaf by now.
+        if (value.edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)
+            return MBError::NOT_EXIST;
         node_offset = Get6BInteger(value.edge_ptrs.offset_ptr);
         rval = MBError::SUCCESS;
     }
@@ -224,33 +212,19 @@ int DB::iterator::get_node_offset(const std::string& node_key,
 }
 
 int DB::iterator::load_kvs(const std::string& curr_node_key,
-    MBlsq* child_node_list)
+    MBlsq* child_node_list, ReaderLFGuard& guard)
 {
     int rval;
     size_t child_node_off;
     std::string match_str;
     iterator_node* inode;
+    int depth = guard.depth();
 
     while (true) {
-        if (lfree == NULL) {
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-        } else {
-#ifdef __LOCK_FREE__
-            LockFreeData snapshot;
-            int lf_ret;
-            size_t edge_off_prev = edge_ptrs.offset;
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, edge_off_prev, value);
-            if (lf_ret == MBError::TRY_AGAIN)
-                return lf_ret;
-#endif
-        }
-
+        rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
+            match_str, child_node_off, true, &guard);
+        rval = guard.check(rval);
+        guard.leave(depth);
         if (rval != MBError::SUCCESS)
             break;
 
@@ -286,64 +260,42 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
 }
 
 int DB::iterator::load_node(const std::string& curr_node_key,
-    size_t& parent_edge_off)
+    ReaderLFGuard& guard)
 {
     int rval;
 
     if (curr_node_key.size() == 0) {
+        guard.start();
         rval = db_ref.dict->ReadRootNode(node_buff, edge_ptrs, match, value);
     } else {
         size_t node_offset;
-        rval = get_node_offset(curr_node_key, parent_edge_off, node_offset);
+        rval = get_node_offset(curr_node_key, node_offset, guard);
         if (rval != MBError::SUCCESS)
             return rval;
         rval = db_ref.dict->ReadNode(node_offset, node_buff, edge_ptrs, match,
             value, false);
     }
 
-    return rval;
+    return guard.check(rval);
 }
 
 int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
 {
     int rval;
     MBlsq child_node_list(free_iterator_node);
-    size_t parent_edge_off;
+    ReaderLFGuard guard(*db_ref.dict->GetLockFreePtr());
 
-    if (lfree == NULL) {
-        rval = load_node(curr_node_key, parent_edge_off);
+    int attempts = 0;
+    while (true) {
+        rval = load_node(curr_node_key, guard);
         if (rval == MBError::SUCCESS)
-            rval = load_kvs(curr_node_key, &child_node_list);
-    } else {
-#ifdef __LOCK_FREE__
-        LockFreeData snapshot;
-        int lf_ret;
-#endif
-        while (true) {
-#ifdef __LOCK_FREE__
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = load_node(curr_node_key, parent_edge_off);
-            if (rval == MBError::SUCCESS) {
-                rval = load_kvs(curr_node_key, &child_node_list);
-#ifdef __LOCK_FREE__
-                if (rval == MBError::TRY_AGAIN) {
-                    kv_per_node->Clear();
-                    child_node_list.Clear();
-                    continue;
-                }
-#endif
-            }
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, parent_edge_off, value);
-            if (lf_ret == MBError::TRY_AGAIN) {
-                kv_per_node->Clear();
-                child_node_list.Clear();
-                continue;
-            }
-#endif
+            rval = load_kvs(curr_node_key, &child_node_list, guard);
+        if (rval != MBError::TRY_AGAIN || attempts++ >= CONSTS::LOCK_FREE_RETRY_LIMIT)
             break;
-        }
+        // The node was being updated. Read it again.
+        kv_per_node->Clear();
+        child_node_list.Clear();
+        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
     }
 
     if (rval == MBError::SUCCESS) {
@@ -352,7 +304,8 @@ int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
             node_stack->AddToHead(inode);
         }
     } else {
-        std::cerr << "failed to run ietrator: " << MBError::get_error_str(rval) << "\n";
+        if (rval != MBError::NOT_EXIST)
+            std::cerr << "failed to run ietrator: " << MBError::get_error_str(rval) << "\n";
         kv_per_node->Clear();
         child_node_list.Clear();
     }
@@ -371,7 +324,8 @@ DB::iterator* DB::iterator::next()
 
         int rval = load_kv_for_node(*inode->key);
         free_iterator_node(inode);
-        if (rval != MBError::SUCCESS)
+        // The node may have been removed since its parent was read.
+        if (rval != MBError::SUCCESS && rval != MBError::NOT_EXIST)
             return NULL;
     }
 
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..cd43ef3 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -111,6 +111,79 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     if (mbdata.options & CONSTS::OPTION_READ_SAVED_EDGE)
         mbdata.options &= ~CONSTS::OPTION_READ_SAVED_EDGE;
 
+    return CheckCounter(snapshot, curr_counter, &reader_offset, 1);
+}
+
+//////////////////////////////////////////////////
+// DO NOT CHANGE THE LOAD ORDER IN THIS FUNCTION.
+//////////////////////////////////////////////////
+int LockFree::ReaderLockFreeStop(LockFreeData& snapshot, const size_t* reader_offsets, int count,
+    SavedEdge& saved) const
+{
+    // Everything the reader has read must have been read by now.
+    std::atomic_thread_fence(MEMORY_ORDER_READER);
+    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    uint32_t curr_counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
+
+    // The edge being updated does not matter if its new content was used.
+    if (curr_offset != saved.offset || curr_counter != saved.counter) {
+        for (int i = 0; i < count; i++) {
+            if (curr_offset == reader_offsets[i]) {
+                SaveEdge(curr_offset, curr_counter, saved);
+                return MBError::TRY_AGAIN;
+            }
+        }
+    }
+
+    int rval = CheckCounter(snapshot, curr_counter, reader_offsets, count);
+    if (rval == MBError::SUCCESS) {
+        snapshot.counter = curr_counter;
+        DropSavedEdge(snapshot, saved);
+    }
+    return rval;
+}
+
+// Save the new edge so that the reader does not depend on the writer completing the update.
+void LockFree::SaveEdge(size_t curr_offset, uint32_t curr_counter, SavedEdge& saved) const
+{
+    uint8_t edge_buff[EDGE_SIZE];
+
+    saved.offset = MAX_6B_OFFSET;
+    // The same offset and counter can also be seen at the very end of the previous update.
+    // Two equal copies make sure that the edge was not being prepared while it was read.
+    for (int i = 0; i < 2; i++) {
+        switch (header->excep_updating_status) {
+        case EXCEP_STATUS_ADD_EDGE:
+        case EXCEP_STATUS_ADD_DATA_OFF:
+        case EXCEP_STATUS_REMOVE_EDGE:
+            memcpy(edge_buff, header->excep_buff, EDGE_SIZE);
+            break;
+        case EXCEP_STATUS_CLEAR_EDGE:
+        case EXCEP_STATUS_REMOVE_ALL:
+            memset(edge_buff, 0, EDGE_SIZE);
+            break;
+        default:
+            // There is no copy of what is being updated.
+            return;
+        }
+
+        std::atomic_thread_fence(MEMORY_ORDER_READER);
+        if (shm_data_ptr->offset.load(MEMORY_ORDER_READER) != curr_offset
+            || shm_data_ptr->counter.load(MEMORY_ORDER_READER) != curr_counter)
+            return;
+        if (i == 0)
+            memcpy(saved.edge_buff, edge_buff, EDGE_SIZE);
+    }
+
+    if (memcmp(saved.edge_buff, edge_buff, EDGE_SIZE) == 0) {
+        saved.offset = curr_offset;
+        saved.counter = curr_counter;
+    }
+}
+
+int LockFree::CheckCounter(const LockFreeData& snapshot, uint32_t curr_counter,
+    const size_t* reader_offsets, int count) const
+{
     // Note it is expected that count_diff can overflow.
     uint32_t count_diff = curr_counter - snapshot.counter;
     if (count_diff == 0)
@@ -120,8 +193,11 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
 
     for (unsigned i = 0; i < count_diff; i++) {
         int index = (snapshot.counter + i) % MAX_OFFSET_CACHE;
-        if (reader_offset == shm_data_ptr->offset_cache[index].load(MEMORY_ORDER_READER))
-            return MBError::TRY_AGAIN;
+        size_t updated_offset = shm_data_ptr->offset_cache[index].load(MEMORY_ORDER_READER);
+        for (int j = 0; j < count; j++) {
+            if (reader_offsets[j] == updated_offset)
+                return MBError::TRY_AGAIN;
+        }
     }
 
     // Need to recheck the counter difference
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..49f5790 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -23,6 +23,7 @@
 #include <stdint.h>
 #include <string.h>
 
+#include "integer_4b_5b.h"
 #include "mb_data.h"
 
 namespace mabain {
@@ -34,6 +35,14 @@ namespace mabain {
 #define MEMORY_ORDER_WRITER std::memory_order_release
 #define MEMORY_ORDER_READER std::memory_order_acquire
 
+// The new content of an edge the writer was found to be updating. It can be used
+// in place of the edge, until the update is complete.
+typedef struct _SavedEdge {
+    size_t offset;
+    uint32_t counter;
+    uint8_t edge_buff[16];
+} SavedEdge;
+
 struct _IndexHeader;
 typedef struct _IndexHeader IndexHeader;
 
@@ -56,11 +65,21 @@ public:
     inline void WriterLockFreeStart(size_t offset);
     void WriterLockFreeStop();
     inline void ReaderLockFreeStart(LockFreeData& snapshot);
+    inline void ReaderLockFreeStart(LockFreeData& snapshot, SavedEdge& saved);
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // Check all the edges a lookup has been through since the snapshot was taken.
+    // The snapshot is moved to the time of the check if they are unchanged.
+    int ReaderLockFreeStop(LockFreeData& snapshot, const size_t* reader_offsets, int count,
+        SavedEdge& saved) const;
 
 private:
+    int CheckCounter(const LockFreeData& snapshot, uint32_t curr_counter,
+        const size_t* reader_offsets, int count) const;
+    static inline void DropSavedEdge(const LockFreeData& snapshot, SavedEdge& saved);
+    void SaveEdge(size_t curr_offset, uint32_t curr_counter, SavedEdge& saved) const;
+
     LockFreeShmData* shm_data_ptr;
     const IndexHeader* header;
 };
@@ -75,6 +94,19 @@ inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot)
     snapshot.counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
 }
 
+inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot, SavedEdge& saved)
+{
+    ReaderLockFreeStart(snapshot);
+    DropSavedEdge(snapshot, saved);
+}
+
+// A saved edge must not be used once the update it was saved from is complete.
+inline void LockFree::DropSavedEdge(const LockFreeData& snapshot, SavedEdge& saved)
+{
+    if (saved.counter != snapshot.counter)
+        saved.offset = MAX_6B_OFFSET;
+}
+
 // inline ReaderLockFreeStop is defined in lock_free.cpp
 
 }
-- 
2.43.0


From 7d1af41f4fb805156b6126eafecd7f8a8f93099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 16/38] fix: updates were lost or the async queue got stuck
 when slots were taken, released and skipped concurrently

---
 src/async_writer.cpp | 53 ++++++++++++++++++++++++--------------------
 src/async_writer.h   |  3 ++-
 src/drm_base.h       |  2 +-
 src/mb_pipe.cpp      | 12 +++++-----
 src/mb_pipe.h        |  3 ++-
 src/shmq_update.cpp  | 11 ++++++++-
 6 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..9cf6628 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -164,10 +164,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
-            header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
-            node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
+            ReleaseSlot(node_ptr);
             mbd.Clear();
             count++;
         } else {
@@ -186,21 +183,25 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
-uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex)
+// Make the slot available to the producers again. The index is advanced last
+// since the producers do not take a slot before the writer has passed it.
+void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
 {
-    int cnt = 0;
-    while (windex != qindex) {
-        if (queue[windex % header->async_queue_size].in_use.load(std::memory_order_consume))
-            break;
-        if (++cnt > header->async_queue_size) {
-            windex = qindex;
-            break;
-        }
+    node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+    node_ptr->in_use.store(false, std::memory_order_release);
+    node_ptr->num_reader.store(0, std::memory_order_release);
+    header->writer_index.fetch_add(1, std::memory_order_release);
+}
 
-        windex++;
+// Give up the slot at windex, which was taken by a producer but never filled.
+void AsyncWriter::SkipSlot(AsyncNode* node_ptr, uint32_t windex, uint32_t qindex)
+{
+    if (qindex - windex > (uint32_t)header->async_queue_size) {
+        // The indices do not belong to each other.
+        header->writer_index.store(qindex, std::memory_order_release);
+        return;
     }
-
-    return windex;
+    ReleaseSlot(node_ptr);
 }
 
 void* AsyncWriter::async_writer_thread()
@@ -213,6 +214,7 @@ void* AsyncWriter::async_writer_thread()
     int64_t max_dbsize = MAX_6B_OFFSET;
     int64_t max_dbcount = MAX_6B_OFFSET;
     bool skip;
+    bool stalled;
     MBPipe mbp(db->GetDBDir(), CONSTS::ACCESS_MODE_WRITER);
 
     Logger::Log(LOG_LEVEL_DEBUG, "async writer started");
@@ -227,6 +229,7 @@ void* AsyncWriter::async_writer_thread()
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         skip = false;
+        stalled = false;
         while (!node_ptr->in_use.load(std::memory_order_consume)) {
             if (stop_processing) {
                 skip = true;
@@ -234,14 +237,19 @@ void* AsyncWriter::async_writer_thread()
             }
 
 #define __ASYNC_THREAD_SLEEP_TIME 1000
-            mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
+            bool timed_out = mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
 
-            auto windex = header->writer_index;
+            auto windex = header->writer_index.load(std::memory_order_consume);
             auto qindex = header->queue_index.load(std::memory_order_consume);
-            if (windex != qindex) {
+            if (windex == qindex || node_ptr->in_use.load(std::memory_order_consume)) {
+                stalled = false;
+            } else if (!stalled || !timed_out) {
+                // A producer may be filling the slot.
+                stalled = true;
+            } else {
                 // Reader process may have exited unexpectedly. Recover index.
                 skip = true;
-                header->writer_index = NextShmSlot(windex, qindex);
+                SkipSlot(node_ptr, windex, qindex);
                 break;
             }
         }
@@ -316,10 +324,7 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
+        ReleaseSlot(node_ptr);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..e28de46 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,7 +48,8 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
-    uint32_t NextShmSlot(uint32_t windex, uint32_t qindex);
+    void ReleaseSlot(AsyncNode* node_ptr);
+    void SkipSlot(AsyncNode* node_ptr, uint32_t windex, uint32_t qindex);
 
     // db pointer
     DB* db;
diff --git a/src/drm_base.h b/src/drm_base.h
index 2d681a0..48ee1e1 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -216,7 +216,7 @@ typedef struct _IndexHeader {
     // multi-process async queue
     int async_queue_size;
     std::atomic<uint32_t> queue_index;
-    uint32_t writer_index;
+    std::atomic<uint32_t> writer_index;
     std::atomic<uint32_t> rc_flag;
 
     // Embedded prefix cache (fixed capacity, set at DB initialization)
diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index d50bc9c..93e314c 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -68,7 +68,7 @@ void MBPipe::Close()
     fd = -1;
 }
 
-void MBPipe::Wait(int timeout)
+bool MBPipe::Wait(int timeout)
 {
     if (fd < 0) {
         fd = open(fifo_path.c_str(), O_RDONLY | O_NONBLOCK);
@@ -76,7 +76,7 @@ void MBPipe::Wait(int timeout)
             Logger::Log(LOG_LEVEL_DEBUG, "failed to open fifo %s %d",
                 fifo_path.c_str(), strerror(errno));
             usleep(timeout * 1000);
-            return;
+            return true;
         }
     }
 
@@ -88,12 +88,12 @@ void MBPipe::Wait(int timeout)
     pollret = poll(&pfd, 1, timeout);
 
     if (pollret == 0)
-        return;
+        return true;
     if (pollret < 0) {
         Logger::Log(LOG_LEVEL_DEBUG, "poll on pipe read failed errno: %s",
             strerror(errno));
         usleep(timeout * 1000);
-        return;
+        return true;
     }
 #ifdef __APPLE__
     if (pfd.revents & (POLLERR | POLLHUP | POLLNVAL))
@@ -104,7 +104,7 @@ void MBPipe::Wait(int timeout)
         Logger::Log(LOG_LEVEL_DEBUG, "pipe read poll error");
         Close();
         usleep(timeout * 1000);
-        return;
+        return true;
     }
 
 #define __MB_ASYNC_READ_BUFFER_SIZE 1024
@@ -126,6 +126,8 @@ void MBPipe::Wait(int timeout)
             Close();
         }
     } while (nread == __MB_ASYNC_READ_BUFFER_SIZE);
+
+    return false;
 }
 
 int MBPipe::Signal()
diff --git a/src/mb_pipe.h b/src/mb_pipe.h
index 973d288..ccfeeb8 100644
--- a/src/mb_pipe.h
+++ b/src/mb_pipe.h
@@ -30,7 +30,8 @@ public:
     MBPipe(const std::string& mbdir, int mode);
     ~MBPipe();
     // timeout is in millisecond
-    void Wait(int timeout);
+    // Returns true if no signal was received within timeout
+    bool Wait(int timeout);
     int Signal();
 
 private:
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..4bd730d 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,7 +114,16 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
+    // Take the next slot only if the writer is done with its previous use, so
+    // that no slot is left unfilled in the queue.
+    uint32_t index = header->queue_index.load(std::memory_order_acquire);
+    do {
+        uint32_t windex = header->writer_index.load(std::memory_order_acquire);
+        if (index - windex >= (uint32_t)header->async_queue_size) {
+            err = MBError::TRY_AGAIN;
+            return nullptr;
+        }
+    } while (!header->queue_index.compare_exchange_weak(index, index + 1, std::memory_order_acq_rel));
     AsyncNode* node_ptr = queue + (index % header->async_queue_size);
 
     if (node_ptr->in_use.load(std::memory_order_consume)) {
-- 
2.43.0


From 23cd723af592b9ec720a787d8e60227178ed4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 17/38] fix: async updates were dropped or applied out of order
 during resource collection and by AddWithLock

---
 src/async_writer.cpp | 54 ++++++++++++++++++++++++--------------------
 src/async_writer.h   |  1 +
 src/mb_rc.cpp        |  8 ++-----
 3 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 9cf6628..c15c27a 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -105,6 +105,10 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         if (node_ptr->in_use.load(std::memory_order_consume)) {
+            if (!CanRunInTask(node_ptr, rc_mode)) {
+                // Leave it, and all that were queued after it, to the writer thread.
+                break;
+            }
             switch (node_ptr->type) {
             case MABAIN_ASYNC_TYPE_ADD:
                 if (rc_mode)
@@ -119,30 +123,6 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                         MBError::get_error_str(err));
                 }
                 break;
-            case MABAIN_ASYNC_TYPE_REMOVE:
-                // FIXME
-                // Removing entries during rc is currently not supported.
-                // The index or data index could have been reset in fucntion ResourceColletion::Finish.
-                // However, the deletion may be run for some entry which still exist in the rc root tree.
-                // This requires modifying buffer in high end, where the offset for writing is greather than
-                // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
-                // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
-                // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
-                rval = MBError::SUCCESS;
-                break;
-            case MABAIN_ASYNC_TYPE_REMOVE_ALL:
-                if (!rc_mode) {
-                    try {
-                        rval = dict->RemoveAll();
-                    } catch (int err) {
-                        Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
-                            MBError::get_error_str(err));
-                        rval = err;
-                    }
-                } else {
-                    rval = MBError::SUCCESS;
-                }
-                break;
             case MABAIN_ASYNC_TYPE_RC:
                 // ignore rc task since it is running already.
                 rval = MBError::RC_SKIPPED;
@@ -183,6 +163,27 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
+// Removing entries during rc or pruning is currently not supported.
+// The index or data index could have been reset in fucntion ResourceColletion::Finish.
+// However, the deletion may be run for some entry which still exist in the rc root tree.
+// This requires modifying buffer in high end, where the offset for writing is greather than
+// header->m_index_offset. This causes exception thrown from DictMem::WriteData.
+// Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
+// This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
+// An entry added during rc replaces the existing one when rc is done.
+bool AsyncWriter::CanRunInTask(const AsyncNode* node_ptr, bool rc_mode) const
+{
+    switch (node_ptr->type) {
+    case MABAIN_ASYNC_TYPE_ADD:
+        return node_ptr->overwrite || !rc_mode;
+    case MABAIN_ASYNC_TYPE_REMOVE:
+    case MABAIN_ASYNC_TYPE_REMOVE_ALL:
+        return false;
+    default:
+        return true;
+    }
+}
+
 // Make the slot available to the producers again. The index is advanced last
 // since the producers do not take a slot before the writer has passed it.
 void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
@@ -377,6 +378,11 @@ int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool over
     using Ms = std::chrono::milliseconds;
     if (writer_lock.try_lock_for(Ms(1000))) {
         int rval;
+        // The updates in the queue come first.
+        if (header->queue_index.load(std::memory_order_acquire) != header->writer_index.load(std::memory_order_acquire)) {
+            writer_lock.unlock();
+            return MBError::TRY_AGAIN;
+        }
         try {
             rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
         } catch (int error) {
diff --git a/src/async_writer.h b/src/async_writer.h
index e28de46..6cbfad9 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,6 +48,7 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
+    bool CanRunInTask(const AsyncNode* node_ptr, bool rc_mode) const;
     void ReleaseSlot(AsyncNode* node_ptr);
     void SkipSlot(AsyncNode* node_ptr, uint32_t windex, uint32_t qindex);
 
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..92518e0 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1016,7 +1016,8 @@ void ResourceCollection::ProcessRCTree()
 {
     Logger::Log(LOG_LEVEL_INFO, "resource collection done, traversing the rc tree %llu entries", header->rc_count);
 
-    int count = 0;
+    // The updates which arrive meanwhile are left in the queue since they are
+    // newer than those in the rc tree.
     int rval;
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
@@ -1024,11 +1025,6 @@ void ResourceCollection::ProcessRCTree()
         rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
-        if (count++ > RC_TASK_CHECK) {
-            count = 0;
-            async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
-        }
-
         if (header->m_index_offset > rc_index_offset || header->m_data_offset > rc_data_offset) {
             Logger::Log(LOG_LEVEL_ERROR, "not enough space for insertion: %llu, %llu",
                 header->m_index_offset, header->m_data_offset);
-- 
2.43.0


From 613738dd14b673dda977798845df3442ddb521f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 18/38] fix: updates of one database were added to another
 whose async writer runs in the same process

---
 src/async_writer.cpp | 7 +++++++
 src/async_writer.h   | 1 +
 src/db.cpp           | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index c15c27a..b20cea5 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -43,6 +43,11 @@ AsyncWriter* AsyncWriter::GetInstance()
     return writer_instance;
 }
 
+bool AsyncWriter::IsWriterOf(const std::string& db_dir) const
+{
+    return db->GetDBDir() == db_dir;
+}
+
 AsyncWriter::AsyncWriter(DB* db_ptr)
     : db(db_ptr)
     , tid(0)
@@ -77,6 +82,8 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
 }
 
 int AsyncWriter::StopAsyncThread()
diff --git a/src/async_writer.h b/src/async_writer.h
index 6cbfad9..f785cd4 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -41,6 +41,7 @@ public:
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
     static AsyncWriter* GetInstance();
+    bool IsWriterOf(const std::string& db_dir) const;
 
 private:
     AsyncWriter(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index 985113b..56ea7cf 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1020,7 +1020,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
     } else {
         AsyncWriter* awr = AsyncWriter::GetInstance();
-        if (awr) {
+        if (awr && awr->IsWriterOf(mb_dir)) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
                 if (!overwrite && rval == MBError::IN_DICT)
-- 
2.43.0


From b87984a2ef4dfa4b9212d03951d84b4ececa36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 19/38] fix: consecutive async queue indices did not have
 consecutive slots after wrapping around

---
 src/async_writer.cpp |  4 ++--
 src/drm_base.h       | 21 +++++++++++++++++++++
 src/shmq_update.cpp  |  4 ++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index b20cea5..12c8165 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -198,13 +198,13 @@ void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
     node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
     node_ptr->in_use.store(false, std::memory_order_release);
     node_ptr->num_reader.store(0, std::memory_order_release);
-    header->writer_index.fetch_add(1, std::memory_order_release);
+    header->writer_index.store(header->NextQueueIndex(header->writer_index), std::memory_order_release);
 }
 
 // Give up the slot at windex, which was taken by a producer but never filled.
 void AsyncWriter::SkipSlot(AsyncNode* node_ptr, uint32_t windex, uint32_t qindex)
 {
-    if (qindex - windex > (uint32_t)header->async_queue_size) {
+    if (header->QueueLength(windex, qindex) > (uint32_t)header->async_queue_size) {
         // The indices do not belong to each other.
         header->writer_index.store(qindex, std::memory_order_release);
         return;
diff --git a/src/drm_base.h b/src/drm_base.h
index 48ee1e1..cd8bbbe 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -250,6 +250,27 @@ typedef struct _IndexHeader {
     {
         return rebuild_active != 0;
     }
+
+    // The indices of the async queue wrap around at a multiple of the queue
+    // size, so that consecutive indices always have consecutive slots.
+    uint32_t NextQueueIndex(uint32_t index) const
+    {
+        const uint32_t limit = UINT32_MAX - UINT32_MAX % async_queue_size;
+        if (index >= limit)
+            index %= async_queue_size;
+        return index + 1 == limit ? 0 : index + 1;
+    }
+
+    // Number of slots taken by producers when the indices are windex and qindex.
+    uint32_t QueueLength(uint32_t windex, uint32_t qindex) const
+    {
+        const uint32_t limit = UINT32_MAX - UINT32_MAX % async_queue_size;
+        if (windex >= limit)
+            windex %= async_queue_size;
+        if (qindex >= limit)
+            qindex %= async_queue_size;
+        return qindex >= windex ? qindex - windex : limit - windex + qindex;
+    }
 } IndexHeader;
 
 // An abstract interface class for Dict and DictMem
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 4bd730d..d555f96 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -119,11 +119,11 @@ AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
     uint32_t index = header->queue_index.load(std::memory_order_acquire);
     do {
         uint32_t windex = header->writer_index.load(std::memory_order_acquire);
-        if (index - windex >= (uint32_t)header->async_queue_size) {
+        if (header->QueueLength(windex, index) >= (uint32_t)header->async_queue_size) {
             err = MBError::TRY_AGAIN;
             return nullptr;
         }
-    } while (!header->queue_index.compare_exchange_weak(index, index + 1, std::memory_order_acq_rel));
+    } while (!header->queue_index.compare_exchange_weak(index, header->NextQueueIndex(index), std::memory_order_acq_rel));
     AsyncNode* node_ptr = queue + (index % header->async_queue_size);
 
     if (node_ptr->in_use.load(std::memory_order_consume)) {
-- 
2.43.0


From 8dd12094db939ee8b4a4b064ea519f403e68fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 20/38] fix: a process was killed by SIGPIPE when it signalled
 an async writer that was closing

---
 src/mb_pipe.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index 93e314c..b386841 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -18,6 +18,7 @@
 
 #include <fcntl.h>
 #include <poll.h>
+#include <signal.h>
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -130,6 +131,35 @@ bool MBPipe::Wait(int timeout)
     return false;
 }
 
+// Write one byte to the pipe. The reading end may be closed at any time; the
+// caller must not be killed by SIGPIPE in this case.
+static ssize_t WriteByte(int fd)
+{
+#ifdef __APPLE__
+    fcntl(fd, F_SETNOSIGPIPE, 1);
+    return write(fd, "", 1);
+#else
+    sigset_t pipe_set, old_set, pending_set;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigpending(&pending_set);
+    pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set);
+
+    ssize_t rval = write(fd, "", 1);
+    int err = errno;
+    if (rval < 0 && err == EPIPE && !sigismember(&pending_set, SIGPIPE)) {
+        // Remove the signal just raised.
+        struct timespec no_wait = { 0, 0 };
+        while (sigtimedwait(&pipe_set, NULL, &no_wait) < 0 && errno == EINTR)
+            ;
+    }
+
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+    errno = err;
+    return rval;
+#endif
+}
+
 int MBPipe::Signal()
 {
     if (fd < 0) {
@@ -165,7 +195,7 @@ int MBPipe::Signal()
         return MBError::NO_RESOURCE;
     }
 
-    if (write(fd, "", 1) < 0) {
+    if (WriteByte(fd) < 0) {
         if (!(errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to signal async writer errno: %s",
                 strerror(errno));
-- 
2.43.0


From 71d6e71df0ae79e30158ea938ac6282b6042d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 21/38] fix: mbc accepted any text in place of bin( and hex( if
 the rest of it followed later in the expression

---
 binaries/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binaries/expr_parser.cpp b/binaries/expr_parser.cpp
index 242bb19..19c97f4 100644
--- a/binaries/expr_parser.cpp
+++ b/binaries/expr_parser.cpp
@@ -72,7 +72,7 @@ int ExprParser::Parse(std::string& result)
 
         switch (expr[pos]) {
         case 'b': { // bin(...) expression
-            if (expr.find("in(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos + 1, 3, "in(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
@@ -104,7 +104,7 @@ int ExprParser::Parse(std::string& result)
             break;
         }
         case 'h': { // hex(...) expression
-            if (expr.find("ex(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos + 1, 3, "ex(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
-- 
2.43.0


From 05b8ac4e977fc713429577ce2f40bcba1675ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 22/38] fix: the prefix cache kept edges that had been removed,
 split, moved or overwritten

---
 src/dict.cpp              | 57 +++++++++++++++++++++++++++++++++++++--
 src/dict.h                |  6 +++++
 src/mb_rc.cpp             |  1 +
 src/util/prefix_cache.cpp | 23 ++++++++++++++++
 src/util/prefix_cache.h   |  2 ++
 5 files changed, 87 insertions(+), 2 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index a651b60..b0c02cd 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -145,6 +145,14 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             }
         }
     }
+    // A writer that does not maintain the cache must not leave anything in it.
+    if ((options & CONSTS::ACCESS_MODE_WRITER) && !init_header && header->pfxcache_size > 0 && !prefix_cache) {
+        try {
+            PrefixCache(mbdir_, header).Clear();
+        } catch (...) {
+            // Nobody can use the cache then.
+        }
+    }
     if (mm.IsValid())
         status = MBError::SUCCESS;
 }
@@ -299,6 +307,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     rval = mm.GetRootEdge_Writer(data.options & CONSTS::OPTION_RC_MODE, key[0], edge_ptrs);
     if (rval != MBError::SUCCESS)
         return rval;
+    InvalidateCachedPrefixes(key, len);
 
     if (edge_ptrs.len_ptr[0] == 0) {
         ReserveData(data.buff, data.data_len, data.data_offset);
@@ -349,6 +358,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 ReserveData(data.buff, data.data_len, data.data_offset);
                 rval = mm.UpdateNode(edge_ptrs, key_cursor, len, data.data_offset);
             } else if (match_len < static_cast<int>(edge_ptrs.len_ptr[0])) {
+                InvalidateCachedSplit(key, static_cast<int>(key_cursor - key), edge_ptrs, match_len);
                 if (len > match_len) {
                     ReserveData(data.buff, data.data_len, data.data_offset);
                     rval = mm.AddLink(edge_ptrs, match_len, key_cursor + match_len, len - match_len,
@@ -361,6 +371,7 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 rval = UpdateDataBuffer(edge_ptrs, overwrite, data);
             }
         } else {
+            InvalidateCachedSplit(key, 0, edge_ptrs, i);
             ReserveData(data.buff, data.data_len, data.data_offset);
             rval = mm.AddLink(edge_ptrs, i, key_cursor + i, len - i, data.data_offset, data);
         }
@@ -370,10 +381,12 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 break;
         }
         if (i < len) {
+            InvalidateCachedSplit(key, 0, edge_ptrs, i);
             ReserveData(data.buff, data.data_len, data.data_offset);
             rval = mm.AddLink(edge_ptrs, i, key_cursor + i, len - i, data.data_offset, data);
         } else {
             if (edge_ptrs.len_ptr[0] > len) {
+                InvalidateCachedSplit(key, 0, edge_ptrs, i);
                 ReserveData(data.buff, data.data_len, data.data_offset);
                 rval = mm.InsertNode(edge_ptrs, i, data.data_offset, data);
             } else {
@@ -389,13 +402,43 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         if (rval == MBError::SUCCESS)
             header->num_update++;
     }
-    // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
-    if (rval == MBError::SUCCESS && prefix_cache) {
+    // After an add, seed prefix cache at canonical 2/3-byte boundaries.
+    if ((rval == MBError::SUCCESS || rval == MBError::IN_DICT) && prefix_cache) {
         SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
     }
     return rval;
 }
 
+void Dict::InvalidateCachedPrefixes(const uint8_t* key, int len) const
+{
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, len);
+}
+
+void Dict::InvalidateCachedSplit(const uint8_t* key, int consumed, const EdgePtrs& edge_ptrs, int match_len) const
+{
+    // An entry can start inside of the edge at depth 4. It refers to the label of
+    // the edge, which is going to be released.
+    int edge_len = edge_ptrs.len_ptr[0];
+    if (!prefix_cache || consumed + match_len >= 4 || consumed + edge_len < 4)
+        return;
+
+    uint8_t label[NUM_ALPHABET];
+    if (edge_len > LOCAL_EDGE_LEN) {
+        if (mm.ReadData(label, edge_len - 1, Get5BInteger(edge_ptrs.ptr)) != edge_len - 1) {
+            prefix_cache->Clear();
+            return;
+        }
+    } else {
+        memcpy(label, edge_ptrs.ptr, edge_len - 1);
+    }
+    uint8_t prefix[4];
+    int n = consumed + match_len;
+    memcpy(prefix, key, n);
+    memcpy(prefix + n, label + match_len - 1, 4 - n);
+    prefix_cache->Invalidate(prefix, 4);
+}
+
 void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool from_add) const
 {
     if (!prefix_cache)
@@ -959,6 +1002,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
+        InvalidateCachedPrefixes(key, len);
         rval = DeleteDataFromEdge(data, data.edge_ptrs);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
@@ -988,6 +1032,7 @@ int Dict::RemoveAll()
 
     // If the writer is killed, the next one starts over.
     header->excep_updating_status = EXCEP_STATUS_REMOVE_ALL;
+    ClearPrefixCache();
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1351,6 +1396,14 @@ void Dict::GetPrefixCacheStats(uint64_t& hit, uint64_t& miss, uint64_t& put,
     n = prefix_cache->PrefixLen();
 }
 
+// Everything in the cache becomes invalid when the buffers it refers to are moved
+// or reset.
+void Dict::ClearPrefixCache()
+{
+    if (prefix_cache)
+        prefix_cache->Clear();
+}
+
 void Dict::ResetPrefixCacheStats()
 {
     if (prefix_cache)
diff --git a/src/dict.h b/src/dict.h
index 392637f..edf9287 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -129,6 +129,7 @@ public:
     void GetPrefixCacheStats(uint64_t& hit, uint64_t& miss, uint64_t& put,
         size_t& entries, int& n) const;
     void ResetPrefixCacheStats();
+    void ClearPrefixCache();
     void PrintPrefixCacheStats(std::ostream& os) const;
 
     // Unified prefix cache (shared-memory backed): automatically enabled
@@ -183,6 +184,11 @@ private:
     // non-shared caches and detects boundary crossings within long edges.
     void SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool from_add = true) const;
 
+    // Forget what the prefix cache holds for the prefixes of a key that is going
+    // to be updated, or for everything below an edge that is going to be split.
+    void InvalidateCachedPrefixes(const uint8_t* key, int len) const;
+    void InvalidateCachedSplit(const uint8_t* key, int consumed, const EdgePtrs& edge_ptrs, int match_len) const;
+
     // Initialize the embedded prefix cache layout in the data file header
     // and set the starting data offset accordingly.
     void InitEmbeddedPrefixCacheLayout();
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 92518e0..09db52b 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -198,6 +198,7 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
             rc_type & RESOURCE_COLLECTION_TYPE_DATA ? " yes" : "no");
         gettimeofday(&start, NULL);
 
+        dict->ClearPrefixCache();
         ReorderBuffers();
         CollectBuffers();
         Finish();
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..d6681fd 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -504,6 +504,29 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
     }
 }
 
+// Remove the entries of the given key's own prefixes from all tables.
+void PrefixCache::Invalidate(const uint8_t* key, int len)
+{
+    uint32_t p4;
+    if (cap4 > 0 && build4(key, len, p4)) {
+        size_t idx4 = static_cast<size_t>(p4) & mask4;
+        if (valid4[idx4].load(std::memory_order_relaxed) && tag4[idx4].load(std::memory_order_relaxed) == p4)
+            valid4[idx4].store(0, std::memory_order_release);
+    }
+    uint32_t p3;
+    if (cap3 > 0 && build3(key, len, p3)) {
+        size_t idx3 = static_cast<size_t>(p3) & mask3;
+        if (tag3[idx3].load(std::memory_order_relaxed) == p3 + 1)
+            tag3[idx3].store(0, std::memory_order_release);
+    }
+    uint16_t p2;
+    if (build2(key, len, p2)) {
+        size_t idx2 = static_cast<size_t>(p2) & mask2;
+        if (tag2[idx2].load(std::memory_order_relaxed) == static_cast<uint32_t>(p2) + 1)
+            tag2[idx2].store(0, std::memory_order_release);
+    }
+}
+
 // Total number of populated entries across all tables (best-effort, no locking).
 size_t PrefixCache::Size() const { return Size2() + Size3() + Size4(); }
 
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..c857ac5 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -78,6 +78,8 @@ public:
 
     void Put(const uint8_t* key, int len, const PrefixCacheEntry& in);
     void PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEntry& in);
+    // Forget what is cached for the prefixes of key (at any depth).
+    void Invalidate(const uint8_t* key, int len);
     int GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) const;
     // Report the maximum prefix length this cache can seed from (3 bytes reported for compatibility)
     int PrefixLen() const { return 3; }
-- 
2.43.0


From 8e9b4978af5b3cb783624a9b9da290883b88e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 23/38] fix: removing everything from a jemalloc database let
 values overwrite the prefix cache

---
 src/dict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index b0c02cd..6cca48a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1037,6 +1037,8 @@ int Dict::RemoveAll()
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
         kv_file->ResetJemalloc();
+        if (header->pfxcache_size > 0)
+            (void)kv_file->PreAlloc(GetStartDataOffset());
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-- 
2.43.0


From 320b0fb7e7f91990924f8a23fb866d078ed30f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 24/38] fix: a writer without asynchronous mode never made the
 backup it reported as done

---
 src/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 56ea7cf..a0d232d 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1158,7 +1158,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
-- 
2.43.0


From bc7f0747c53661bdee53725578b66b76fcb9a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 25/38] fix: backups ended the process on errors and dropped
 the last part of every file

---
 src/mb_backup.cpp | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..9146d0a 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -19,6 +19,8 @@
 #include <fstream>
 #include <iostream>
 #include <limits.h>
+#include <memory>
+#include <new>
 #include <sstream>
 
 #include "integer_4b_5b.h"
@@ -53,35 +55,29 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
-    int read_count, write_count;
-
-    while (true) {
-        read_count = fread(buffer, buffer_size, 1, fp_read);
-
-        if (feof(fp_read) && read_count == 0)
-            break;
-        if (read_count != 1) {
-            rval = MBError::READ_ERROR;
-            break;
-        }
+    size_t read_count;
 
-        write_count = fwrite(buffer, buffer_size, 1, fp_write);
-        if (write_count != 1) {
+    // The last part of a file can be smaller than the buffer.
+    while ((read_count = fread(buffer, 1, buffer_size, fp_read)) > 0) {
+        if (fwrite(buffer, 1, read_count, fp_write) != read_count) {
             rval = MBError::WRITE_ERROR;
             break;
         }
     }
+    if (rval == MBError::SUCCESS && ferror(fp_read))
+        rval = MBError::READ_ERROR;
     fclose(fp_read);
-    fclose(fp_write);
+    if (fclose(fp_write) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
 
     if (rval != MBError::SUCCESS) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
@@ -115,7 +111,8 @@ int DBBackup::Backup(const char* bk_dir)
     num_data_files = (header->m_data_offset / header->data_block_size) + 1;
     num_index_files = (header->m_index_offset / header->index_block_size) + 1;
 
-    char* buffer = (char*)malloc(BLOCK_SIZE_ALIGN);
+    std::unique_ptr<char[]> buffer_ptr(new (std::nothrow) char[BLOCK_SIZE_ALIGN]);
+    char* buffer = buffer_ptr.get();
     if (buffer == NULL)
         throw (int)MBError::NO_MEMORY;
 
@@ -145,11 +142,11 @@ int DBBackup::Backup(const char* bk_dir)
     // header is size of page_size
     copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
 
-    free(buffer);
-
     // reset number readers/writers in backed up DB.
     int rval;
     DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
+    if (!db.is_open())
+        throw (int)db.Status();
     rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
     if (rval != MBError::SUCCESS)
         Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-- 
2.43.0


From 72432b9eab340a35798515a584fa05e8ec762e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 26/38] fix: backups failed when the last block was exactly
 full and missed blocks in jemalloc mode

---
 src/mb_backup.cpp | 38 +++++++++++++++++++++++---------------
 src/mb_backup.h   |  2 ++
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 9146d0a..c60862f 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -16,6 +16,7 @@
 
 // @author Shridhar Bhalerao <shbhaler@cisco.com>
 
+#include <errno.h>
 #include <fstream>
 #include <iostream>
 #include <limits.h>
@@ -85,6 +86,24 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
     }
 }
 
+// Copy all files that hold the first end_offset bytes, and those that exist
+// after them (in jemalloc mode the offset in the header is not the end).
+// Files are created when they are first written to.
+void DBBackup::copy_blocks(const std::string& src_base, const std::string& dest_base,
+    size_t end_offset, size_t block_size, char* buffer)
+{
+    const size_t num_files = (end_offset + block_size - 1) / block_size;
+    for (size_t i = 0;; i++) {
+        const std::string src_path = src_base + std::to_string(i);
+        if (access(src_path.c_str(), F_OK) != 0 && errno == ENOENT) {
+            if (i >= num_files)
+                break;
+            continue;
+        }
+        copy_file(src_path, dest_base + std::to_string(i), buffer, BLOCK_SIZE_ALIGN);
+    }
+}
+
 int DBBackup::Backup(const char* bk_dir)
 {
     if (bk_dir == NULL)
@@ -106,11 +125,6 @@ int DBBackup::Backup(const char* bk_dir)
 
     db_ref.Flush();
 
-    int num_data_files, num_index_files;
-    // get the number of files from the header: max_bytes/number_of_bytes_per_file
-    num_data_files = (header->m_data_offset / header->data_block_size) + 1;
-    num_index_files = (header->m_index_offset / header->index_block_size) + 1;
-
     std::unique_ptr<char[]> buffer_ptr(new (std::nothrow) char[BLOCK_SIZE_ALIGN]);
     char* buffer = buffer_ptr.get();
     if (buffer == NULL)
@@ -123,19 +137,13 @@ int DBBackup::Backup(const char* bk_dir)
     std::string read_file_path;
     std::string write_file_path;
 
-    for (int i = 0; i < num_data_files; i++) {
-        read_file_path = read_file_path_base + std::to_string(i);
-        write_file_path = write_file_path_base + std::to_string(i);
-        copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
-    }
+    copy_blocks(read_file_path_base, write_file_path_base,
+        header->m_data_offset, header->data_block_size, buffer);
 
     read_file_path_base = orig_dir + "/_mabain_i";
     write_file_path_base = std::string(bk_dir) + "/_mabain_i";
-    for (int i = 0; i < num_index_files; i++) {
-        read_file_path = read_file_path_base + std::to_string(i);
-        write_file_path = write_file_path_base + std::to_string(i);
-        copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
-    }
+    copy_blocks(read_file_path_base, write_file_path_base,
+        header->m_index_offset, header->index_block_size, buffer);
 
     read_file_path = orig_dir + "/_mabain_h";
     write_file_path = std::string(bk_dir) + "/_mabain_h";
diff --git a/src/mb_backup.h b/src/mb_backup.h
index 1030196..023c41b 100644
--- a/src/mb_backup.h
+++ b/src/mb_backup.h
@@ -36,6 +36,8 @@ public:
 private:
     static void copy_file(const std::string& src_path,
         const std::string& dest_path, char* buffer, int buffer_size);
+    static void copy_blocks(const std::string& src_base, const std::string& dest_base,
+        size_t end_offset, size_t block_size, char* buffer);
 
     const DB& db_ref;
     const IndexHeader* header;
-- 
2.43.0


From 49ab0e03d7b84445799868b84ed4417c26e1d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 27/38] fix: backups could not be opened with other queue
 settings and shared the source's update queue

---
 src/dict.h            |  2 ++
 src/mb_backup.cpp     | 65 ++++++++++++++++++++++++++++++++-----------
 src/mb_backup.h       |  2 ++
 src/shm_queue_mgr.cpp | 11 ++++++++
 src/shm_queue_mgr.h   |  2 ++
 src/shmq_update.cpp   | 18 ++++++++++++
 6 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/src/dict.h b/src/dict.h
index edf9287..9174841 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -83,6 +83,8 @@ public:
     int SHMQ_Remove(const char* key, int len);
     int SHMQ_RemoveAll();
     int SHMQ_Backup(const char* backup_dir);
+    // Create the async queue of a copy of this DB.
+    void CreateQueueForCopy(uint64_t queue_id, const std::string& copy_dir) const;
     int SHMQ_CollectResource(int64_t m_index_rc_size, int64_t m_data_rc_size,
         int64_t max_dbsz, int64_t max_dbcnt);
     void SHMQ_Signal();
diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index c60862f..ede7806 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -19,14 +19,15 @@
 #include <errno.h>
 #include <fstream>
 #include <iostream>
-#include <limits.h>
 #include <memory>
 #include <new>
 #include <sstream>
+#include <vector>
 
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
 #include "mb_data.h"
+#include "util/utils.h"
 
 namespace mabain {
 
@@ -104,6 +105,50 @@ void DBBackup::copy_blocks(const std::string& src_base, const std::string& dest_
     }
 }
 
+// The copy of the header is written last and at once. The copy has no open
+// handles and an async queue of its own.
+void DBBackup::copy_header(const std::string& src_path, const std::string& dest_path,
+    const char* bk_dir)
+{
+    std::vector<char> page(RollableFile::page_size);
+    FILE* fp = fopen(src_path.c_str(), "rb");
+    if (fp == NULL)
+        throw (int)MBError::OPEN_FAILURE;
+    const bool read_ok = fread(page.data(), page.size(), 1, fp) == 1;
+    fclose(fp);
+    if (!read_ok)
+        throw (int)MBError::READ_ERROR;
+
+    fp = fopen(dest_path.c_str(), "wb");
+    if (fp == NULL)
+        throw (int)MBError::OPEN_FAILURE;
+
+    int rval = MBError::SUCCESS;
+    try {
+        IndexHeader* copy = reinterpret_cast<IndexHeader*>(page.data());
+        copy->num_writer = 0;
+        copy->num_reader = 0;
+        copy->lock_free.offset = MAX_6B_OFFSET;
+        copy->shm_queue_id = get_file_inode(dest_path);
+        copy->queue_index = 0;
+        copy->writer_index = 0;
+        copy->rc_flag = 0;
+        db_ref.GetDictPtr()->CreateQueueForCopy(copy->shm_queue_id, bk_dir);
+    } catch (int error) {
+        rval = error;
+    }
+
+    if (rval == MBError::SUCCESS && fwrite(page.data(), page.size(), 1, fp) != 1)
+        rval = MBError::WRITE_ERROR;
+    if (fclose(fp) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
+    if (rval != MBError::SUCCESS) {
+        unlink(dest_path.c_str());
+        Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
+        throw rval;
+    }
+}
+
 int DBBackup::Backup(const char* bk_dir)
 {
     if (bk_dir == NULL)
@@ -147,22 +192,8 @@ int DBBackup::Backup(const char* bk_dir)
 
     read_file_path = orig_dir + "/_mabain_h";
     write_file_path = std::string(bk_dir) + "/_mabain_h";
-    // header is size of page_size
-    copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
-
-    // reset number readers/writers in backed up DB.
-    int rval;
-    DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-    if (!db.is_open())
-        throw (int)db.Status();
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_READER, INT_MIN);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-    db.Close();
+    copy_header(read_file_path, write_file_path, bk_dir);
+
     return MBError::SUCCESS;
 }
 
diff --git a/src/mb_backup.h b/src/mb_backup.h
index 023c41b..e43bb5e 100644
--- a/src/mb_backup.h
+++ b/src/mb_backup.h
@@ -38,6 +38,8 @@ private:
         const std::string& dest_path, char* buffer, int buffer_size);
     static void copy_blocks(const std::string& src_base, const std::string& dest_base,
         size_t end_offset, size_t block_size, char* buffer);
+    void copy_header(const std::string& src_path, const std::string& dest_path,
+        const char* bk_dir);
 
     const DB& db_ref;
     const IndexHeader* header;
diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index b607efe..95c55e8 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -93,6 +93,17 @@ ShmQueueMgr::~ShmQueueMgr()
 {
 }
 
+std::string ShmQueueMgr::GetQueueDir() const
+{
+    if (qfile == nullptr)
+        return "";
+    std::string dir = qfile->GetFilePath();
+    dir.resize(dir.rfind('/'));
+    while (!dir.empty() && dir.back() == '/')
+        dir.pop_back();
+    return dir;
+}
+
 void ShmQueueMgr::PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const
 {
     if (qfile != nullptr) {
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 4cae61f..0eee708 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -61,6 +61,8 @@ public:
     ShmQueueMgr();
     ~ShmQueueMgr();
     shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options);
+    // directory of the queue file, without trailing slashes
+    std::string GetQueueDir() const;
     void PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const;
 
 private:
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index d555f96..77a298f 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -23,6 +23,7 @@
 #include "async_writer.h"
 #include "dict.h"
 #include "error.h"
+#include "resource_pool.h"
 
 namespace mabain {
 
@@ -91,6 +92,23 @@ int Dict::SHMQ_Backup(const char* backup_dir)
     return SHMQ_PrepareSlot(node_ptr);
 }
 
+void Dict::CreateQueueForCopy(uint64_t queue_id, const std::string& copy_dir) const
+{
+    // Same place as the queue of this DB, unless that is in the DB directory.
+    std::string queue_dir = qmgr.GetQueueDir();
+    std::string db_dir = mbdir_;
+    while (!db_dir.empty() && db_dir.back() == '/')
+        db_dir.pop_back();
+    if (queue_dir == db_dir)
+        queue_dir = copy_dir;
+
+    ShmQueueMgr copy_qmgr;
+    copy_qmgr.CreateFile(queue_id, header->async_queue_size, queue_dir.c_str(),
+        CONSTS::ACCESS_MODE_WRITER);
+    ResourcePool::getInstance().RemoveResourceByPath(
+        queue_dir + "/_mabain_q" + std::to_string(queue_id));
+}
+
 int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
     int64_t m_data_rc_size,
     int64_t max_dbsz,
-- 
2.43.0


From c8eb536b606f7772fcef2d4c99d1f357e8f7cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 28/38] fix: an update that runs out of space threw out of the
 API and lost storage

Exceptions from the storage layer are returned as errors by Add and Remove; the
buffers a failed update had reserved are released, and the value of a removed
entry is released only after the removal succeeded.
---
 src/dict.cpp     | 53 +++++++++++++++++++++++++++++++++++++++++-------
 src/dict.h       |  8 +++++++-
 src/dict_mem.cpp | 30 ++++++++++++++++++++++++++-
 src/dict_mem.h   | 11 ++++++++++
 4 files changed, 93 insertions(+), 9 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 6cca48a..4c50aab 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -47,6 +47,8 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
     status = MBError::NOT_INITIALIZED;
     reader_rc_off = 0;
     slaq = NULL;
+    reserved_offset = 0;
+    reserved_size = 0;
 
     header = mm.GetHeaderPtr();
     if (header == NULL) {
@@ -298,6 +300,22 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     if (len > CONSTS::MAX_KEY_LENGHTH || data.data_len > CONSTS::MAX_DATA_SIZE || len <= 0 || data.data_len <= 0)
         return MBError::OUT_OF_BOUND;
 
+    int rval;
+    reserved_size = 0;
+    mm.TrackReserved();
+    try {
+        rval = AddEntry(key, len, data, overwrite);
+    } catch (int error) {
+        rval = error; // no space, nothing has been changed
+    }
+    mm.FinishReserved(rval);
+    if (rval != MBError::SUCCESS && reserved_size > 0)
+        ReleaseBuffer(reserved_offset, reserved_size);
+    return rval;
+}
+
+int Dict::AddEntry(const uint8_t* key, int len, MBData& data, bool overwrite)
+{
     EdgePtrs edge_ptrs;
     int rval;
 
@@ -710,13 +728,12 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
 
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
-//   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+//   The data buffer must be released by the caller when the removal is complete.
+int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs, size_t& rel_off, int& rel_size)
 {
     int rval = MBError::SUCCESS;
     size_t data_off;
     uint16_t data_len;
-    int rel_size;
 
     // Check if this is a leaf node first by using the EDGE_FLAG_DATA_OFF bit
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
@@ -729,7 +746,7 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        ReleaseBuffer(data_off, rel_size);
+        rel_off = data_off;
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
         uint8_t* node_buff = header->excep_node;
@@ -758,7 +775,7 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
             } else {
                 rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
             }
-            ReleaseBuffer(data_off, rel_size);
+            rel_off = data_off;
         } else {
             rval = MBError::NOT_EXIST;
         }
@@ -995,6 +1012,21 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         return MBError::INVALID_ARG;
 
     int rval;
+    mm.TrackReserved();
+    try {
+        rval = RemoveEntry(key, len, data);
+    } catch (int error) {
+        rval = error; // no space, nothing has been changed
+    }
+    mm.FinishReserved(rval);
+    return rval;
+}
+
+int Dict::RemoveEntry(const uint8_t* key, int len, MBData& data)
+{
+    int rval;
+    size_t rel_off = 0;
+    int rel_size = 0;
     header->excep_count = header->count - 1;
     mm.ForgetRemovedEdges(); // left by a removal that failed
     {
@@ -1003,7 +1035,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     }
     if (rval == MBError::IN_DICT) {
         InvalidateCachedPrefixes(key, len);
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
+        rval = DeleteDataFromEdge(data, data.edge_ptrs, rel_off, rel_size);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
             len -= data.edge_ptrs.len_ptr[0];
@@ -1020,8 +1052,10 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         }
     }
 
-    if (rval == MBError::SUCCESS)
+    if (rval == MBError::SUCCESS) {
+        ReleaseBuffer(rel_off, rel_size);
         header->count = header->excep_count;
+    }
 
     return rval;
 }
@@ -1099,6 +1133,11 @@ void Dict::ReserveData(const uint8_t* buff, int size, size_t& offset)
     } else {
         reserveDataFL(buff, size, offset);
     }
+    reserved_offset = offset;
+    if (options & CONSTS::OPTION_JEMALLOC)
+        reserved_size = size + DATA_HDR_BYTE;
+    else
+        reserved_size = free_lists->GetAlignmentSize(size + DATA_HDR_BYTE);
 
 #ifdef __DEBUG__
     // offset is allocated, add it to the tracking map
diff --git a/src/dict.h b/src/dict.h
index 9174841..3ea4731 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -150,7 +150,9 @@ private:
     void WriteNodeHeader(size_t edge_off, size_t node_off);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs, size_t& rel_off, int& rel_size);
+    int AddEntry(const uint8_t* key, int len, MBData& data, bool overwrite);
+    int RemoveEntry(const uint8_t* key, int len, MBData& data);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
@@ -163,6 +165,10 @@ private:
     // Memory management
     DictMem mm;
 
+    // data buffer reserved by the current update
+    size_t reserved_offset;
+    int reserved_size;
+
     // dict status
     int status;
 
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index e5761f9..6ddd79e 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -132,6 +132,7 @@ DictMem::DictMem(const std::string& mbdir, bool init_header, size_t memsize,
     root_offset_rc = 0;
     node_ptr = NULL;
     node_size = NULL;
+    track_reserved = false;
 
     assert(sizeof(IndexHeader) <= (unsigned)RollableFile::page_size);
     bool map_hdr = true;
@@ -820,6 +821,8 @@ bool DictMem::ReserveNode(int nt, size_t& offset, uint8_t*& ptr)
         ret = reserveNodeFL(nt, offset, ptr);
     }
 
+    if (track_reserved)
+        reserved.push_back({ offset, nt, 0 });
 #ifdef __DEBUG__
     // offset is allocated, add it to the tracking map
     // note if reserve failed, an exception will be thrown before this point
@@ -837,12 +840,12 @@ bool DictMem::reserveNodeFL(int nt, size_t& offset, uint8_t*& ptr)
     int buf_size = free_lists->GetAlignmentSize(node_size[nt]);
     int buf_index = free_lists->GetBufferIndex(buf_size);
 
-    header->n_states++;
 #ifdef __LOCK_FREE__
     if (free_lists->GetBufferByIndex(buf_index, offset)) {
         ptr = node_ptr;
         memset(ptr, 0, buf_size);
         header->pending_index_buff_size -= buf_size;
+        header->n_states++;
         return true;
     }
 #else
@@ -851,6 +854,7 @@ bool DictMem::reserveNodeFL(int nt, size_t& offset, uint8_t*& ptr)
         ptr = node_ptr;
         memset(ptr, 0, buf_size);
         header->pending_index_buff_size -= buf_size;
+        header->n_states++;
         return true;
     }
 #endif
@@ -875,6 +879,7 @@ bool DictMem::reserveNodeFL(int nt, size_t& offset, uint8_t*& ptr)
     memset(ptr, 0, buf_size);
     offset = header->m_index_offset;
     header->m_index_offset += buf_size;
+    header->n_states++;
     return node_move;
 }
 
@@ -895,6 +900,8 @@ void DictMem::ReserveData(const uint8_t* key, int size, size_t& offset, bool map
     } else {
         reserveDataFL(key, size, offset, map_new_sliding);
     }
+    if (track_reserved)
+        reserved.push_back({ offset, -1, size });
 #ifdef __DEBUG__
     // offset is allocated, add it to the tracking map
     // note if reserve failed, an exception will be thrown before this point
@@ -1483,6 +1490,27 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     return rval;
 }
 
+// An update may need several buffers. If it fails, those it got already are not used.
+void DictMem::TrackReserved()
+{
+    reserved.clear();
+    track_reserved = true;
+}
+
+void DictMem::FinishReserved(int rval)
+{
+    track_reserved = false;
+    if (rval != MBError::SUCCESS) {
+        for (const ReservedBuffer& buffer : reserved) {
+            if (buffer.nt >= 0)
+                ReleaseNode(buffer.offset, buffer.nt);
+            else
+                ReleaseBuffer(buffer.offset, buffer.size);
+        }
+    }
+    reserved.clear();
+}
+
 // Release the edges that are no longer part of the tree and their nodes.
 void DictMem::ReleaseRemovedEdges()
 {
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 11e398c..2373f6e 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -88,6 +88,8 @@ public:
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
     void ReleaseRemovedEdges();
     inline void ForgetRemovedEdges();
+    void TrackReserved();
+    void FinishReserved(int rval);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     inline void CommitUpdate() const;
@@ -159,6 +161,15 @@ private:
         int str_size;
     };
     std::vector<RemovedEdge> removed_edges;
+
+    // buffers reserved by the current update, released if the update fails
+    struct ReservedBuffer {
+        size_t offset;
+        int nt; // -1 for an edge string
+        int size;
+    };
+    std::vector<ReservedBuffer> reserved;
+    bool track_reserved;
 };
 
 // The update has been written. The entry count must be set before the exception
-- 
2.43.0


From f1ae2ac70c123883c6b303566494381150cb8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 29/38] fix: storage that could not be allocated was handed out

Reserve moved the end of the used storage before the new block was there, a
full file system was worked around by a sparse file whose pages cannot be
written, and a memory-only block that could not be mapped stayed in the pool.
---
 src/file_io.cpp       | 7 +++++++
 src/resource_pool.cpp | 5 +++++
 src/rollable_file.cpp | 5 +++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/file_io.cpp b/src/file_io.cpp
index 62e0abd..4495520 100644
--- a/src/file_io.cpp
+++ b/src/file_io.cpp
@@ -178,6 +178,13 @@ int FileIO::AllocateFile(off_t filesize)
         }
 
         int falloc_errno = errno;
+        if (falloc_errno != EOPNOTSUPP && falloc_errno != ENOSYS && falloc_errno != EINVAL) {
+            // The file can be extended with a hole, but when there is no space the
+            // process would be killed on writing to the mapped hole.
+            Logger::Log(LOG_LEVEL_ERROR, "fallocate failed for file %s, errno=%d",
+                path.c_str(), falloc_errno);
+            return 1;
+        }
         Logger::Log(LOG_LEVEL_WARN, "fallocate failed for file %s, errno=%d, falling back to ftruncate",
             path.c_str(), falloc_errno);
 
diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..d360f5f 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -118,6 +118,11 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
             } else {
                 Logger::Log(LOG_LEVEL_DEBUG, "failed to map file %s", fpath.c_str());
                 map_file = false;
+                if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
+                    // cannot be used without being mapped
+                    pthread_mutex_unlock(&pool_mutex);
+                    return NULL;
+                }
             }
         }
 
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index e25891c..99bee73 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -243,12 +243,13 @@ int RollableFile::Reserve(size_t& offset, int size, uint8_t*& ptr, bool map_new_
 {
     int rval;
     ptr = NULL;
-    offset = CheckAlignment(offset, size);
+    size_t aligned_offset = CheckAlignment(offset, size);
 
-    size_t order = offset / block_size;
+    size_t order = aligned_offset / block_size;
     rval = CheckAndOpenFile(order, true);
     if (rval != MBError::SUCCESS)
         return rval;
+    offset = aligned_offset;
 
     if (files[order]->IsMapped()) {
         size_t index = offset % block_size;
-- 
2.43.0


From 1a03ee848d67d910bc58e66d45b99c2b71c54002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 30/38] fix: a handle that is not the writer gave up the
 writer's registration

Closing a handle whose open had failed with WRITER_EXIST let another writer in
the same process open the database, and one that lost the file lock to another
process kept the registration, so that nobody could write later.
---
 src/db.cpp | 12 ++++++++++--
 src/db.h   |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index a0d232d..b386eb7 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,10 +155,11 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
+    if (owns_writer_lock) {
         release_file_lock(writer_lock_fd);
         std::string lock_file = mb_dir + "_lock";
         ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+        owns_writer_lock = false;
     }
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
@@ -312,6 +313,7 @@ DB::DB(const char* db_path,
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
     , writer_lock_fd(-1)
+    , owns_writer_lock(false)
 {
     MBConfig config;
     memset(&config, 0, sizeof(config));
@@ -332,6 +334,7 @@ DB::DB(MBConfig& config)
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
     , writer_lock_fd(-1)
+    , owns_writer_lock(false)
 {
     InitDB(config);
 }
@@ -406,9 +409,12 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
-                if (writer_lock_fd < 0)
+                if (writer_lock_fd < 0) {
                     status = MBError::WRITER_EXIST;
+                    ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+                }
             }
+            owns_writer_lock = status != MBError::WRITER_EXIST;
         } else {
             status = MBError::WRITER_EXIST;
         }
@@ -841,6 +847,7 @@ DB::DB(const DB& db)
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
     , writer_lock_fd(-1)
+    , owns_writer_lock(false)
 {
     MBConfig db_config = db.dbConfig;
     db_config.mbdir = db.mb_dir.c_str();
@@ -863,6 +870,7 @@ const DB& DB::operator=(const DB& db)
     reader_guard_fast_slot_count = 0;
     reader_guard_barrier_fallback_count = 0;
     writer_lock_fd = -1;
+    owns_writer_lock = false;
     InitDB(db_config);
 
     return *this;
diff --git a/src/db.h b/src/db.h
index 7310845..2ae19f1 100644
--- a/src/db.h
+++ b/src/db.h
@@ -268,6 +268,8 @@ private:
     AsyncWriter* async_writer;
 
     int writer_lock_fd;
+    // true if this handle is the one registered as the writer
+    bool owns_writer_lock;
 };
 
 }
-- 
2.43.0


From 343c0f406162977607be4326d71937f1b034d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 31/38] fix: handles that may not write could overwrite values
 or crash

WriteDataByOffset was accepted by readers, updates through a READ_ONLY_DB
handle used a queue that it does not have, and CollectResource reported success
when the queue did not take the request.
---
 src/db.cpp          | 4 +++-
 src/shmq_update.cpp | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index b386eb7..3a68c66 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -998,6 +998,8 @@ int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
 {
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
+    if (!(options & CONSTS::ACCESS_MODE_WRITER))
+        return MBError::NOT_ALLOWED;
 
     try {
         dict->WriteData(reinterpret_cast<const uint8_t*>(data), data_len, offset);
@@ -1219,7 +1221,7 @@ int DB::CollectResource(int64_t min_index_rc_size, int64_t min_data_rc_size,
             ResourceCollection rc(*this);
             rc.ReclaimResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         } else {
-            dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
+            return dict->SHMQ_CollectResource(min_index_rc_size, min_data_rc_size, max_dbsz, max_dbcnt);
         }
     } catch (int error) {
         if (error != MBError::RC_SKIPPED) {
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 77a298f..8b95b2a 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -132,6 +132,12 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
+    if (queue == nullptr) {
+        // Handles with READ_ONLY_DB have no queue.
+        err = MBError::NOT_ALLOWED;
+        return nullptr;
+    }
+
     // Take the next slot only if the writer is done with its previous use, so
     // that no slot is left unfilled in the queue.
     uint32_t index = header->queue_index.load(std::memory_order_acquire);
-- 
2.43.0


From 4344fa6796637af556b59d35c392224fb6f9f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 32/38] fix: a failed open erased an intact database or kept
 the writer's registration

---
 src/db.cpp       | 40 +++++++++++++++++++++++++++++-----------
 src/db.h         |  3 +++
 src/drm_base.cpp | 18 ++++++++++++++++--
 3 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 3a68c66..ce53bc6 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,16 +155,21 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (owns_writer_lock) {
-        release_file_lock(writer_lock_fd);
-        std::string lock_file = mb_dir + "_lock";
-        ResourcePool::getInstance().RemoveResourceByPath(lock_file);
-        owns_writer_lock = false;
-    }
+    ReleaseWriterLock();
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
 }
 
+void DB::ReleaseWriterLock()
+{
+    if (!owns_writer_lock)
+        return;
+    release_file_lock(writer_lock_fd);
+    std::string lock_file = mb_dir + "_lock";
+    ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+    owns_writer_lock = false;
+}
+
 int DB::UpdateNumHandlers(int mode, int delta)
 {
     int rval = MBError::SUCCESS;
@@ -479,12 +484,14 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         }
         IndexHeader* header = dict->GetHeaderPtr();
         if (header != NULL) {
-            header->async_queue_size = config.queue_size;
             header->ResetReaderEpochState();
             header->jemalloc_index_free_start = 0;
             header->jemalloc_data_free_start = 0;
         }
         dict->Init(identifier);
+        // The queue size tells readers and later writers that the DB is complete.
+        if (header != NULL && dict->Status() == MBError::SUCCESS)
+            header->async_queue_size = config.queue_size;
     }
 
     if (dict->Status() != MBError::SUCCESS) {
@@ -771,10 +778,13 @@ void DB::InitDB(MBConfig& config)
 
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
-    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
-        && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
+    // A DB that is intact must not be erased because it was opened with a wrong
+    // configuration or could not be opened for lack of resources.
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open() && no_valid_db)
         ReInit(config);
-    }
+    // not the writer if it could not be opened
+    if (!is_open() && async_writer == NULL)
+        ReleaseWriterLock();
     release_file_lock(fd);
 }
 
@@ -782,9 +792,13 @@ void DB::InitDBEx(MBConfig& config)
 {
     dict = NULL;
     async_writer = NULL;
+    no_valid_db = false;
+    options = config.options;
 
-    if (ValidateConfig(config) != MBError::SUCCESS)
+    if (ValidateConfig(config) != MBError::SUCCESS) {
+        status = MBError::INVALID_ARG;
         return;
+    }
 
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
@@ -807,6 +821,10 @@ void DB::InitDBEx(MBConfig& config)
     bool init_header = false;
     bool update_header = false; // true when header version is different from lib version
     PreCheckDB(config, init_header, update_header);
+    // The DB is new, its creation was not completed, or its header is of no use.
+    no_valid_db = !(options & CONSTS::MEMORY_ONLY_MODE)
+        && (init_header || status == MBError::NO_DB
+            || status == MBError::READ_ERROR || status == MBError::VERSION_MISMATCH);
     if (MBError::NOT_INITIALIZED != status) {
         Logger::Log(LOG_LEVEL_ERROR, "database %s check failed: %s", mb_dir.c_str(),
             MBError::get_error_str(status));
diff --git a/src/db.h b/src/db.h
index 2ae19f1..daa08fe 100644
--- a/src/db.h
+++ b/src/db.h
@@ -237,6 +237,7 @@ private:
     void InitDB(MBConfig& config);
     void InitDBEx(MBConfig& config);
     void ReInit(MBConfig& config);
+    void ReleaseWriterLock();
     void PreCheckDB(const MBConfig& config, bool& init_header, bool& update_header);
     void PostDBUpdate(const MBConfig& config, bool init_header, bool update_header);
     bool StartupRebuildRequested(const MBConfig& config, bool init_header) const;
@@ -270,6 +271,8 @@ private:
     int writer_lock_fd;
     // true if this handle is the one registered as the writer
     bool owns_writer_lock;
+    // true if the files found by the last attempt to open hold no valid DB
+    bool no_valid_db;
 };
 
 }
diff --git a/src/drm_base.cpp b/src/drm_base.cpp
index aa7d46a..90832a6 100644
--- a/src/drm_base.cpp
+++ b/src/drm_base.cpp
@@ -16,6 +16,9 @@
 
 // @author Changxue Deng <chadeng@cisco.com>
 
+#include <vector>
+
+#include "db.h"
 #include "drm_base.h"
 #include "error.h"
 #include "resource_pool.h"
@@ -82,13 +85,24 @@ void DRMBase::ValidateHeaderFile(const std::string& header_path, int mode,
     int queue_size, bool& update_header)
 {
     (void)mode;
-    (void)queue_size;
     update_header = false;
 
     uint16_t hdr_ver[4];
     ReadHeaderVersion(header_path, hdr_ver);
-    if (HeaderVersionMatchesCurrent(hdr_ver))
+    if (HeaderVersionMatchesCurrent(hdr_ver)) {
+        std::vector<uint8_t> buff(RollableFile::page_size);
+        ReadHeader(header_path, buff.data(), buff.size());
+        const IndexHeader* hdr = reinterpret_cast<const IndexHeader*>(buff.data());
+        // Set when the DB is complete.
+        if (hdr->async_queue_size <= 0 || hdr->async_queue_size > MB_MAX_NUM_SHM_QUEUE_NODE)
+            throw (int)MBError::NO_DB;
+        if (hdr->async_queue_size != queue_size) {
+            Logger::Log(LOG_LEVEL_ERROR, "async queue size not matching with header: %d %d",
+                hdr->async_queue_size, queue_size);
+            throw (int)MBError::INVALID_SIZE;
+        }
         return;
+    }
 
     Logger::Log(LOG_LEVEL_INFO, "header version: %u.%u.%u does not match "
                                 "library version: %u.%u.%u",
-- 
2.43.0


From 35f64354c29d2f340abcba5eac5daf37a1f09575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 33/38] fix: recreating a database removed the update queues of
 all databases

---
 src/util/utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..5d93c43 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -121,7 +121,10 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
 
 int remove_db_files(const std::string& db_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
+    // only this DB's queue
+    uint64_t inode = get_file_inode(db_dir + "/_mabain_h");
+    if (inode != 0)
+        std::remove(("/dev/shm/_mabain_q" + std::to_string(inode)).c_str());
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
-- 
2.43.0


From e07f56c746766df5f0067926d25edb0fa1e90d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 34/38] fix: opening with an index block smaller than the root
 node aborted

---
 src/dict_mem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 6ddd79e..3720737 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -237,7 +237,9 @@ void DictMem::InitRootNode()
         header->m_index_offset = 0;
         node_move = ReserveNode(NUM_ALPHABET - 1, root_offset, root_node);
     }
-    assert(root_offset == 0);
+    // The root node does not fit if it was not placed in the first block.
+    if (root_offset != 0 || root_node == nullptr)
+        throw (int)MBError::INVALID_SIZE;
 
     root_node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
     root_node[1] = NUM_ALPHABET - 1;
-- 
2.43.0


From c733473cb89dc7bf2c672a97db8af34b2f0e3377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 35/38] fix: jemalloc databases could not be reopened in one
 process, readers destroyed the writer's arena

---
 src/db.cpp            |  6 ++++++
 src/rollable_file.cpp | 20 +++++++++-----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ce53bc6..eb5ea56 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -374,6 +374,12 @@ int DB::ValidateConfig(MBConfig& config)
             }
         }
     }
+    // Readers do not allocate. They must not reset the writer's memory manager either.
+    if (!(config.options & CONSTS::ACCESS_MODE_WRITER))
+        config.options &= ~CONSTS::OPTION_JEMALLOC;
+    // An asynchronous writer needs the queue.
+    if (config.options & CONSTS::ASYNC_WRITER_MODE)
+        config.options &= ~CONSTS::READ_ONLY_DB;
     if (config.options & CONSTS::USE_SLIDING_WINDOW) {
         std::cout << "sliding window option is deprecated\n";
         config.options &= ~CONSTS::USE_SLIDING_WINDOW;
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 99bee73..7f8e776 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -151,14 +151,6 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
 
     if (!map_file && (mode & CONSTS::MEMORY_ONLY_MODE))
         return MBError::NO_MEMORY;
-    bool init_jem = false;
-    if (block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)) {
-        // Check if jemalloc is initialized already
-        if (ResourcePool::getInstance().GetResourceByPath(path + "0") == nullptr) {
-            // mm_meta is only initialized for the first block
-            init_jem = true;
-        }
-    }
     files[block_order] = ResourcePool::getInstance().OpenFile(path + ss.str(),
         mode,
         block_size,
@@ -166,9 +158,15 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
         create_file);
     if (files[block_order] == nullptr)
         return MBError::OPEN_FAILURE;
+    // A handle with less memory may have opened the block in this process before.
+    if (map_file && (mode & CONSTS::OPTION_JEMALLOC) && !files[block_order]->IsMapped())
+        map_file = files[block_order]->MapFile(block_size, 0) != NULL;
     if (map_file) {
         mem_used += block_size;
-        if (init_jem) {
+        // The memory manager belongs to the first block. The block may be in the pool
+        // without an arena if it was opened before by another handle.
+        if (block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)
+            && (files[0]->mm_meta == nullptr || files[0]->mm_meta->arena_index == 0)) {
             if (files[0]->mm_meta == nullptr) {
                 rval = files[0]->InitMemoryManager();
                 if (rval != MBError::SUCCESS) {
@@ -728,12 +726,12 @@ int RollableFile::DestroyJemallocArena(bool reinitialize)
         files[0]->mm_meta->arena_index = 0;
     }
 
+    delete files[0]->mm_meta;
+    files[0]->mm_meta = nullptr;
     if (!reinitialize) {
         return MBError::SUCCESS;
     }
 
-    delete files[0]->mm_meta;
-    files[0]->mm_meta = nullptr;
     files[0]->InitMemoryManager();
     return ConfigureJemalloc(files[0]->mm_meta);
 }
-- 
2.43.0


From ff4a31e78558efbd86c35451d8cc0f131e585d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 36/38] fix: the startup rebuild ran out of blocks and cleared
 the database

---
 src/mb_rc.cpp         | 49 +++++++++++++++++++++++++++++++++----------
 src/mb_rc.h           |  5 +++++
 src/rollable_file.cpp |  5 +++++
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 09db52b..58e6aa3 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -87,6 +87,8 @@ ResourceCollection::ResourceCollection(const DB& db, int rct)
     evacuate_index_block_end = 0;
     evacuate_data_block_start = 0;
     evacuate_data_block_end = 0;
+    live_index_end = 0;
+    live_data_end = 0;
     async_writer_ptr = NULL;
     startup_rebuild_.Clear();
 }
@@ -236,26 +238,31 @@ int ResourceCollection::StartupShrink()
 
     const size_t index_block_end = dmm->GetExistingBlockEnd();
     const size_t data_block_end = dict->GetExistingBlockEnd();
-    size_t index_tail = std::max(dmm->GetJemallocAllocSize(), index_block_end);
-    size_t data_tail = std::max(dict->GetJemallocAllocSize(), data_block_end);
-    if (index_tail == 0 || data_tail == 0)
+    if (index_block_end == 0 || data_block_end == 0)
         return MBError::NOT_INITIALIZED;
-    if (index_tail < header->m_index_offset || data_tail < header->m_data_offset) {
+    if (index_block_end < header->m_index_offset || data_block_end < header->m_data_offset) {
         Logger::Log(LOG_LEVEL_WARN,
             "startup shrink live offsets exceed reopen tails index=%llu/%llu data=%llu/%llu",
             static_cast<unsigned long long>(header->m_index_offset),
-            static_cast<unsigned long long>(index_tail),
+            static_cast<unsigned long long>(index_block_end),
             static_cast<unsigned long long>(header->m_data_offset),
-            static_cast<unsigned long long>(data_tail));
+            static_cast<unsigned long long>(data_block_end));
         return MBError::INVALID_SIZE;
     }
 
+    // In jemalloc mode, normal live offsets are not reliable reopen tails.
+    // Find out where the live buffers end.
+    live_index_end = dmm->GetRootOffset() + dmm->GetNodeSizePtr()[NUM_ALPHABET - 1];
+    live_data_end = dict->GetStartDataOffset();
+    TraverseDB(RESOURCE_COLLECTION_PHASE_MEASURE);
+    const size_t index_tail = live_index_end;
+    const size_t data_tail = live_data_end;
+
     startup_rebuild_.Reset(REBUILD_STATE_COPY);
     startup_rebuild_.rebuild_index_alloc_end = index_tail;
     startup_rebuild_.rebuild_data_alloc_end = data_tail;
 
-    // In jemalloc mode, normal live offsets are not reliable reopen tails.
-    // Reorder must use a non-overlapping workspace beyond the existing block end.
+    // Reorder must use a non-overlapping workspace beyond the live buffers.
     header->m_index_offset = index_tail;
     header->m_data_offset = data_tail;
     header->rc_m_index_off_pre = index_tail;
@@ -274,9 +281,19 @@ int ResourceCollection::StartupShrink()
     index_reorder_status = MBError::NOT_INITIALIZED;
     data_reorder_status = MBError::NOT_INITIALIZED;
     header->rc_root_offset.store(0, MEMORY_ORDER_WRITER);
-    ReorderBuffers();
-    CollectBuffers();
-    Finish();
+    try {
+        ReorderBuffers();
+        CollectBuffers();
+        Finish();
+    } catch (int err) {
+        if (err != MBError::NO_RESOURCE && err != MBError::NO_MEMORY && err != MBError::MMAP_FAILED
+            && err != MBError::OPEN_FAILURE)
+            throw;
+        // No room to reorder the buffers. Keep those which have been moved where they are.
+        Logger::Log(LOG_LEVEL_WARN, "startup shrink skipped: %s", MBError::get_error_str(err));
+        header->rc_m_index_off_pre = 0;
+        header->rc_m_data_off_pre = 0;
+    }
 
     startup_rebuild_.rebuild_index_source_end = std::max(index_block_end, header->m_index_offset);
     startup_rebuild_.rebuild_data_source_end = std::max(data_block_end, header->m_data_offset);
@@ -840,6 +857,16 @@ bool ResourceCollection::MoveDataBuffer(int phase, size_t& offset_src, int size)
 
 void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
 {
+    if (phase == RESOURCE_COLLECTION_PHASE_MEASURE) {
+        if (dbt_node.buffer_type & BUFFER_TYPE_NODE)
+            live_index_end = std::max(live_index_end, dbt_node.node_offset + dbt_node.node_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR)
+            live_index_end = std::max(live_index_end, dbt_node.edgestr_offset + dbt_node.edgestr_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
+            live_data_end = std::max(live_data_end, dbt_node.data_offset + dbt_node.data_size);
+        return;
+    }
+
     if (phase == RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX) {
         header->excep_lf_offset = dbt_node.edge_offset;
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
diff --git a/src/mb_rc.h b/src/mb_rc.h
index a8667b3..e2bb0b0 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -31,6 +31,7 @@
 #define RESOURCE_COLLECTION_PHASE_COLLECT 0x02
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX 0x04
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_DATA 0x08
+#define RESOURCE_COLLECTION_PHASE_MEASURE 0x10
 
 namespace mabain {
 
@@ -144,6 +145,10 @@ private:
     size_t edge_str_size;
     int64_t node_cnt;
 
+    // Ends of the live buffers found by StartupShrink
+    size_t live_index_end;
+    size_t live_data_end;
+
     // Current full source block being evacuated in Step 6.
     size_t evacuate_index_block_start;
     size_t evacuate_index_block_end;
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 7f8e776..8dbd168 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -555,6 +555,11 @@ int RollableFile::ReseedJemalloc(size_t alloc_size)
 
     size_t block_order = alloc_size / block_size;
     rval = CheckAndOpenFile(block_order, true);
+    if (rval == MBError::NO_RESOURCE && alloc_size == max_num_block * block_size) {
+        // all space is in use
+        files[0]->mm_meta->alloc_size = alloc_size;
+        return MBError::SUCCESS;
+    }
     if (rval != MBError::SUCCESS) {
         return rval;
     }
-- 
2.43.0


From e31c88293130b3796e0d9a4c86b0bf1f3a169c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 37/38] fix: allocating from blocks that were reused before, or
 beyond the last block

After the startup rebuild emptied blocks are handed out again. Once they were
used up, the allocator continued with the block after the current tail, even if
it had been handed out already, and overwrote live buffers. When the last block
was exactly full it continued with a block that does not exist.
---
 src/mb_mm.h           |  2 ++
 src/rollable_file.cpp | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mb_mm.h b/src/mb_mm.h
index 83c3b99..e1d7f73 100644
--- a/src/mb_mm.h
+++ b/src/mb_mm.h
@@ -49,6 +49,8 @@ public:
     unsigned arena_index;
 
     std::vector<uint32_t> reusable_block_order;
+    // reused before; skipped when allocating from the tail
+    std::vector<uint32_t> reused_block_order;
     int active_reusable_block_order;
     size_t active_reusable_block_offset;
 };
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 8dbd168..076eaf7 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -16,6 +16,7 @@
 
 // @author Changxue Deng <chadeng@cisco.com>
 
+#include <algorithm>
 #include <assert.h>
 #include <climits>
 #include <cstdlib>
@@ -784,7 +785,7 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
         int block_order = mm_meta->alloc_size / mgr->block_size;
         size_t relative_offset = mm_meta->alloc_size % mgr->block_size;
         aligned_offset = (relative_offset + alignment - 1) & ~(alignment - 1);
-        if (aligned_offset + size > mgr->block_size) {
+        if (relative_offset == 0 || aligned_offset + size > mgr->block_size) {
             if (!mm_meta->reusable_block_order.empty()) {
                 block_order = static_cast<int>(mm_meta->reusable_block_order.back());
                 int rval = mgr->CheckAndOpenFile(block_order, true);
@@ -806,10 +807,15 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 mm_meta->reusable_block_order.pop_back();
                 mm_meta->active_reusable_block_order = block_order;
                 mm_meta->active_reusable_block_offset = size;
+                mm_meta->reused_block_order.push_back(static_cast<uint32_t>(block_order));
                 ptr = mgr->files[block_order]->GetMapAddr();
             } else {
-                // Try next tail block
-                block_order++;
+                // Try next tail block, except for those that were reused already
+                if (relative_offset != 0)
+                    block_order++;
+                const std::vector<uint32_t>& reused = mm_meta->reused_block_order;
+                while (std::find(reused.begin(), reused.end(), static_cast<uint32_t>(block_order)) != reused.end())
+                    block_order++;
                 if ((size_t)block_order >= mgr->max_num_block) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded",
                         " new memory (aligned offset: %zu, used: %zu, size: %zu)",
-- 
2.43.0


From 21178d3a467e346fbb1bc9fbc979b53b54695170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 38/38] fix: FindLongestPrefix returned outdated values during
 asynchronous collections

With a match of the same length in the rc tree and in the main tree the
main tree's older value was returned. Taking over the rc tree's value also
left a stale buffer length in the caller's MBData, so that a later lookup
with the same object could write beyond the buffer.
---
 src/detail/search_engine.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 2d38ee1..b4c1fe3 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -92,10 +92,17 @@ namespace detail {
         }
 #endif
 
-        // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
-            data_rc.TransferValueTo(data.buff, data.data_len);
-            // Preserve the longer match length from rc-path.
+        // Prefer the longer match. With equal lengths the value in the rc tree
+        // is the newer one.
+        if (data_rc.match_len > 0 && data_rc.match_len >= data.match_len) {
+            uint8_t* buff = NULL;
+            int data_len = 0;
+            int rc_rval = data_rc.TransferValueTo(buff, data_len);
+            if (rc_rval != MBError::SUCCESS)
+                return rc_rval;
+            data.TransferValueFrom(buff, data_len);
+            data.data_offset = data_rc.data_offset;
+            data.bucket_index = data_rc.bucket_index;
             data.match_len = data_rc.match_len;
             rval = MBError::SUCCESS;
         }
-- 
2.43.0

